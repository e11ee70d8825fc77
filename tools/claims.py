NOTES = ("Specifications in TLA+ checked with TLC (spec/), replayed in and compared with the real code by harness/ "
         "(public API only, no hooks in /repo). check.py is the entry point of every check.")
EX = ("TLC model checking of spec/ExprDesign.tla; TLC-generated programs (spec/ExprGen.tla) replayed in the real code and compared with "
      "the specification's meaning (spec/Prog.tla, Jet.tla)")
EXN = ("Exhaustive for programs of two operators (three in the thorough tier), random for programs of 14; values at three points, "
       "so a difference confined to special points other than those enumerated could be missed. Trusts TLC and the jet arithmetic "
       "in harness/src/jet.rs, which is confirmed against TLC's exact rationals on each run.")
CLAIMS = {p: (EX, "model_checking", EXN) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C22")}
MO = ("TLC-generated models (spec/ModelGen.tla: menu enumerated, random linear, nonlinear and 13-variable models) replayed in the real code, with "
      "TLC's exact verdicts and values as the oracle")
MN = ("Exhaustive over sequences of two (thorough three) constraints of a menu of 27 at a grid of points, random beyond. Trusts TLC, the driver's "
      "projection of a standard problem and its jet arithmetic, confirmed against TLC's rationals on each run. "
      "Models of up to 1700 variables are generated ones side by side (theorem Beside of spec/ModelGen.tla).")
CLAIMS["C07"] = ("TLC model checking of spec/Viol.tla (what a violation is); its cases and histories, and models of spec/ModelGen.tla, replayed in the real code", "model_checking", MN)
CLAIMS["C08"] = (MO + "; recorded standard problems of linear models checked by TLC for the same feasible points (spec/StdCheck.tla)", "model_checking", MN)
CLAIMS["C09"] = (MO + "; recorded standard problems checked by TLC (spec/StdCheck.tla)", "model_checking", MN)
CLAIMS["C10"] = (MO + "; sequences of evaluations at several points", "model_checking", MN)
CLAIMS["C13"] = ("TLC model checking of spec/Sparse.tla; the matrices it builds replayed in the real code and compared with its expected states", "model_checking",
                 "Exhaustive for small matrices, random up to 14 by 13 with 40 entries; rows of up to 70000 entries are repeated copies of specified ones. Trusts TLC and the comparison in harness/src/sparse.rs.")
CLAIMS["C14"] = ("TLC model checking of an LP format reader (spec/LpText.tla) against a writer design (spec/LpGen.tla); files written by the real code are read "
                 "and compared by TLC (spec/LpRead.tla)", "model_checking",
                 "Exhaustive over small problems (every 4th written by the real code in the quick tier), random to 14 columns; files of up to 70000 columns are specified ones repeated side by side. Trusts TLC and the tokeniser.")
SO = ("TLC-generated histories of edits, solves and solver failures (spec/Solve.tla, exhaustive to the bound and random) replayed on a Model with a scripted solver; "
      "the model's answers compared with the specification's state after every step")
SN = ("Exhaustive for short histories over small menus, random beyond. The scripted solver implements the public Solver trait, so the path through "
      "Model::solve is the real one.")
CLAIMS["C11"] = (SO, "model_checking", SN)
CLAIMS["C12"] = (SO + "; recorded duals checked against the optimality conditions by TLC (spec/SolveCheck.tla, StdCheck.tla); models that TLC makes around a known unique primal and dual solution (spec/KktGen.tla) solved by the real solvers", "model_checking", SN)
CLAIMS["C15"] = ("TLC enumerates solution files (spec/SolFile.tla) with their meaning; each is read by the real reader and compared", "model_checking",
                 "Exhaustive for a header of 17 kinds and up to three lines out of 25; random files of up to 50 lines beyond, some embedded in files of up to 100000 lines. Trusts TLC and the driver.")
CM = ("TLC model checking of spec/CmdSolver.tla (files, programs and solves sharing a directory); its behaviours played step by step against the real solvers "
      "with stand-in programs, results and leftovers compared")
CN = ("Exhaustive over fault sequences and program interleavings of two solves (thorough: fault sequences of three), random beyond. The library's own steps are not "
      "scheduled step by step; free-running threads (up to 64 at once) and processes sample them. Exit codes 1 to 255 and ten signals occur in random behaviours. Trusts the stand-in program and the driver.")
CLAIMS["C16"] = (CM, "model_checking", CN)
CLAIMS["C17"] = (CM, "model_checking", CN)
IP = "; played against the real interface with a stand-in Ipopt library"
CLAIMS["C18"] = ("TLC model checking of spec/IpoptCb.tla (callback histories with exact answers)" + IP, "model_checking",
                 "Exhaustive for histories of two (thorough three) calls over a menu of problems, random histories of 14 on up to three open problems, some embedded in problems of up to 70000 columns. Trusts TLC and the stand-in library.")
CLAIMS["C19"] = ("TLC model checking of spec/IpoptUse.tla (protocol of the library, spec/IpoptProto.tla)" + IP + "; the recorded calls validated by TLC (spec/IpoptTrace.tla)", "model_checking",
                 "Exhaustive over endings of one and two solves, random scenarios of six, with sizes to about 300 and limits and values up to 2e19 and infinite. Trusts TLC and the stand-in library.")
CLAIMS["C20"] = ("TLC model checking of spec/Params.tla; its histories played on the real solvers with stand-in programs and library, state compared after every step", "model_checking",
                 "Exhaustive for histories of two (thorough three) steps, random for 20, with long texts and extreme numbers. Trusts TLC and the stand-ins.")
CLAIMS["C21"] = ("TLC computes the exact optimum of bounded linear and mixed-integer models (spec/Opt.tla); each is written in a random way, solved by the real Cbc, Clp and Ipopt, and compared", "model_checking",
                 "A menu of 1458 models and random ones of up to three variables and rows; larger models are not reached. Trusts TLC and the installed solvers.")
CLAIMS["C23"] = ("TLC-generated problems made by hand, consistent and inconsistent, and histories of evaluations and combinations through their views (spec/Views.tla, exact integer values), replayed on the real problem classes", "model_checking",
                 "Exhaustive over classes, sizes up to three and single size errors, with random data; random histories on problems of up to nine variables, some embedded in ones of up to 70000. Quadratic functions only: the classes hold the caller's evaluation function and do not look inside it. Trusts TLC and the driver.")

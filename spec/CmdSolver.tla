----------------------------- MODULE CmdSolver -----------------------------
(* Solves through an external program: each chooses file names, writes its   *)
(* problem, runs the program, reads the solution the program left and        *)
(* removes both files. Programs and the system misbehave in every way of     *)
(* Faults, and several solves share a directory. The specification says what *)
(* each solve may report and that nothing is left; schedules of program      *)
(* events go to OUT and are played against the real code with stand-in       *)
(* programs that the driver steps.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Max,          \* number of solves
          Mode,         \* "fine": every step on its own (invariants only); "sequence": one after another;
                        \* "interleave": steps of the programs in any order; "random": the same, simulated
          FreshNames    \* FALSE: names may coincide (a design that does not work)

(* what the program (or the system) does *)
Writes == {"ok", "infeasible", "unbounded", "exit", "kill", "empty", "cut", "half", "garbage", "lpgone", "extra", "chatty"}
ProgramFaults == Writes \cup {"none", "noread"}
SystemFaults == {"missing", "notexec", "nodir", "notmp", "full", "noparam", "dirgone"}
Faults == ProgramFaults \cup SystemFaults
Kinds == {"cbc", "clp"}
S == 1..Max
(* chatty: a program that prints more than any buffer holds                  *)
(* the program never runs, or what it writes goes nowhere *)
NoRun(f) == f \in {"missing", "notexec", "nodir", "notmp", "full", "noparam"}

VARIABLES kind, fault, pc, name, dir, seen, code, result, hist, n
vars == <<kind, fault, pc, name, dir, seen, code, result, hist, n>>
(* a file: [name, type, owner (whose problem it states or solves), content] *)
File(x, t, o, c) == [name |-> x, type |-> t, owner |-> o, content |-> c]
Get(x, t) == {f \in dir : f.name = x /\ f.type = t}

Init == /\ kind = [i \in S |-> "cbc"] /\ fault = [i \in S |-> "ok"]
        /\ pc = [i \in S |-> "idle"] /\ name = [i \in S |-> 0] /\ dir = {}
        /\ seen = [i \in S |-> 0]        \* whose problem the program read
        /\ code = [i \in S |-> -1]       \* exit: 0 success
        /\ result = [i \in S |-> <<"none", 0>>]
        /\ hist = <<>> /\ n = 0

Pick(X) == RandomElement(X)
Fresh == IF FreshNames THEN CHOOSE x \in 1..(2 * Max + 1) : x \notin {f.name : f \in dir} \cup {name[i] : i \in {i \in S : pc[i] \notin {"idle", "done"}}}
         ELSE 1
Log(e) == IF Mode = "fine" THEN hist' = hist ELSE hist' = Append(hist, e)
Idle(i) == pc[i] = "idle" /\ \A j \in S : j < i => pc[j] # "idle"

(* -------- the solve's steps before the program runs *)
Begin(i, k, f) == /\ Idle(i)
                  /\ kind' = [kind EXCEPT ![i] = k] /\ fault' = [fault EXCEPT ![i] = f]
                  /\ name' = [name EXCEPT ![i] = Fresh] /\ pc' = [pc EXCEPT ![i] = "named"]
                  /\ UNCHANGED <<dir, seen, code, result, hist, n>>
WriteProblem(i) == /\ pc[i] = "named"
                   /\ IF NoRun(fault[i]) /\ fault[i] \notin {"missing", "notexec"}
                      THEN pc' = [pc EXCEPT ![i] = "finished"] /\ code' = [code EXCEPT ![i] = 1] /\ dir' = dir
                      ELSE /\ dir' = {f \in dir : ~(f.name = name[i] /\ f.type = "lp")} \cup {File(name[i], "lp", i, "whole")}
                           /\ pc' = [pc EXCEPT ![i] = "written"] /\ code' = code
                   /\ UNCHANGED <<kind, fault, name, seen, result, hist, n>>
Spawn(i) == /\ pc[i] = "written"
            /\ IF NoRun(fault[i]) THEN pc' = [pc EXCEPT ![i] = "finished"] /\ code' = [code EXCEPT ![i] = 1]
               ELSE pc' = [pc EXCEPT ![i] = "running"] /\ code' = code
            /\ UNCHANGED <<kind, fault, name, dir, seen, result, hist, n>>
(* the three at once, as the driver sees them *)
Start(i, k, f) ==
  /\ Idle(i) /\ Log(<<"start", i>>)
  /\ kind' = [kind EXCEPT ![i] = k] /\ fault' = [fault EXCEPT ![i] = f] /\ name' = [name EXCEPT ![i] = Fresh]
  /\ IF NoRun(f) THEN pc' = [pc EXCEPT ![i] = "finished"] /\ code' = [code EXCEPT ![i] = 1] /\ dir' = dir
     ELSE pc' = [pc EXCEPT ![i] = "running"] /\ code' = code /\ dir' = dir \cup {File(Fresh, "lp", i, "whole")}
  /\ UNCHANGED <<seen, result, n>>

(* -------- the program's steps *)
ProgramRead(i) == /\ pc[i] = "running"
                  /\ LET fs == Get(name[i], "lp")
                     IN seen' = [seen EXCEPT ![i] = IF fs = {} \/ fault[i] = "noread" THEN 0 ELSE (CHOOSE f \in fs : TRUE).owner]
                  /\ pc' = [pc EXCEPT ![i] = "read"] /\ Log(<<"read", i>>)
                  /\ UNCHANGED <<kind, fault, name, dir, code, result, n>>
Content(f) == CASE f \in {"ok", "exit", "kill", "lpgone", "chatty"} -> "whole" [] OTHER -> f
ProgramWrite(i) == /\ pc[i] = "read"
                   /\ LET gone == {f \in dir : (fault[i] = "lpgone" /\ f.name = name[i] /\ f.type = "lp") \/ (fault[i] = "dirgone" /\ f.name = name[i])
                                               \/ (fault[i] \in Writes /\ f.name = name[i] /\ f.type = "sol")}
                      IN dir' = (dir \ gone) \cup (IF fault[i] \in Writes /\ seen[i] # 0 THEN {File(name[i], "sol", seen[i], Content(fault[i]))} ELSE {})
                   /\ pc' = [pc EXCEPT ![i] = "wrote"] /\ Log(<<"write", i>>)
                   /\ UNCHANGED <<kind, fault, name, seen, code, result, n>>
ProgramExit(i) == /\ pc[i] = "wrote"
                  /\ code' = [code EXCEPT ![i] = IF fault[i] \in {"exit", "kill"} THEN 1 ELSE 0]
                  /\ pc' = [pc EXCEPT ![i] = "finished"] /\ Log(<<"exit", i>>)
                  /\ UNCHANGED <<kind, fault, name, dir, seen, result, n>>

(* -------- the solve's steps afterwards: what is reported, and the cleaning *)
Report(i) == IF code[i] # 0 THEN <<"error", 0>>
             ELSE LET fs == Get(name[i], "sol")
                  IN IF fs = {} THEN <<"error", 0>>
                     ELSE LET f == CHOOSE f \in fs : TRUE
                          IN IF f.content = "whole" THEN <<"solved", f.owner>> ELSE IF f.content = "infeasible" THEN <<"infeasible", f.owner>> ELSE <<"error", 0>>
Finish(i) == /\ pc[i] = "finished"
             /\ result' = [result EXCEPT ![i] = Report(i)]
             /\ dir' = {f \in dir : f.name # name[i]}
             /\ pc' = [pc EXCEPT ![i] = "done"] /\ n' = n + 1
             /\ UNCHANGED <<kind, fault, name, seen, code, hist>>

Sequential == \A i, j \in S : i # j => pc[i] \in {"idle", "done"} \/ pc[j] \in {"idle", "done"}
Alone(i) == \A j \in S : j # i => pc[j] \in {"idle", "done"}
Urgent == Mode \in {"interleave", "random", "sequence"} /\ \E i \in S : pc[i] = "finished"
Some(z) == {"ok", "infeasible", "exit", "none", "cut"}
Program(i) == ProgramRead(i) \/ ProgramWrite(i) \/ ProgramExit(i)
Next == \E i \in S :
  \/ Finish(i)
  \/ Mode = "fine" /\ ((\E k \in {"cbc"}, f \in {"ok", "infeasible", "exit", "none", "cut", "missing", "nodir", "lpgone"} : Begin(i, k, f)) \/ WriteProblem(i) \/ Spawn(i) \/ Program(i))
  \/ Mode = "sequence" /\ ~Urgent /\ ((Alone(i) /\ \E k \in Kinds, f \in Faults : (i > 1 => k = kind[1]) /\ Start(i, k, f)) \/ Program(i))
  \/ Mode = "interleave" /\ ~Urgent /\ ((\E k \in Kinds, f \in Some(0) : Start(i, k, f)) \/ Program(i))
RandomNext ==
  IF Urgent THEN \E i \in {CHOOSE i \in S : pc[i] = "finished"} : Finish(i)
  ELSE \E i \in {Pick({i \in S : pc[i] # "done" /\ (pc[i] = "idle" => Idle(i))})} :
         \/ \E k \in {Pick(Kinds)}, f \in {IF Pick(1..2) = 1 THEN "ok" ELSE Pick(ProgramFaults)} : Start(i, k, f)
         \/ Program(i)
Spec == Init /\ [][IF Mode = "random" THEN (\E i \in S : pc[i] # "done") /\ RandomNext ELSE Next]_vars

----------------------------------------------------------------------------
(* solved only if the program ran on this problem, succeeded and wrote its whole solution *)
Honest == \A i \in S : pc[i] = "done" =>
            /\ result[i][1] = "solved" <=> (fault[i] \in {"ok", "lpgone", "chatty"})
            /\ result[i][1] = "infeasible" <=> (fault[i] = "infeasible")
            /\ result[i][1] \in {"solved", "infeasible"} => result[i][2] = i
OwnProblem == \A i \in S : pc[i] \in {"read", "wrote"} => seen[i] \in {0, i}
Clean == (\A i \in S : pc[i] \in {"idle", "done"}) => dir = {}
Emit == ("OUT" \in DOMAIN IOEnv /\ n = Max) =>
          Serialize(ToJson([k |-> kind, f |-> fault, ev |-> hist, r |-> [i \in S |-> result[i][1]]]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

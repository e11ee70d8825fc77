------------------------------ MODULE IpoptUse ------------------------------
(* A solver object's use of the Ipopt library: parameters are set, problems   *)
(* are solved; the library may fail to create the problem, reject an option   *)
(* or end with any code and any numbers. The design is checked against the    *)
(* protocol (IpoptProto); scenarios with their expected outcome go to OUT and *)
(* are played with a stand-in library.                                        *)
EXTENDS IpoptProto, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxSolves, Mode,  \* "all" or "random"
          Release           \* "always": on every path; "solved": only after a solve (a design that leaks)

Codes == {0, 1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -10, -11, -12, -13, -100, -101, -102, -199}
Prints == {-3, 0, 5, 12, 70000}
Sbs == {"yes", "no", "", "Yes ", "nul"}      \* nul: a text with a nul byte
VARIABLES par, pc, cur, h, steps, n
vars == <<par, pc, cur, h, steps, n>>
Pick(S) == RandomElement(S)

Num(z) == Pick(-50..50)
(* numbers that stand for others: 777001 not a number, 777002 infinity, 777003 1e300, 777004 1e-9, *)
(* 777005 the least positive double, 777006 1e-20, 777007 1e8 + 1, 777008 1e12, 777009 1e15,     *)
(* 777010 1e18, 777011 1e19, 777012 2e19, and their negatives                            *)
Given(z) == IF Pick(1..6) = 1 THEN Pick({-1, 1}) * Pick(777001..777012) ELSE Num(z)
Fin(z) == IF Pick(1..8) = 1 THEN Pick({-1, 1}) * Pick(777003..777012) ELSE Num(z)
Limit(z) == IF Pick(1..4) = 1 THEN 100000000 * Pick({-1, 1}) ELSE IF Pick(1..4) = 1 THEN Pick({-1, 1}) * Pick(777002..777012) ELSE Pick(-50..50)
(* a problem and what the library gives back *)
RandSolve(z) ==
  LET big == Pick(1..5) = 1
      huge == big /\ Pick(1..6) = 1
      nx == IF huge THEN Pick({7, 258, 300}) ELSE IF big THEN Pick(5..30) ELSE Pick(0..4)
      na == IF huge THEN Pick({5, 257, 300}) ELSE IF big THEN Pick(4..14) ELSE Pick(0..3)  cls == Pick({"lp", "nlp"})
      nf == IF cls = "lp" THEN 0 ELSE IF huge THEN Pick({9, 259, 310}) ELSE IF big THEN Pick(4..14) ELSE Pick(0..3)
  IN [cls |-> cls, nx |-> nx, na |-> na, nf |-> nf, start |-> Pick({TRUE, FALSE}),
      l |-> [i \in 1..nx |-> Limit(i)], u |-> [i \in 1..nx |-> Limit(i)], x0 |-> [i \in 1..nx |-> Fin(i)], b |-> [i \in 1..na |-> Fin(i)],
      create |-> Pick(1..8) > 1, reject |-> IF Pick(1..6) > 1 THEN "" ELSE Pick({"print_level", "sb"}), code |-> IF Pick(1..2) = 1 THEN Pick(0..2) ELSE Pick(Codes),
      x |-> [i \in 1..nx |-> Given(i)], mg |-> [i \in 1..(na + nf) |-> Given(i)],
      ml |-> [i \in 1..nx |-> Given(i)], mu |-> [i \in 1..nx |-> Given(i)]]
MenuSolve(cls, nx, na, nf, start, create, reject, code) ==
  [cls |-> cls, nx |-> nx, na |-> na, nf |-> nf, start |-> start, l |-> [i \in 1..nx |-> -i], u |-> [i \in 1..nx |-> 10 * i], x0 |-> [i \in 1..nx |-> 3 * i - 4],
   b |-> [i \in 1..na |-> 7 * i], create |-> create, reject |-> reject, code |-> code,
   x |-> [i \in 1..nx |-> 5 - 3 * i], mg |-> [i \in 1..(na + nf) |-> 4 * i - 7], ml |-> [i \in 1..nx |-> 2 * i], mu |-> [i \in 1..nx |-> 20 + i]]

Init == /\ par = [print |-> 5, sb |-> "no"] /\ pc = "idle" /\ cur = [cls |-> ""] /\ h = Blank /\ steps = <<>> /\ n = 0

Set(name, v) == /\ pc = "idle" /\ par' = [par EXCEPT ![name] = v]
                /\ steps' = Append(steps, [s |-> "set", name |-> name, v |-> v])
                /\ UNCHANGED <<pc, cur, h, n>>
Begin(c) == /\ pc = "idle" /\ n < MaxSolves /\ cur' = c /\ h' = Blank /\ pc' = "create" /\ UNCHANGED <<par, steps, n>>
Do(e, next) == /\ Assert(Legal(h, e, par), <<h, e>>) /\ h' = After(h, e) /\ pc' = next /\ UNCHANGED <<par, cur, steps, n>>
Create == pc = "create" /\ Do(<<"create", cur.create>>, IF cur.create THEN "int" ELSE "failed")
Failed == IF Release = "always" THEN "drop" ELSE "failed"
AddInt == pc = "int" /\ Do(<<"int", "print_level", par.print, cur.reject # "print_level">>, IF cur.reject = "print_level" THEN Failed ELSE "str")
AddStr == /\ pc = "str" /\ IF par.sb = "nul" THEN pc' = Failed /\ UNCHANGED <<par, cur, h, steps, n>>
                           ELSE Do(<<"str", "sb", par.sb, cur.reject # "sb">>, IF cur.reject = "sb" THEN Failed ELSE "solve")
Run == pc = "solve" /\ Do(<<"solve">>, "free")
Free == pc = "free" /\ Do(<<"free">>, "ok")
Drop == pc = "drop" /\ Do(<<"free">>, "failed")
Neg(s) == [i \in DOMAIN s |-> -s[i]]
Return == /\ pc \in {"ok", "failed"} /\ pc' = "idle" /\ n' = n + 1
          /\ steps' = Append(steps, [s |-> "solve", q |-> cur, print |-> par.print, sb |-> par.sb,
                                     r |-> IF pc = "failed" THEN "fail" ELSE Status(cur.code),
                                     lam |-> Neg(SubSeq(cur.mg, 1, cur.na)), nu |-> Neg(SubSeq(cur.mg, cur.na + 1, cur.na + cur.nf))])
          /\ UNCHANGED <<par, cur, h>>
Inner == Create \/ AddInt \/ AddStr \/ Run \/ Free \/ Drop \/ Return
Edit == MaxSolves = 1 /\ steps = <<>>
All == \/ Inner
       \/ Edit /\ \E v \in {0, 12} : Set("print", v)
       \/ Edit /\ \E v \in {"yes", "nul"} : Set("sb", v)
       \/ \E k \in {<<"lp", 2, 1, 0>>, <<"nlp", 3, 1, 2>>, <<"nlp", 1, 0, 0>>}, st \in (IF MaxSolves = 1 THEN BOOLEAN ELSE {TRUE}), cr \in BOOLEAN, rj \in {"", "print_level", "sb"}, code \in (IF MaxSolves = 1 THEN Codes ELSE {0, 2, -1}) :
            Begin(MenuSolve(k[1], k[2], k[3], k[4], st, cr, rj, code))
Random == IF pc # "idle" THEN Inner
          ELSE \E w \in {Pick(1..5)} :
                 CASE w = 1 -> \E v \in {Pick(Prints)} : Set("print", v)
                   [] w = 2 -> \E v \in {Pick(Sbs)} : Set("sb", v)
                   [] OTHER -> \E c \in {RandSolve(n)} : Begin(c)
Next == IF Mode = "all" THEN All ELSE n < MaxSolves /\ Random
Spec == Init /\ [][Next]_vars

ReleasedOnce == pc \in {"ok", "failed"} => Released(h)
SolvedIffRan == pc = "ok" => h.stage = "done"
Emit == ("OUT" \in DOMAIN IOEnv /\ n = MaxSolves) =>
          Serialize(ToJson([steps |-> steps]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

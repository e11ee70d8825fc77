------------------------------ MODULE SolFile ------------------------------
(* Solution files of cbc and clp: what reading one must give. A file is a    *)
(* header (possibly of two lines for clp) and lines of tokens. The reader    *)
(* here says for each file what the result is: a status and, if solved, the  *)
(* value and multipliers of every variable and row; "bad" for what must be   *)
(* an error, "free" where several readings are legitimate and only           *)
(* termination without inventing an optimum is asked. Files go to OUT.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxLines, Mode        \* "all": every file of MaxLines lines over the alphabet; "random": larger problems

VARIABLES flavor,   \* "cbc" or "clp"
          header,   \* <<flavour, lines, meaning>>
          size,     \* <<number of variables, number of rows>>
          body,     \* lines
          ending,   \* 0: newline after the last line, 1: none, 2: carriage returns
          phase
vars == <<flavor, header, size, body, ending, phase>>

(* flavour (both: "any"), text of the lines, meaning *)
Headers == << <<"cbc", <<"Optimal - objective value 12.50000000">>, "optimal">>,
              <<"clp", <<"Optimal - objective value 12.5">>, "optimal">>,
              <<"clp", <<"optimal", "Objective value 12.5">>, "optimal2">>,
              <<"clp", <<"Optimal", "    7 objective value">>, "optimal2">>,
              <<"any", <<"Infeasible - objective value 0.00000000">>, "infeasible">>,
              <<"clp", <<"infeasible", "Objective value 0">>, "infeasible">>,
              <<"cbc", <<"Integer infeasible - objective value 0.00000000">>, "infeasible">>,
              <<"any", <<"Unbounded - objective value 0.00000000">>, "error">>,
              <<"any", <<"Stopped on time - objective value 3.00000000">>, "error">>,
              <<"any", <<"Stopped on iterations - objective value 3.00000000">>, "error">>,
              <<"any", <<"Status unknown">>, "error">>,
              <<"any", <<"">>, "error">>,
              <<"any", <<"   ">>, "error">>,
              <<"any", <<"0 x_0 1 0">>, "error">>,
              <<"any", <<>>, "error">>,            \* an empty file
              <<"any", <<"<missing>">>, "error">>, \* no file
              <<"any", <<"<directory>">>, "error">>,
              <<"any", <<"Stopped on time - Optimal solution not proven - objective value 3">>, "error">>,
              <<"any", <<"Not Optimal - objective value 3">>, "error">>,
              <<"any", <<"Suboptimal - objective value 3">>, "error">>,
              <<"any", <<"Optimality was not reached - objective value 3">>, "error">>,
              <<"any", <<"Possibly Infeasible - objective value 3">>, "error">>,
              <<"cbc", <<"Integer solution found - objective value 3">>, "error">>,
              <<"cbc", <<"Optimal (within gap tolerance) - objective value 12.5">>, "optimal">>,
              <<"cbc", <<"Infeasible (no optimal solution exists) - objective value 0">>, "infeasible">> >>
(* headers of random words: only the first word decides (for cbc, the first two when they are "Integer infeasible") *)
Words == << "Stopped", "on", "time", "Not", "Solution", "Feasible", "Unbounded", "Dual", "infeasible", "optimal", "Optimal", "Infeasible", "Integer", "proven",
            "Suboptimal", "Optimality", "(within", "gap", "tolerance)", "Optimal.", "x_0", "0", "1.5", "-", "**", "objective", "value", "limit", "Relaxation" >>
FirstError == {1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 21, 22, 25, 29}
RECURSIVE Join(_)
Join(w) == IF w = <<>> THEN "" ELSE " " \o Words[Head(w)] \o Join(Tail(w))
(* numbers: text and value in thousandths *)
Nums == << <<"0", 0>>, <<"1.5", 1500>>, <<"-2", -2000>>, <<"3e2", 300000>>, <<"-0", 0>>, <<"2.5e-1", 250>>, <<"-1e+3", -1000000>>, <<"+7", 7000>>,
           <<"0.0625", 62>>, <<"1e-17", 0>>, <<"-3e-14", 0>>, <<"4.9e-324", 0>>, <<"-123456789.125", 0>>, <<"1e300", 0>>, <<"0.1000000000000000055", 100>> >>
           \* (from 0.0625 on only in random files, and the driver compares by text)
(* a line: kind, marker, name kind, index, value, multiplier (indices of Nums) *)
L(k, m, n, i, v, d) == <<k, m, n, i, v, d>>
Good == { L("ok", 0, "x", 0, 2, 3), L("ok", 1, "x", 0, 3, 2), L("ok", 0, "x", 1, 1, 1), L("ok", 0, "x", 1, 4, 6), L("ok", 0, "c", 0, 2, 7), L("ok", 1, "c", 0, 1, 2), L("ok", 0, "c", 1, 5, 3) }
Bad == { L("ok", 0, "x", 2, 1, 1), L("ok", 0, "c", 2, 1, 1), L("ok", 0, "x", 99, 1, 1),
         L("novalue", 0, "x", 0, 1, 1), L("nomult", 0, "c", 0, 1, 1), L("badvalue", 0, "x", 1, 1, 1), L("badmult", 0, "c", 0, 1, 1),
         L("noindex", 0, "x", 0, 1, 1), L("badindex", 0, "x", 0, 1, 1), L("othername", 0, "y", 0, 1, 1), L("number", 0, "x", 0, 1, 1),
         L("marker", 1, "x", 0, 1, 1), L("bytes", 0, "x", 0, 1, 1), L("half", 1, "x", 0, 2, 3), L("hugeindex", 0, "c", 0, 1, 1), L("negindex", 0, "x", 0, 1, 1),
         L("twoindex", 0, "x", 0, 2, 3), L("glued", 0, "x", 0, 1, 1), L("upper", 0, "c", 0, 1, 1) }
Free == { L("empty", 0, "x", 0, 1, 1), L("nan", 0, "x", 0, 1, 1) }
Alphabet == Good \cup Bad \cup Free

NX == size[1]
NA == size[2]
Is(b, n, i) == {k \in DOMAIN b : b[k][1] = "ok" /\ b[k][3] = n /\ b[k][4] = i}
(* a line that no solution of this problem has *)
Malformed(l) == (l \in Bad /\ l[1] # "ok") \/ (l[1] = "ok" /\ l[4] >= (IF l[3] = "x" THEN NX ELSE NA))
Twice(b) == \E n \in {"x", "c"} : \E k, j \in DOMAIN b : k # j /\ b[k][1] = "ok" /\ b[j][1] = "ok" /\ b[k][3] = b[j][3] /\ b[k][4] = b[j][4]
Whole(b) == /\ \A i \in 0..(NX - 1) : Is(b, "x", i) # {}
            /\ \A i \in 0..(NA - 1) : Is(b, "c", i) # {}
Meaning == header[3]
(* a two-line header that is cut loses its second line *)
Kind == IF Meaning = "infeasible" THEN "infeasible"
        ELSE IF Meaning = "error" THEN "error"
        ELSE IF \E k \in DOMAIN body : Malformed(body[k]) THEN "bad"
        ELSE IF \E k \in DOMAIN body : body[k] \in Free THEN "free"
        ELSE IF ~Whole(body) THEN "bad"
        ELSE IF Twice(body) THEN "free"
        ELSE "solved"
The(n, i) == body[CHOOSE k \in Is(body, n, i) : TRUE]
Result == [k |-> Kind,
           x |-> IF Kind # "solved" THEN <<>> ELSE [i \in 1..NX |-> The("x", i - 1)[5]],
           d |-> IF Kind # "solved" THEN <<>> ELSE [i \in 1..NX |-> The("x", i - 1)[6]],
           lam |-> IF Kind # "solved" THEN <<>> ELSE [i \in 1..NA |-> The("c", i - 1)[6]]]

Init == flavor = "cbc" /\ header = Headers[1] /\ size = <<1, 0>> /\ body = <<>> /\ ending = 0 /\ phase = "start"
Fits(f, h) == Headers[h][1] \in {f, "any"}
Start == /\ phase = "start" /\ Mode = "all" /\ phase' = "body"
         /\ \E f \in {"cbc", "clp"} : \E h \in {h \in DOMAIN Headers : Fits(f, h)} : flavor' = f /\ header' = Headers[h]
         /\ size' \in { <<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>> }
         /\ UNCHANGED <<body, ending>>
Line == /\ phase = "body" /\ Mode = "all"
        /\ Len(body) < (IF Meaning \in {"optimal", "optimal2"} THEN MaxLines ELSE 1)
        /\ (Meaning # "error" \/ (Len(header[2]) = 1 /\ header[2][1] \notin {"<missing>", "<directory>"}))
        /\ \E l \in Alphabet : body' = Append(body, l)
        /\ UNCHANGED <<flavor, header, size, ending, phase>>
Finish == /\ phase = "body" /\ Mode = "all" /\ phase' = "done" /\ ending' \in (IF Len(body) = 2 THEN {0, 1, 2} ELSE {0}) /\ UNCHANGED <<flavor, header, size, body>>

Pick(S) == RandomElement(S)
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x})
RandomNum(z) == Pick(DOMAIN Nums)
RandomHeader(f) ==
  LET n == Pick(0..6)
      rest == Join([k \in 1..n |-> Pick(DOMAIN Words)])
      c == Pick(1..6)
  IN CASE c = 1 -> <<"any", <<"Infeasible" \o rest>>, "infeasible">>
       [] c = 2 /\ f = "cbc" -> <<"cbc", <<"Optimal" \o rest>>, "optimal">>
       [] c = 2 /\ f = "clp" -> <<"clp", <<"optimal" \o rest \o " - objective value 3.5">>, "optimal">>
       [] c = 3 /\ f = "cbc" -> <<"cbc", <<"Integer infeasible" \o rest>>, "infeasible">>
       [] OTHER -> <<"any", <<Words[Pick(FirstError)] \o rest>>, "error">>
RandomStep ==
  /\ phase = "start" /\ Mode = "random" /\ phase' = "done"
  /\ \E f \in {Pick({"cbc", "clp"})} : flavor' = f
       /\ \E h \in {CASE Pick(1..10) = 1 -> Headers[Pick({h \in DOMAIN Headers : Fits(f, h)})]
                      [] Pick(1..4) = 1 -> RandomHeader(f)
                      [] OTHER -> Headers[Pick({h \in DOMAIN Headers : Fits(f, h) /\ Headers[h][3] \in {"optimal", "optimal2"}})]} : header' = h
  /\ \E n \in {IF Pick(1..30) = 1 THEN Pick(100..260) ELSE IF Pick(1..3) = 1 THEN Pick(10..25) ELSE Pick(1..6)}, m \in {IF Pick(1..30) = 1 THEN Pick(100..260) ELSE IF Pick(1..3) = 1 THEN Pick(10..25) ELSE Pick(0..6)} :
       /\ size' = <<n, m>>
       /\ \E lines \in {Shuffle({<<"x", i>> : i \in 0..(n - 1)} \cup {<<"c", i>> : i \in 0..(m - 1)})} :
          \E full \in {[k \in DOMAIN lines |-> L("ok", IF Pick(1..4) = 1 THEN 1 ELSE 0, lines[k][1], lines[k][2], RandomNum(k), RandomNum(k))]} :
          \E c \in {Pick(1..6)} : \E p \in {Pick(1..Len(full))} :
            body' = CASE c = 1 -> SubSeq(full, 1, p - 1) \o SubSeq(full, p + 1, Len(full))                       \* a line is missing
                      [] c = 2 -> SubSeq(full, 1, p - 1) \o <<Pick(Bad)>> \o SubSeq(full, p, Len(full))         \* a bad line
                      [] c = 3 -> SubSeq(full, 1, p)                                                             \* cut
                      [] OTHER -> full
  /\ \E e \in {Pick(0..2)} : ending' = e
Next == Start \/ Line \/ Finish \/ RandomStep
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* solved only for an optimal header with every line of the problem and nothing else *)
Honest == Kind = "solved" => /\ Meaning \in {"optimal", "optimal2"}
                                         /\ \A i \in 1..NX : Is(body, "x", i - 1) # {}
                                         /\ \A k \in DOMAIN body : ~Malformed(body[k])
Exact == Kind = "solved" => Len(body) = NX + NA
(* the file may belong to a larger problem: lines of further variables and rows, numbered before these, all in order *)
Pad(z) == IF Mode # "random" \/ Pick(1..25) > 1 THEN <<0, 0>> ELSE <<Pick({0, 240, 300, 66000, 100000}), Pick({0, 256, 1000, 65536})>>
Emit == phase = "done" =>
          Serialize(ToJson([f |-> flavor, h |-> header[2], s |-> size, b |-> body, e |-> ending, r |-> Result, pad |-> Pad(size)]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

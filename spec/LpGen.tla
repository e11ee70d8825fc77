------------------------------- MODULE LpGen --------------------------------
(* Linear problems, the LP file a writer makes of them, and the theorem that *)
(* a reader of the format (LpText) gets the problem back. The problems are   *)
(* written to OUT and exported with the real code, whose files are read by   *)
(* the same reader (LpRead).                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, LpText
CONSTANTS Mode       \* "all": small problems; "random"; "big": random with many columns and rows

(* the text a driver reads the number from, and its twelve digits *)
Table == << <<"0", Zero>>, <<"1", One>>, <<"-1", NegNum(One)>>, <<"2.5", <<1, 250000, 0, 1>>>>, <<"-7", <<-1, 700000, 0, 1>>>>,
            <<"1e-7", <<1, 100000, 0, -6>>>>, <<"-100000000", <<-1, 100000, 0, 9>>>>, <<"100000000", <<1, 100000, 0, 9>>>>,
            <<"0.3333333333333333", <<1, 333333, 333333, 0>>>>, <<"-123456.789012345", <<-1, 123456, 789012, 6>>>>,
            <<"1.000000000001", <<1, 100000, 0, 1>>>>, <<"1e300", <<1, 100000, 0, 301>>>>, <<"-2e-310", <<-1, 200000, 0, -309>>>>,
            <<"0.30000000000000004", <<1, 300000, 0, 0>>>>, <<"1e30", <<1, 100000, 0, 31>>>>, <<"10", <<1, 100000, 0, 2>>>>,
            <<"99999.5", <<1, 999995, 0, 5>>>>, <<"12345678901", <<1, 123456, 789010, 11>>>>, <<"-0", Zero>>,
            <<"-1.5e-5", <<-1, 150000, 0, -4>>>>, <<"1.0000001", <<1, 100000, 10000, 1>>>>, <<"-0.99999995", <<-1, 999999, 950000, 0>>>>,
            <<"2.0000001", <<1, 200000, 10000, 1>>>>, <<"1e-300", <<1, 100000, 0, -299>>>>,
            <<"0.00123456789012345", <<1, 123456, 789012, -2>>>>, <<"-0.0876543219876", <<-1, 876543, 219876, -1>>>>, <<"987654.321987654", <<1, 987654, 321988, 6>>>>,
            <<"-0.0000333333333333333", <<-1, 333333, 333333, -4>>>>, <<"12.3456789876543", <<1, 123456, 789877, 2>>>> >>
Nice == <<2, 3, 4, 5, 16, 17, 1>>    \* for repeated entries: sums are exact in any order
Infs == << <<"inf", Inf>>, <<"-inf", NegNum(Inf)>> >>
Small == {1, 2, 3, 4}
Few == {1, 3, 4}
Pick(S) == RandomElement(S)
AnyNum(k) == Pick(DOMAIN Table)     \* (an argument, or it would be chosen once)

VARIABLES nx, na, c, a, b, l, u, p, phase
vars == <<nx, na, c, a, b, l, u, p, phase>>

Init == nx = 0 /\ na = 0 /\ c = <<>> /\ a = <<>> /\ b = <<>> /\ l = <<>> /\ u = <<>> /\ p = <<>> /\ phase = "shape"
RECURSIVE SetSeq(_,_)
(* the positions of S in some order, values taking turns from v *)
SetSeq(S, v) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE
                                         IN <<<<x[1], x[2], v>>>> \o SetSeq(S \ {x}, IF v = 2 THEN 4 ELSE IF v = 3 THEN 5 ELSE 2)
AllShape == /\ phase = "shape" /\ Mode = "all" /\ phase' = "vars"
            /\ nx' \in 1..2 /\ na' \in 0..2 /\ UNCHANGED <<c, a, b, l, u, p>>
AllVars == /\ phase = "vars" /\ Mode = "all"
           /\ \E cc \in [1..nx -> IF nx = 1 THEN Small ELSE Few] : c' = cc
           /\ \E pp \in [1..nx -> {0, 1}] : p' = pp
           /\ \E d \in {<<1, 2>>, <<7, 8>>, <<3, 1>>, <<4, 4>>} : l' = [i \in 1..nx |-> IF i = 1 THEN d[1] ELSE 7] /\ u' = [i \in 1..nx |-> IF i = 1 THEN d[2] ELSE 4]
           /\ phase' = "rows" /\ UNCHANGED <<nx, na, a, b>>
AllRows == /\ phase = "rows" /\ Mode = "all"
           /\ \E S \in SUBSET ((1..na) \X (1..nx)) : \E v \in {2, 3, 5} :
                a' = SetSeq(S, v)
           /\ b' \in [1..na -> {1, 5}]
           /\ phase' = "done" /\ UNCHANGED <<nx, na, c, l, u, p>>
RandomStep ==
  /\ phase = "shape" /\ Mode \in {"random", "big"} /\ phase' = "done"
  /\ \E n \in {IF Mode = "big" THEN Pick(80..130) ELSE IF Pick(1..3) = 1 THEN Pick(10..14) ELSE Pick(1..5)}, m \in {IF Mode = "big" THEN Pick(1..40) ELSE IF Pick(1..3) = 1 THEN Pick(10..12) ELSE Pick(0..4)}, e \in {IF Mode = "big" THEN Pick(100..400) ELSE Pick(0..30)}, i \in {Pick(1..4)} :
       /\ nx' = n /\ na' = m
       /\ \E x \in {[k \in 1..n |-> AnyNum(k)]} : c' = x
       /\ \E x \in {[k \in 1..(IF m = 0 THEN 0 ELSE e) |-> <<Pick(1..m), Pick(1..n)>>]} :
            LET at == [k \in DOMAIN x |-> IF \E j \in DOMAIN x : j # k /\ x[j] = x[k] THEN Nice[Pick(DOMAIN Nice)] ELSE AnyNum(k)]
            IN \E y \in {at} : a' = [k \in DOMAIN x |-> <<x[k][1], x[k][2], y[k]>>]
       /\ \E x \in {[k \in 1..m |-> AnyNum(k)]} : b' = x
       /\ \E x \in {[k \in 1..n |-> IF Pick(1..8) = 1 THEN Len(Table) + 2 ELSE Pick({7, 1, 3, AnyNum(k)})]} : l' = x
       /\ \E x \in {[k \in 1..n |-> IF Pick(1..8) = 1 THEN Len(Table) + 1 ELSE Pick({8, 2, 4, AnyNum(k)})]} : u' = x
       /\ \E x \in {[k \in 1..n |-> IF i = 1 THEN 0 ELSE Pick({0, 1})]} : p' = x
Next == AllShape \/ AllVars \/ AllRows \/ RandomStep
Spec == Init /\ [][Next]_vars

(* ---- the writer ---- *)
T(k, s) == [k |-> k, s |-> s, v |-> Zero]
N(v) == [k |-> "num", s |-> "", v |-> <<IF v[1] = 0 THEN 0 ELSE 1, v[2], v[3], v[4]>>]
NL == T("nl", "")
V(id) == IF id > Len(Table) THEN Infs[id - Len(Table)][2] ELSE Table[id][2]
Txt(id) == IF id > Len(Table) THEN Infs[id - Len(Table)][1] ELSE Table[id][1]
WTerm(id, j) == LET v == V(id) IN
  IF v[1] = 0 THEN <<>>
  ELSE <<T(IF v[1] > 0 THEN "+" ELSE "-", "")>> \o (IF v \in {One, NegNum(One)} THEN <<>> ELSE <<N(v)>>) \o <<T("name", X(j)), NL>>
WNum(id) == LET v == V(id) IN (IF v[1] < 0 THEN <<T("-", "")>> ELSE <<>>) \o <<N(v)>>
RECURSIVE Cat(_,_,_)
Cat(f, i, n) == IF i > n THEN <<>> ELSE f[i] \o Cat(f, i + 1, n)
At(i, j) == IF \E k \in DOMAIN a : a[k][1] = i /\ a[k][2] = j THEN a[CHOOSE k \in DOMAIN a : a[k][1] = i /\ a[k][2] = j][3] ELSE 1
Unique == \A k, m \in DOMAIN a : k # m => <<a[k][1], a[k][2]>> # <<a[m][1], a[m][2]>>
Written ==
  <<T("kw", "min"), NL, T("name", "obj"), T(":", ""), NL>> \o Cat([j \in 1..nx |-> WTerm(c[j], j)], 1, nx)
  \o <<T("kw", "rows"), NL>>
  \o Cat([i \in 1..na |-> <<T("name", C(i)), T(":", ""), NL>> \o Cat([j \in 1..nx |-> WTerm(At(i, j), j)], 1, nx) \o <<T("op", "=")>> \o WNum(b[i]) \o <<NL>>], 1, na)
  \o <<T("kw", "bounds"), NL>>
  \o Cat([j \in 1..nx |-> WNum(l[j]) \o <<T("op", "<="), T("name", X(j)), T("op", "<=")>> \o WNum(u[j]) \o <<NL>>], 1, nx)
  \o <<T("kw", "ints"), NL>>
  \o Cat([j \in 1..nx |-> IF p[j] = 1 THEN <<T("name", X(j)), NL>> ELSE <<>>], 1, nx)
  \o <<T("kw", "end"), NL>>
Problem == [nx |-> nx, na |-> na, c |-> [j \in 1..nx |-> V(c[j])], rows |-> [i \in 1..na |-> [j \in 1..nx |-> V(At(i, j))]],
            b |-> [i \in 1..na |-> V(b[i])], l |-> [j \in 1..nx |-> V(l[j])], u |-> [j \in 1..nx |-> V(u[j])], p |-> p]
RoundTrip == phase = "done" /\ Unique => States(Read(Written), Problem)

Case == [nx |-> nx, na |-> na, c |-> [j \in DOMAIN c |-> Txt(c[j])], a |-> [k \in DOMAIN a |-> <<a[k][1], a[k][2], Txt(a[k][3])>>],
         b |-> [i \in DOMAIN b |-> Txt(b[i])], l |-> [j \in DOMAIN l |-> Txt(l[j])], u |-> [j \in DOMAIN u |-> Txt(u[j])], p |-> p]
Emit == phase = "done" =>
          Serialize(ToJson(Case) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

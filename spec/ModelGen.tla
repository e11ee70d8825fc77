------------------------------ MODULE ModelGen ------------------------------
(* Models: a program that builds expressions (Prog), constraints between its *)
(* registers or scalars, an objective, integrality and initial values. The   *)
(* meaning of a model is the set of points that satisfy it and the objective *)
(* value there, computed exactly here; models are written to the file OUT    *)
(* with the verdict at each test point, and replayed in the real code.       *)
EXTENDS Integers, Sequences, FiniteSets, Field, TLC, Json, IOUtils

CONSTANTS NV,        \* number of variables
          MaxIns,    \* instructions
          MaxCons,   \* constraints
          NPts,      \* test points (random modes)
          Mode       \* "menu": all sequences of constraints from a menu;
                     \* "lin": random linear models; "mix": random models; "wide": many variables;
                     \* "many": many variables and constraints;
                     \* "near": linear models of large values, limits close together

PV == INSTANCE Prog WITH NV <- 0, Add <- QAdd, Mul <- QMul, Neg <- QNeg, Inv <- QInv,
                         Cos <- QCos, Sin <- QSin, Num <- QInt, Rat <- QRat

VARIABLES prog, size, deg,   \* the program, and size and degree class of every register
          wit, at,           \* a point meant to satisfy the model, and the registers' values there
          cons, obj, kinds, names, init, phase
vars == <<prog, size, deg, wit, at, cons, obj, kinds, names, init, phase>>

Pick(S) == RandomElement(S)
Random == Mode # "menu"
V == 1..NV
Huge == NV > 50
N == NV + Len(prog)

NameSets == << [k \in V |-> "x" \o ToString(k)], [k \in V |-> "x"],
               [k \in V |-> IF k = 1 THEN "_s_a0_" ELSE IF k = 2 THEN "_s_j0_" ELSE "v" \o ToString(k)],
               [k \in V |-> "z" \o ToString(NV + 1 - k)] >>

(* constraint: <<op, form, a, b, n, d, label>>; forms "rr" (expression, borrowed expression),    *)
(* "ro" (expression, owned expression), "rs" (expression, scalar), "sr" "so" (scalar, expression) *)
Sides(c, R) == LET s == QRat(c[5], c[6])
               IN IF c[2] \in {"rr", "ro"} THEN <<R[c[3]].v, R[c[4]].v>>
                  ELSE IF c[2] = "rs" THEN <<R[c[3]].v, s>> ELSE <<s, R[c[3]].v>>
Holds(op, l, r) == CASE op = "eq" -> l = r [] op = "le" -> QLe(l, r) [] op = "ge" -> QLe(r, l)
(* 1 satisfied, 0 not, -1 not decided here (undefined or not a small rational) *)
Verdict(pt, R) ==
  LET ok == \A i \in DOMAIN cons : QOk(Sides(cons[i], R)[1]) /\ QOk(Sides(cons[i], R)[2])
  IN IF ~ok THEN -1
     ELSE IF /\ \A i \in DOMAIN cons : Holds(cons[i][1], Sides(cons[i], R)[1], Sides(cons[i], R)[2])
             /\ \A k \in V : kinds[k] = 1 => pt[k][2] = 1
          THEN 1 ELSE 0
Den(pt) == PV!Run(prog, [k \in V |-> PV!J!Konst(pt[k])])
Value(R) == IF obj[1] = "none" THEN <<0, 1>> ELSE R[obj[2]].v
Judge(pt) == LET R == Den(pt) IN <<pt, Verdict(pt, R), Value(R)>>

----------------------------------------------------------------- (* menu *)
(* registers 3.. for variables 1 (continuous) and 2 (integer) *)
MenuProg == << <<"mul", "sr", 1, 0, 2, 1>>,        \* 3: 2 x
               <<"neg", "r", 1, 0, 0, 1>>,         \* 4: -x
               <<"add", "rr", 1, 2, 0, 1>>,        \* 5: x + y
               <<"sub", "rr", 1, 2, 0, 1>>,        \* 6: x - y
               <<"mul", "rr", 1, 2, 0, 1>>,        \* 7: x*y
               <<"mul", "rr", 1, 1, 0, 1>>,        \* 8: x*x
               <<"add", "rs", 1, 0, 1, 1>>,        \* 9: x + 1
               <<"k", "", 0, 0, 3, 1>>,            \* 10: 3
               <<"add", "rr", 7, 6, 0, 1>>,        \* 11: x*y + x - y
               <<"sub", "rr", 1, 1, 0, 1>> >>      \* 12: x - x
Menu == { <<"le", "rs", 1, 0, 2, 1>>, <<"le", "rs", 1, 0, 1, 1>>, <<"ge", "sr", 1, 0, 1, 1>>,
          <<"ge", "rs", 1, 0, -1, 1>>, <<"ge", "rs", 1, 0, 1, 2>>, <<"le", "sr", 1, 0, 1, 2>>,
          <<"eq", "rs", 1, 0, 1, 1>>, <<"le", "rs", 2, 0, 1, 1>>, <<"ge", "rs", 2, 0, 1, 2>>,
          <<"le", "rs", 3, 0, 3, 1>>, <<"le", "rs", 4, 0, 1, 1>>, <<"ge", "rs", 4, 0, -1, 1>>,
          <<"le", "rs", 5, 0, 2, 1>>, <<"eq", "rs", 5, 0, 1, 1>>, <<"ge", "rr", 5, 9, 0, 1>>,
          <<"ge", "rs", 6, 0, 0, 1>>, <<"le", "rr", 1, 2, 0, 1>>, <<"le", "rs", 9, 0, 2, 1>>,
          <<"le", "rr", 9, 10, 0, 1>>, <<"le", "rs", 10, 0, 2, 1>>, <<"ge", "rs", 10, 0, 2, 1>>,
          <<"le", "rs", 7, 0, 1, 1>>, <<"eq", "rs", 7, 0, 1, 1>>, <<"ge", "rs", 8, 0, 1, 1>>,
          <<"eq", "rr", 8, 7, 0, 1>>, <<"le", "sr", 11, 0, 0, 1>>, <<"le", "rs", 12, 0, 0, 1>> }
MenuObj == { <<"min", 1>>, <<"max", 5>>, <<"min", 11>>, <<"none", 1>> }
Coord == IF MaxCons > 2 THEN { <<-1, 1>>, <<1, 2>>, <<1, 1>>, <<2, 1>> }
         ELSE { <<-2, 1>>, <<-1, 1>>, <<-1, 2>>, <<0, 1>>, <<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>> }

--------------------------------------------------------------- (* random *)
Nums == << <<0,1>>, <<1,1>>, <<-1,1>>, <<2,1>>, <<-2,1>>, <<3,1>>, <<1,2>>, <<-1,2>>, <<5,2>>, <<-3,2>>, <<10,1>>, <<-7,1>>,
           <<1,3>>, <<1,1000000>>, <<20000,1>> >>
Vals == << <<0,1>>, <<1,1>>, <<-1,1>>, <<2,1>>, <<-2,1>>, <<3,1>>, <<1,2>>, <<-1,2>>, <<3,2>>, <<-3,1>> >>
Num(S) == S[Pick(1..Len(S))]
Big == << <<5000,1>>, <<2000,1>>, <<-3000,1>>, <<9999,2>>, <<-2501,2>>, <<7000,1>>, <<1000,1>>, <<-6000,1>>, <<100,1>> >>
Close == << <<0,1>>, <<0,1>>, <<1,2>>, <<1,1>>, <<2,1>>, <<-1,2>>, <<-1,1>>, <<-2,1>>, <<3,1>>, <<1,4>> >>
Recent == IF Pick(1..3) = 1 \/ prog = <<>> THEN Pick(1..N) ELSE Pick((N - (IF Len(prog) > 3 THEN 3 ELSE Len(prog)) + 1)..N)
RandomIns ==
  LET c == Pick(1..24)
      a == Recent
      b == IF Pick(1..3) = 1 THEN Pick(1..N) ELSE Pick(V)
      s == Num(Nums)
      q == IF s[1] = 0 THEN <<3, 1>> ELSE s
  IN IF Mode \in {"lin", "near"} \/ (Mode \in {"wide", "many"} /\ (Pick(1..4) > 1 \/ (Huge /\ names > 2)))
     THEN CASE c <= 5 -> <<"mul", Pick({"sr", "rs", "so", "os"}), Pick(V), 0, s[1], s[2]>>
            [] c <= 12 -> <<"add", Pick({"rr", "oo", "ro", "or"}), a, b, 0, 1>>
            [] c <= 16 -> <<"sub", Pick({"rr", "oo", "ro", "or"}), a, b, 0, 1>>
            [] c <= 18 -> <<Pick({"add", "sub"}), Pick({"rs", "sr"}), a, 0, s[1], s[2]>>
            [] c = 19 -> <<"neg", "r", a, 0, 0, 1>>
            [] c = 20 -> <<"div", "rs", a, 0, q[1], q[2]>>
            [] c = 21 -> <<"k", "", 0, 0, s[1], s[2]>>
            [] OTHER -> <<"mul", Pick({"sr", "rs"}), a, 0, s[1], s[2]>>
     ELSE CASE c <= 5 -> <<Pick({"add", "sub"}), Pick({"rr", "oo"}), a, b, 0, 1>>
            [] c <= 11 -> <<"mul", Pick({"rr", "oo"}), a, b, 0, 1>>
            [] c <= 13 -> <<"div", "rr", a, b, 0, 1>>
            [] c <= 16 -> <<"mul", Pick({"sr", "rs"}), a, 0, s[1], s[2]>>
            [] c <= 18 -> <<Pick({"add", "sub"}), Pick({"rs", "sr"}), a, 0, s[1], s[2]>>
            [] c = 19 -> <<"neg", "r", a, 0, 0, 1>>
            [] c = 20 -> <<"div", "rs", a, 0, q[1], q[2]>>
            [] c = 21 -> <<"cos", "r", a, 0, 0, 1>>
            [] c = 22 -> <<"sin", "r", a, 0, 0, 1>>
            [] OTHER -> <<"k", "", 0, 0, s[1], s[2]>>
SizeOf(i) == IF i[1] = "k" THEN 1
             ELSE IF i[2] \in {"rr", "ro", "or", "oo"} THEN size[i[3]] + size[i[4]]
             ELSE size[i[3]] + 1
Fits(i) == LET d == PV!Deg1(i, deg) IN SizeOf(i) <= (IF d = 2 THEN (IF Huge THEN 40 ELSE IF Mode = "wide" THEN 14 ELSE 9) ELSE IF Huge THEN 150 ELSE 30)
Many == Mode = "many"
Chance(z) == IF Many THEN Pick(1..(IF Huge THEN 2000 ELSE 100)) > 1 ELSE Pick(1..6) > 1
Shift(op) == IF Many /\ Pick(1..(IF Huge THEN 1000 ELSE 60)) > 1 THEN (CASE op = "eq" -> <<0, 1>> [] op = "le" -> Num(<< <<0,1>>, <<1,2>>, <<2,1>> >>) [] OTHER -> Num(<< <<0,1>>, <<-1,2>>, <<-2,1>> >>)) ELSE
             CASE op = "eq" -> IF Pick(1..6) = 1 THEN <<1, 2>> ELSE <<0, 1>>
               [] op = "le" -> Num(<< <<0,1>>, <<0,1>>, <<1,2>>, <<1,1>>, <<2,1>>, <<-1,2>> >>)
               [] OTHER -> Num(<< <<0,1>>, <<0,1>>, <<-1,2>>, <<-1,1>>, <<-2,1>>, <<1,2>> >>)
(* register a against a scalar that makes the constraint hold at the witness, most of the time *)
Scalar(op, a) == LET q == QAdd(at[a].v, IF Mode = "near" THEN Num(Close) ELSE Shift(op)) IN IF QOk(q) /\ Chance(op) THEN q ELSE Num(Nums)
Flip(op) == CASE op = "eq" -> "eq" [] op = "le" -> "ge" [] OTHER -> "le"
RandomCons ==
  LET kind == Pick(1..10)
      op == IF Pick(1..4) = 1 THEN "eq" ELSE Pick({"le", "ge"})
      lab == Pick({"", "", "c1", "row", "a b", "y <= 2", "Row"})
      a == IF kind <= 4 \/ prog = <<>> \/ (Mode = "near" /\ Pick(1..3) > 1) THEN Pick(V) ELSE Pick((NV + 1)..N)
      s == Scalar(op, a)
      b == Recent
      l == at[a].v
      r == at[b].v
      op2 == IF QOk(l) /\ QOk(r) /\ Chance(op)
             THEN IF l = r THEN op ELSE IF QLt(l, r) THEN "le" ELSE "ge" ELSE op
  IN IF kind <= 8
     THEN IF Pick(1..3) = 1 THEN <<Flip(op), Pick({"sr", "so"}), a, 0, s[1], s[2], lab>>
          ELSE <<op, "rs", a, 0, s[1], s[2], lab>>
     ELSE <<op2, Pick({"rr", "ro"}), a, b, 0, 1, lab>>
RandomCoord(k) == IF Mode = "near" THEN IF phase = "witness" THEN Num(Big) ELSE QAdd(wit[k], Num(Close))
                  ELSE IF kinds[k] = 1 /\ (Many \/ Pick(1..5) > 1) THEN Num(<< <<0,1>>, <<1,1>>, <<2,1>>, <<-1,1>> >>) ELSE Num(Vals)
RandomPoint == LET m == Pick(1..5)
                   j == Pick(V)
               IN IF m <= 3 THEN [wit EXCEPT ![j] = RandomCoord(j)] ELSE [k \in V |-> RandomCoord(k)]

----------------------------------------------------------------------------
Init == /\ prog = IF Random THEN <<>> ELSE MenuProg
        /\ size = [k \in V |-> 1]
        /\ deg = [k \in V |-> 1]
        /\ wit = [k \in V |-> <<0, 1>>]
        /\ at = <<>>
        /\ cons = <<>>
        /\ obj = <<"none", 1>>
        /\ kinds = [k \in V |-> IF k = 2 THEN 1 ELSE 0]
        /\ names = 1
        /\ init = <<>>
        /\ phase = IF Random THEN "start" ELSE "cons"

AddIns(i) == /\ prog' = Append(prog, i)
             /\ size' = Append(size, SizeOf(i))
             /\ deg' = Append(deg, PV!Deg1(i, deg))
             /\ at' = Append(at, PV!Den1(i, at))
             /\ UNCHANGED <<wit, cons, obj, kinds, names, init, phase>>
AddCons(c) == cons' = Append(cons, c) /\ UNCHANGED <<prog, size, deg, wit, at, obj, kinds, names, init, phase>>

Start == /\ phase = "start"
         /\ names' = Pick({1, 2, 3, 4})
         /\ LET m == Pick(1..4) IN kinds' = [k \in V |-> IF m = 1 THEN 0 ELSE IF m = 2 THEN 1 ELSE Pick({0, 1})]
         /\ phase' = "witness"
         /\ UNCHANGED <<prog, size, deg, wit, at, cons, obj, init>>
Witness == /\ phase = "witness"
           /\ \E w \in {[k \in V |-> RandomCoord(k)]} : wit' = w /\ at' = [k \in V |-> PV!J!Konst(w[k])]
           /\ phase' = "build"
           /\ UNCHANGED <<prog, size, deg, cons, obj, kinds, names, init>>
Build == /\ phase = "build"
         /\ IF Len(prog) < MaxIns
            THEN \E i \in {RandomIns} : IF Fits(i) THEN AddIns(i) ELSE AddIns(<<"cl", "", Pick(V), 0, 0, 1>>)
            ELSE phase' = "cons" /\ UNCHANGED <<prog, size, deg, wit, at, cons, obj, kinds, names, init>>
Cons == /\ phase = "cons" /\ Random
        /\ IF Len(cons) < MaxCons /\ (IF Many THEN Pick(1..(IF Huge THEN 150 ELSE 40)) > 1 ELSE Pick(1..6) > 1)
           THEN \E c \in {RandomCons} : AddCons(c)
           ELSE /\ phase' = "done"
                /\ obj' = <<Pick({"min", "max", "min", "max", "none"}), Pick((NV + 1)..N)>>
                /\ \E st \in {[k \in V |-> IF Pick(1..2) = 1 THEN Num(Vals) ELSE <<0, 0>>]} : init' = st
                /\ UNCHANGED <<prog, size, deg, wit, at, cons, kinds, names>>
MenuStep == /\ phase = "cons" /\ ~Random
            /\ \/ Len(cons) < MaxCons /\ \E c \in Menu : AddCons(Append(c, ""))
               \/ /\ phase' = "done"
                  /\ \E o \in (IF Len(cons) < 2 THEN MenuObj ELSE {<<"max", 5>>}) : obj' = o
                  /\ UNCHANGED <<prog, size, deg, wit, at, cons, kinds, names, init>>
Next == Start \/ Witness \/ Build \/ Cons \/ MenuStep
Spec == Init /\ [][Next]_vars

MenuPoints == Coord \X Coord
Case == [n |-> NameSets[names], k |-> kinds, i |-> prog, c |-> cons, o |-> obj, s |-> init,
         g |-> IF Random THEN [i \in 1..NPts |-> Judge(IF i = 1 THEN wit ELSE RandomPoint)] ELSE {Judge(p) : p \in MenuPoints}]
Emit == phase = "done" =>
          Serialize(ToJson(Case) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

(* Two copies of the model side by side, over variables of their own, as one program. What a   *)
(* register means depends on its own copy only; so a point satisfies the whole if and only if *)
(* its parts satisfy the copies, and its objective is their sum (harness/src/side.rs).        *)
MovedReg(r, k) == IF r = 0 THEN 0 ELSE IF r <= NV THEN (k - 1) * NV + r ELSE 2 * NV + (k - 1) * Len(prog) + (r - NV)
MovedIns(i, k) == [i EXCEPT ![3] = MovedReg(i[3], k), ![4] = IF i[2] \in PV!NodeForms THEN MovedReg(i[4], k) ELSE i[4]]
TwoProg == [j \in 1..(2 * Len(prog)) |-> IF j <= Len(prog) THEN MovedIns(prog[j], 1) ELSE MovedIns(prog[j - Len(prog)], 2)]
MovedCon(c, k) == [c EXCEPT ![3] = MovedReg(c[3], k), ![4] = IF c[2] \in {"rr", "ro"} THEN MovedReg(c[4], k) ELSE c[4]]
TwoCons == [j \in 1..(2 * Len(cons)) |-> IF j <= Len(cons) THEN MovedCon(cons[j], 1) ELSE MovedCon(cons[j - Len(cons)], 2)]
AtPoints(x, y) ==
  LET R == PV!Run(TwoProg, [k \in 1..(2 * NV) |-> PV!J!Konst(IF k <= NV THEN x[k] ELSE y[k - NV])])
      X == Den(x)
      Y == Den(y)
      ok == \A i \in DOMAIN TwoCons : QOk(Sides(TwoCons[i], R)[1]) /\ QOk(Sides(TwoCons[i], R)[2])
      holds == /\ \A i \in DOMAIN TwoCons : Holds(TwoCons[i][1], Sides(TwoCons[i], R)[1], Sides(TwoCons[i], R)[2])
               /\ \A k \in V : kinds[k] = 1 => x[k][2] = 1 /\ y[k][2] = 1
  IN /\ \A a \in 1..N : R[MovedReg(a, 1)].v = X[a].v /\ R[MovedReg(a, 2)].v = Y[a].v
     /\ ok => holds = (Verdict(x, X) = 1 /\ Verdict(y, Y) = 1)
     /\ obj[1] # "none" => QAdd(R[MovedReg(obj[2], 1)].v, R[MovedReg(obj[2], 2)].v) = QAdd(Value(X), Value(Y))
Beside == phase = "done" =>
  IF Random THEN \E y \in {RandomPoint} : AtPoints(wit, y) /\ AtPoints(y, wit)
  ELSE LET S == {<< <<1, 1>>, <<1, 1>> >>, << <<1, 2>>, <<1, 1>> >>, << <<2, 1>>, <<-1, 1>> >>} IN \A x, y \in S : AtPoints(x, y)
=============================================================================

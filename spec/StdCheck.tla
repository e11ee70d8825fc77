------------------------------ MODULE StdCheck ------------------------------
(* Validates standard problems recorded from the real code (RECORDS, one per *)
(* line, with the model each was made from) against the meaning of the model *)
(* (Prog, as in ModelGen), in exact arithmetic. Only linear classes, whose   *)
(* numbers are small rationals.                                              *)
(* A record adds to the model: col (column of each variable, 0 if none), nx, *)
(* rows <<coefficients, right-hand side, owner>>, l and u (<<n, d, owner>>,  *)
(* d = 0: unlimited), p (integer marks), obj (coefficients).                 *)
EXTENDS Integers, Sequences, FiniteSets, Field, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)

PV == INSTANCE Prog WITH NV <- 0, Add <- QAdd, Mul <- QMul, Neg <- QNeg, Inv <- QInv,
                         Cos <- QCos, Sin <- QSin, Num <- QInt, Rat <- QRat

VARIABLES r,     \* index of the record looked at, 0 before
          tab    \* what the record means at each of its points
R == Recs[r]
Regs(pt) == PV!Run(R.i, [k \in DOMAIN pt |-> PV!J!Konst(pt[k])])
Sides(c, D) == LET s == QRat(c[5], c[6])
               IN IF c[2] \in {"rr", "ro"} THEN <<D[c[3]].v, D[c[4]].v>>
                  ELSE IF c[2] = "rs" THEN <<D[c[3]].v, s>> ELSE <<s, D[c[3]].v>>
Residual(c, D) == LET x == Sides(c, D) IN QSub(x[1], x[2])
Holds(op, q) == CASE op = "eq" -> q = <<0, 1>> [] op = "le" -> QLe(q, <<0, 1>>) [] op = "ge" -> QLe(<<0, 1>>, q)

Cols == 1..R.nx
IsAux(j) == \A k \in DOMAIN R.col : R.col[k] # j
VarAt(j) == CHOOSE k \in DOMAIN R.col : R.col[k] = j
Coef(i, j) == R.rows[i].a[j]
RowAux(i) == {j \in Cols : IsAux(j) /\ Coef(i, j)[1] # 0}
RowsOf(j) == {i \in DOMAIN R.rows : Coef(i, j)[1] # 0}

RECURSIVE SumTo(_,_)
SumTo(f, n) == IF n = 0 THEN <<0, 1>> ELSE QAdd(SumTo(f, n - 1), f[n])
(* the row at the point, auxiliary variables at zero *)
RowAt(i, pt) == QSub(SumTo([j \in Cols |-> IF IsAux(j) THEN <<0, 1>> ELSE QMul(Coef(i, j), pt[VarAt(j)])], R.nx), R.rows[i].b)
AuxAt(j, pt) == LET i == CHOOSE i \in RowsOf(j) : TRUE
                IN QMul(QNeg(RowAt(i, pt)), QInv(Coef(i, j)))
ColAt(j, pt) == IF IsAux(j) THEN IF RowsOf(j) = {} THEN <<0, 1>> ELSE AuxAt(j, pt) ELSE pt[VarAt(j)]
Limited(x) == x[2] # 0
Within(j, pt) == LET x == ColAt(j, pt)
                     l == <<R.l[j][1], R.l[j][2]>>   u == <<R.u[j][1], R.u[j][2]>>
                 IN (Limited(R.l[j]) => QLe(l, x)) /\ (Limited(R.u[j]) => QLe(x, u))
Decided(pt, D) == /\ \A c \in DOMAIN R.c : QOk(Residual(R.c[c], D))
                  /\ \A i \in DOMAIN R.rows : QOk(RowAt(i, pt))
                  /\ \A j \in Cols : QOk(ColAt(j, pt))

ModelFeasible(pt, D) == /\ \A c \in DOMAIN R.c : Holds(R.c[c][1], Residual(R.c[c], D))
                        /\ \A k \in DOMAIN R.k : R.k[k] = 1 /\ R.col[k] # 0 => pt[k][2] = 1
StdFeasible(pt) == /\ \A i \in DOMAIN R.rows : RowAux(i) = {} => RowAt(i, pt) = <<0, 1>>
                   /\ \A j \in Cols : Within(j, pt)
                   /\ \A j \in Cols : R.p[j] = 1 => ColAt(j, pt)[2] = 1
(* every auxiliary variable belongs to one row, and no row has two *)
AuxShape == \A j \in Cols : IsAux(j) => Cardinality(RowsOf(j)) <= 1
RowShape == \A i \in DOMAIN R.rows : Cardinality(RowAux(i)) <= 1

(* the objective is the model's, up to a constant *)
ObjAt(pt) == SumTo([j \in Cols |-> QMul(R.obj[j], ColAt(j, pt))], R.nx)
Wanted(D) == IF R.o[1] = "none" THEN <<0, 1>>
             ELSE LET v == D[R.o[2]].v IN IF R.o[1] = "min" THEN v ELSE QNeg(v)

Row(k) == LET pt == R.g[k][1]
              D == Regs(pt)
              dec == AuxShape /\ RowShape /\ Decided(pt, D)
          IN [dec |-> dec,
              mf |-> dec /\ ModelFeasible(pt, D),
              sf |-> dec /\ StdFeasible(pt),
              diff |-> IF dec THEN LET x == ObjAt(pt) y == Wanted(D)
                                   IN IF QOk(x) /\ QOk(y) THEN QSub(x, y) ELSE QBad ELSE QBad,
              res |-> IF dec THEN [c \in DOMAIN R.c |-> Residual(R.c[c], D)] ELSE <<>>,
              row |-> IF dec THEN [i \in DOMAIN R.rows |-> RowAt(i, pt)] ELSE <<>>,
              col |-> IF dec THEN [j \in Cols |-> ColAt(j, pt)] ELSE <<>>]

Init == r = 0 /\ tab = <<>>
Next == \/ r = 0 /\ r' \in 1..Len(Recs) /\ tab' = tab
        \/ r > 0 /\ tab = <<>> /\ r' = r /\ tab' = [k \in DOMAIN R.g |-> Row(k)]
Spec == Init /\ [][Next]_<<r, tab>>

Shape == r > 0 => AuxShape /\ RowShape
SameFeasiblePoints == \A k \in DOMAIN tab : tab[k].mf <=> tab[k].sf
SameObjective == LET diffs == {tab[k].diff : k \in {k \in DOMAIN tab : QOk(tab[k].diff)}}
                 IN Cardinality(diffs) <= 1
Marks == r > 0 => \A j \in Cols : R.p[j] = IF IsAux(j) THEN 0 ELSE R.k[VarAt(j)]

(* attribution: the owner of a row is a constraint with the row as its residual; the owner  *)
(* of a limit is an inequality that holds exactly where the limit does                      *)
DecidedPoints == {k \in DOMAIN tab : tab[k].dec}
RowOwners == r > 0 => \A i \in DOMAIN R.rows :
  LET o == R.rows[i].o IN o \in DOMAIN R.c /\
    \A k \in DecidedPoints : tab[k].row[i] = tab[k].res[o]
LimitOwners == r > 0 => \A j \in Cols :
  /\ Limited(R.u[j]) => LET o == R.u[j][3] IN /\ o \in DOMAIN R.c
       /\ \A k \in DecidedPoints : (QLe(tab[k].col[j], <<R.u[j][1], R.u[j][2]>>) <=> Holds(R.c[o][1], tab[k].res[o]))
  /\ Limited(R.l[j]) => LET o == R.l[j][3] IN /\ o \in DOMAIN R.c
       /\ \A k \in DecidedPoints : (QLe(<<R.l[j][1], R.l[j][2]>>, tab[k].col[j]) <=> Holds(R.c[o][1], tab[k].res[o]))
=============================================================================

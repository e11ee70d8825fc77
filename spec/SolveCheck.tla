----------------------------- MODULE SolveCheck -----------------------------
(* Judges solves recorded from the real code: a mock solver saw a standard   *)
(* problem, returned a point and multipliers that make the auxiliary         *)
(* variables stationary, and the model then held duals. With any such        *)
(* multipliers the duals must satisfy the model's stationarity exactly as    *)
(* far as the multipliers satisfy the standard problem's (so that an optimal *)
(* solution's do), and each dual must be the multiplier of the row or limit  *)
(* that enforces its constraint.                                             *)
(* Record: obj <<direction, expression>>, cons <<menu index, has a dual,     *)
(* dual>>, x, nx, col, rows (a: gradient, v: value with auxiliary variables  *)
(* at zero, m: multiplier), g (objective gradient), l and u <<value, limited, *)
(* multiplier>>.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SolveMenu

Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLES r, cur
Init == r = 0 /\ cur = <<>>
Next == r = 0 /\ r' \in 1..Len(Recs) /\ cur' = Recs[r']
Spec == Init /\ [][Next]_<<r, cur>>

On == r > 0
C == DOMAIN cur.cons
Op(c) == Cons[cur.cons[c][1]][1]
E(c) == Exprs[Cons[cur.cons[c][1]][2]]
Rhs(c) == Cons[cur.cons[c][1]][3]
Has(c) == cur.cons[c][2] = 1
Dual(c) == IF Has(c) THEN cur.cons[c][3] ELSE 0
G(c) == GradAt(E(c), cur.x)
Value(c) == ValueAt(E(c), cur.x) - Rhs(c)

Cols == 1..cur.nx
Rows == DOMAIN cur.rows
IsAux(j) == \A v \in V : cur.col[v] # j
Used == {v \in V : cur.col[v] # 0}
RECURSIVE Sum(_,_)
Sum(f, n) == IF n = 0 THEN 0 ELSE Sum(f, n - 1) + f[n]

StdResidual(j) == cur.g[j] - Sum([i \in Rows |-> cur.rows[i].m * cur.rows[i].a[j]], Len(cur.rows)) + cur.u[j][3] - cur.l[j][3]
ObjGrad == IF cur.obj[1] = "none" THEN <<0, 0, 0>>
           ELSE LET g == GradAt(Exprs[cur.obj[2]], cur.x) IN IF cur.obj[1] = "min" THEN g ELSE [v \in V |-> -g[v]]
ModelResidual(v) == ObjGrad[v] + Sum([c \in C |-> Dual(c) * G(c)[v] * (IF Op(c) = "le" THEN 1 ELSE -1)], Len(cur.cons))

Stationary == (On /\ (\A j \in Cols : IsAux(j) => StdResidual(j) = 0)) => \A v \in Used : StdResidual(cur.col[v]) = ModelResidual(v)
Nonneg == On => \A c \in C : Op(c) # "eq" => Dual(c) >= 0

(* the implied limit of a constraint on a single variable, as n / d *)
Single(c) == E(c).q = <<0, 0>> /\ Op(c) # "eq" /\ Cardinality({v \in V : E(c).l[v] # 0}) = 1
Var(c) == CHOOSE v \in V : E(c).l[v] # 0
Upper(c) == (Op(c) = "le") = (E(c).l[Var(c)] > 0)
SameRow(c, i) == \E s \in {1, -1} : /\ \A v \in Used : cur.rows[i].a[cur.col[v]] = s * G(c)[v]
                                    /\ cur.rows[i].v = s * Value(c)
(* an equality has the multiplier of a row that is its own; an inequality with a nonzero dual has *)
(* that of a limit that enforces it                                                               *)
OfRow(c) == \E i \in Rows : SameRow(c, i) /\ (cur.rows[i].m = Dual(c) \/ cur.rows[i].m = -Dual(c)) /\ \A j \in Cols : IsAux(j) => cur.rows[i].a[j] = 0
OfLimit(c) == \E j \in Cols :
   \/ IsAux(j) /\ Dual(c) \in {cur.u[j][3], cur.l[j][3]} /\ \E i \in Rows : cur.rows[i].a[j] # 0 /\ SameRow(c, i)
   \/ /\ Single(c) /\ cur.col[Var(c)] = j
      /\ LET n == E(c).l[Var(c)]
             lim == IF Upper(c) THEN cur.u[j] ELSE cur.l[j]
         IN lim[2] = 1 /\ lim[1] * n = Rhs(c) /\ n * n * Dual(c) * Dual(c) = lim[3] * lim[3]
Attributed == On => \A c \in C : IF Op(c) = "eq" THEN Has(c) /\ OfRow(c) ELSE Dual(c) # 0 => OfLimit(c)
(* an inequality without a dual is one that another limit makes redundant *)
Implies(c, d) == /\ Single(c) /\ Single(d) /\ Var(c) = Var(d) /\ Upper(c) = Upper(d)
                 /\ LET m == E(c).l[Var(c)] n == E(d).l[Var(d)]
                        (* Rhs(c) / m against Rhs(d) / n *)
                        lhs == IF m * n > 0 THEN Rhs(c) * n ELSE -(Rhs(c) * n)
                        rhs == IF m * n > 0 THEN Rhs(d) * m ELSE -(Rhs(d) * m)
                    IN IF Upper(c) THEN lhs <= rhs ELSE lhs >= rhs
Complete == On => \A c \in C : (Op(c) # "eq" /\ Dual(c) = 0) => \E d \in C : d # c /\ Dual(d) > 0 /\ Implies(d, c)
=============================================================================

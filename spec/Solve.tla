------------------------------- MODULE Solve -------------------------------
(* A model's life: its objective, constraints and initial values are edited, *)
(* it is solved with solvers that answer or fail, and its results are read   *)
(* after every step. The specification says what the results are, and how    *)
(* the multipliers a solver returns for the standard problem become the      *)
(* duals of the constraints; Transfer is the theorem that this preserves the *)
(* optimality conditions. Histories go to OUT and are replayed with mock     *)
(* solvers; what those saw and returned is judged by SolveCheck.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SolveMenu
CONSTANTS MaxSteps, Mode,     \* "all": every history; "menu": every sequence of constraints; "random"
          Copies              \* the variables come in so many groups of three; an expression is over one of them

Small == {1, 2, 3, 4, 5}
Outcomes == {"solved", "infeasible", "unknown", "error", "fail", "panic"}

VARIABLES obj,      \* <<direction, expression, group>>
          cons,     \* <<index of Cons, group>>, in order
          init,     \* the variables that have an initial value
          res,      \* <<status, value of every variable (0: none, -1: some value)>>
          k,        \* number of solves that reached the solver
          hist,     \* steps, each with the results expected after it
          duals     \* for the theorem: constraint position -> dual of the last solve, given its multipliers
vars == <<obj, cons, init, res, k, hist, duals>>

VV == 1..(3 * Copies)
UsedBy(e, c) == {3 * (c - 1) + v : v \in {v \in V : Exprs[e].l[v] # 0 \/ Exprs[e].q[1] = v \/ Exprs[e].q[2] = v}}
Used == (IF obj[1] = "none" THEN {} ELSE UsedBy(obj[2], obj[3])) \cup UNION {UsedBy(Cons[cons[i][1]][2], cons[i][2]) : i \in DOMAIN cons}
None == <<"none", [v \in VV |-> 0]>>

(* the value a mock solver gives to a variable it can tell: those with an initial value *)
Tag(n, v) == 100 * n + v
Init == obj = <<"none", 1, 1>> /\ cons = <<>> /\ init = {} /\ res = None /\ k = 0 /\ hist = <<>> /\ duals = <<>>

Step(s, r) == hist' = Append(hist, [s |-> s, r |-> r])
SetObj(d, e, c) == /\ obj' = <<d, e, c>> /\ Step(<<"obj", d, e, c>>, res) /\ UNCHANGED <<cons, init, res, k, duals>>
Add(i, c) == /\ cons' = Append(cons, <<i, c>>) /\ Step(<<"con", "", i, c>>, res) /\ UNCHANGED <<obj, init, res, k, duals>>
RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN 2^(v - 1) + Mask(S \ {v})
SetInit(S) == /\ init' = S /\ Step(<<"init", "", Mask(S), 0>>, res)
              /\ UNCHANGED <<obj, cons, res, k, duals>>

(* ------------------------------------------------ the standard problem and its duals *)
Op(i) == Cons[cons[i][1]][1]
E(i) == Exprs[Cons[cons[i][1]][2]]
P == <<2, 3, 1>>                                  \* the point where gradients are taken
Grad(e) == GradAt(e, P)
Limit(i) == /\ E(i).q = <<0, 0>> /\ Op(i) # "eq"
            /\ \E v \in V : E(i).l[v] = 1 /\ \A w \in V \ {v} : E(i).l[w] = 0
LimitOf(i) == CHOOSE v \in V : E(i).l[v] # 0
Bound(i) == Cons[cons[i][1]][3]
(* of several limits of a variable on one side the tightest counts; a tie is any one's *)
Tightest(i) == \A j \in DOMAIN cons : (Limit(j) /\ LimitOf(j) = LimitOf(i) /\ Op(j) = Op(i))
                                         => IF Op(i) = "le" THEN Bound(i) <= Bound(j) ELSE Bound(i) >= Bound(j)
Counts(i) == Limit(i) /\ Tightest(i) /\ \A j \in DOMAIN cons : (j > i /\ Limit(j) /\ LimitOf(j) = LimitOf(i) /\ Op(j) = Op(i)) => ~Tightest(j)
(* multipliers a solver may return: of rows m[i] (for slack rows the multiplier of the slack's *)
(* limit, which determines that of the row), of limits m[i] for the constraint that counts     *)
RowMult(i, m) == CASE Op(i) = "eq" -> m[i] [] Op(i) = "le" -> -m[i] [] Op(i) = "ge" -> m[i]
RECURSIVE Sum(_,_)
Sum(f, n) == IF n = 0 THEN 0 ELSE Sum(f, n - 1) + f[n]
N == Len(cons)
StdResidual(v, m) == Sum([i \in DOMAIN cons |-> IF Limit(i) THEN IF ~Counts(i) \/ LimitOf(i) # v THEN 0 ELSE IF Op(i) = "le" THEN m[i] ELSE -m[i]
                                                ELSE -(RowMult(i, m) * Grad(E(i))[v])], N)
DualOf(i, m) == IF Limit(i) /\ ~Counts(i) THEN 0 ELSE m[i]
ModelResidual(v, d) == Sum([i \in DOMAIN cons |-> d[i] * Grad(E(i))[v] * (CASE Op(i) = "eq" -> -1 [] Op(i) = "le" -> 1 [] Op(i) = "ge" -> -1)], N)

Solve(o) == /\ k' = k + 1
            /\ LET r == IF o \in {"fail", "panic"} THEN None
                        ELSE <<o, [v \in VV |-> IF v \notin Used THEN 0 ELSE IF v \in init THEN Tag(k + 1, v) ELSE -1]>>
               IN res' = r /\ Step(<<"solve", o, 0, 0>>, r)
            /\ duals' = IF o \in {"fail", "panic"} \/ Copies > 1 THEN <<>> ELSE LET m == [i \in DOMAIN cons |-> 1 + ((i * i + 3 * k) % 7)] IN <<m, [i \in DOMAIN cons |-> DualOf(i, m)]>>
            /\ UNCHANGED <<obj, cons, init>>

Dirs == {"min", "max"}
NextAll == \/ \E o \in {<<"min", 1>>, <<"max", 2>>, <<"min", 3>>, <<"none", 1>>} : SetObj(o[1], o[2], 1)
           \/ \E c \in Small : Add(c, 1)
           \/ \E S \in {V, {}} : SetInit(S)
           \/ \E o \in Outcomes \ {"unknown", "error"} : Solve(o)
Pick(S) == RandomElement(S)
NextRandom == \E c \in {Pick(1..20)} :
                CASE c <= 3 -> \E d \in {Pick(Dirs)}, e \in {Pick(DOMAIN Exprs)} : SetObj(d, e, Pick(1..Copies))
                  [] c = 4 -> SetObj("none", 1, 1)
                  [] c <= 11 -> \E x \in {Pick(DOMAIN Cons)}, g \in {Pick(1..Copies)} : Add(x, g)
                  [] c <= 14 -> \E S \in {IF Pick(1..3) > 1 THEN VV ELSE {v \in VV : Pick(1..3) > 1}} : SetInit(S)
                  [] OTHER -> \E o \in {IF Pick(1..2) = 1 THEN "solved" ELSE Pick(Outcomes)} : Solve(o)
(* every sequence of constraints, then a solve *)
NextMenu == CASE hist = <<>> -> SetInit(V)
              [] Len(hist) = 1 -> \E o \in {<<"min", 8>>, <<"max", 9>>} : SetObj(o[1], o[2], 1)
              [] Len(hist) = MaxSteps - 1 -> Solve("solved")
              [] OTHER -> \E c \in DOMAIN Cons : Add(c, 1)
Next == Len(hist) < MaxSteps /\ k < 9 /\ (CASE Mode = "all" -> NextAll [] Mode = "menu" -> NextMenu [] OTHER -> NextRandom)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the duals satisfy the model's stationarity exactly when the multipliers satisfy the standard problem's *)
Transfer == (duals # <<>> /\ Len(duals[1]) = N) => \A v \in V : StdResidual(v, duals[1]) = ModelResidual(v, duals[2])
Nonneg == duals # <<>> => \A i \in DOMAIN duals[2] : duals[2][i] >= 0
(* nothing but the last solve is visible *)
OnlyLast == LET S == {i \in DOMAIN hist : hist[i].s[1] = "solve"}
            IN IF S = {} THEN res = None
               ELSE LET l == CHOOSE i \in S : \A j \in S : j <= i
                    IN /\ res = hist[l].r
                       /\ (res = None) <=> (hist[l].s[2] \in {"fail", "panic"})
                       /\ \A v \in VV : res[2][v] > 0 => res[2][v] \div 100 = k

Done == Len(hist) = MaxSteps \/ k = 9
Emit == ("OUT" \in DOMAIN IOEnv /\ Done /\ (Mode = "random" \/ hist[Len(hist)].s[1] = "solve"))
          => Serialize(ToJson([n |-> 3 * Copies, h |-> hist, d |-> IF Mode = "random" THEN Pick({0, 0, 1}) ELSE 0]) \o "\n", IOEnv.OUT,
                [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

------------------------------- MODULE KktGen -------------------------------
(* Convex models made around a chosen optimum and chosen multipliers: the     *)
(* gradients of the active constraints are independent, so both are unique.   *)
(* The objective's gradient is what the optimality conditions (C12) demand.   *)
(* Models with their solution go to OUT and are solved by the real solvers.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Mode, MaxCons     \* Mode: "one", or "blocks": several models side by side, on variables of their own

RECURSIVE SumS(_), Det(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Dot(a, x) == SumS([i \in DOMAIN a |-> a[i] * x[i]])
Minor(m, j) == [i \in 1..(Len(m) - 1) |-> [k \in 1..(Len(m) - 1) |-> m[i + 1][IF k < j THEN k ELSE k + 1]]]
Det(m) == IF Len(m) = 0 THEN 1 ELSE IF Len(m) = 1 THEN m[1][1]
          ELSE SumS([j \in 1..Len(m) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * Det(Minor(m, j))])

(* a constraint: [op, d, a, slack, m]: s * sum d x^2 + a * x  op  right-hand side, s = -1 for ge *)
Sg(c) == IF c.op = "ge" THEN -1 ELSE 1
ValC(c, x) == Sg(c) * SumS([i \in DOMAIN x |-> c.d[i] * x[i] * x[i]]) + Dot(c.a, x)
GradC(c, x) == [i \in DOMAIN x |-> Sg(c) * 2 * c.d[i] * x[i] + c.a[i]]
Rhs(c, x) == ValC(c, x) + Sg(c) * c.slack
Active(cs) == SelectSeq(cs, LAMBDA c : c.slack = 0)
Independent(cs, x) == LET A == Active(cs) IN
  /\ Len(A) <= Len(x)
  /\ Det([i \in DOMAIN A |-> [j \in DOMAIN A |-> Dot(GradC(A[i], x), GradC(A[j], x))]]) # 0
(* the gradient of the objective (minimization form) at the optimum *)
Need(cs, x) == [i \in DOMAIN x |-> SumS([k \in DOMAIN cs |-> (IF cs[k].op = "le" THEN -1 ELSE 1) * cs[k].m * GradC(cs[k], x)[i]])]
Stationary(g, cs, x) == \A i \in DOMAIN x :
  g[i] - SumS([k \in DOMAIN cs |-> IF cs[k].op = "eq" THEN cs[k].m * GradC(cs[k], x)[i] ELSE 0])
       + SumS([k \in DOMAIN cs |-> IF cs[k].op = "le" THEN cs[k].m * GradC(cs[k], x)[i] ELSE 0])
       - SumS([k \in DOMAIN cs |-> IF cs[k].op = "ge" THEN cs[k].m * GradC(cs[k], x)[i] ELSE 0]) = 0

VARIABLES x, w, cs, g, dir, stage, rest    \* rest: the models finished before
vars == <<x, w, cs, g, dir, stage, rest>>
Pick(S) == RandomElement(S)
Init == x = <<>> /\ w = <<>> /\ cs = <<>> /\ g = <<>> /\ dir = "min" /\ stage = 0 /\ rest = <<>>
RandX(nv) == [i \in 1..nv |-> Pick(-2..2)]
Zero(nv) == [i \in 1..nv |-> 0]
Unit(nv, j, v) == [i \in 1..nv |-> IF i = j THEN v ELSE 0]
RandCon(nv, quad) ==
  LET op == Pick({"le", "le", "ge", "eq"})
      act == op = "eq" \/ Pick(1..3) > 1
      kind == Pick(1..3)   \* a limit on one variable, a linear row, a quadratic row
  IN [op |-> op, d |-> IF kind = 3 /\ quad /\ op # "eq" THEN [i \in 1..nv |-> Pick(0..1)] ELSE Zero(nv),
      a |-> IF kind = 1 THEN Unit(nv, Pick(1..nv), Pick({1, 1, 2, -1, -2})) ELSE [i \in 1..nv |-> Pick(-2..2)],
      slack |-> IF act THEN 0 ELSE Pick(1..4), m |-> IF ~act THEN 0 ELSE IF op = "eq" THEN Pick(-4..4) ELSE Pick(1..5)]
Begin(nv, lp) == stage = 0 /\ x' = RandX(nv) /\ w' = (IF lp THEN Zero(nv) ELSE [i \in 1..nv |-> Pick(1..3)]) /\ dir' = (IF rest = <<>> THEN Pick({"min", "max"}) ELSE dir)
                 /\ stage' = 1 /\ UNCHANGED <<cs, g, rest>>
IsLp == \A i \in DOMAIN w : w[i] = 0
Add(c) == /\ stage = 1 /\ Len(cs) < MaxCons
          /\ cs' = IF Independent(Append(cs, c), x) THEN Append(cs, c) ELSE cs
          /\ UNCHANGED <<x, w, g, dir, stage, rest>>
Enough == IsLp => Len(Active(cs)) = Len(x)
Done == /\ stage = 1 /\ cs # <<>> /\ Enough
        /\ g' = Need(cs, x) /\ stage' = 2 /\ UNCHANGED <<x, w, cs, dir, rest>>
AllLpRest == \A i \in DOMAIN rest : \A k \in DOMAIN rest[i].w : rest[i].w[k] = 0
More == /\ stage = 2 /\ Mode = "blocks" /\ Len(rest) < 4
        /\ rest' = Append(rest, [x |-> x, w |-> w, g |-> g, cs |-> cs])
        /\ x' = <<>> /\ w' = <<>> /\ g' = <<>> /\ cs' = <<>> /\ stage' = 0 /\ UNCHANGED dir
Next == \/ stage = 0 /\ \E nv \in {Pick(1..3)}, lp \in {IF rest = <<>> THEN Pick(1..2) = 1 ELSE AllLpRest /\ Pick(1..6) > 1} : Begin(nv, lp)
        \/ stage = 1 /\ IF cs # <<>> /\ Enough /\ (Len(cs) >= MaxCons \/ Pick(1..3) = 1) THEN Done
                        ELSE \E c \in {RandCon(Len(x), ~IsLp)} : Add(c)
        \/ More
Spec == Init /\ [][Next]_vars

(* side by side *)
Blocks == Append(rest, [x |-> x, w |-> w, g |-> g, cs |-> cs])
RECURSIVE CatF(_,_,_), Cons(_,_)
CatF(bs, f(_), i) == IF i > Len(bs) THEN <<>> ELSE f(bs[i]) \o CatF(bs, f, i + 1)
Start(bs, i) == SumS([k \in 1..(i - 1) |-> Len(bs[k].x)])
Moved(bs, i, a) == [j \in 1..Start(bs, Len(bs) + 1) |-> IF j > Start(bs, i) /\ j <= Start(bs, i + 1) THEN a[j - Start(bs, i)] ELSE 0]
Cons(bs, i) == IF i > Len(bs) THEN <<>> ELSE [k \in DOMAIN bs[i].cs |-> [bs[i].cs[k] EXCEPT !.a = Moved(bs, i, @), !.d = Moved(bs, i, @)]] \o Cons(bs, i + 1)
X == CatF(Blocks, LAMBDA b : b.x, 1)
Cs == Cons(Blocks, 1)
Last == stage = 2 /\ (Mode = "blocks" => Len(rest) = 4)
Kkt == Last => /\ Stationary(CatF(Blocks, LAMBDA b : b.g, 1), Cs, X)
               /\ \A k \in DOMAIN Cs : (Cs[k].op # "eq" => Cs[k].m >= 0) /\ (Cs[k].slack > 0 => Cs[k].m = 0)
Emit == ("OUT" \in DOMAIN IOEnv /\ Last) =>
          Serialize(ToJson([x |-> X, w |-> CatF(Blocks, LAMBDA b : b.w, 1), g |-> CatF(Blocks, LAMBDA b : b.g, 1), dir |-> dir, cs |-> [k \in DOMAIN Cs |-> Cs[k] @@ [b |-> Rhs(Cs[k], X)]]]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

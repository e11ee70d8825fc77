-------------------------------- MODULE Opt --------------------------------
(* Bounded linear and mixed-integer models and their exact optimum: every    *)
(* assignment of the integer variables, and every vertex of what is left for *)
(* the continuous ones, in integer arithmetic (Cramer's rule). Models with   *)
(* their verdict go to OUT and are solved by the real solvers.               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS Mode   \* "menu": every model of a small family; "random"; "knap": integer models with close values;
                 \* "blocks": several random models side by side; "pairs": every two of a small family side by side

(* a model: [ints (flags), d, lo, hi (limits, times d), rows (<<op, coefficients, right-hand side>>), c, c0, dir] *)
RECURSIVE SumS(_), Det(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Dot(a, x) == SumS([i \in DOMAIN a |-> a[i] * x[i]])
Minor(m, j) == [i \in 1..(Len(m) - 1) |-> [k \in 1..(Len(m) - 1) |-> m[i + 1][IF k < j THEN k ELSE k + 1]]]
Det(m) == IF Len(m) = 0 THEN 1 ELSE IF Len(m) = 1 THEN m[1][1]
          ELSE SumS([j \in 1..Len(m) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * Det(Minor(m, j))])

NV(q) == Len(q.c)
IntAt(q) == {i \in 1..NV(q) : q.ints[i]}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})
Cont(q) == Ascending({i \in 1..NV(q) : ~q.ints[i]})
Ceil(a, d) == -((-a) \div d)
RECURSIVE Assignments(_,_,_)
(* assignments of the integer variables; 0 for the others *)
Assignments(q, i, z) == IF i > NV(q) THEN {z}
  ELSE UNION {Assignments(q, i + 1, Append(z, v)) : v \in IF q.ints[i] THEN Ceil(q.lo[i], q.d)..(q.hi[i] \div q.d) ELSE {0}}
(* what the continuous variables must satisfy: <<a, b, equality>>, a * y <= b *)
Neg(a) == [i \in DOMAIN a |-> -a[i]]
Halves(q, z, ct) ==
  LET part(a) == [k \in DOMAIN ct |-> a[ct[k]]]
      unit(k, s) == [j \in DOMAIN ct |-> IF j = k THEN s ELSE 0]
  IN [i \in DOMAIN q.rows |-> LET r == q.rows[i]  b == r[3] - Dot(r[2], z)
                              IN IF r[1] = "ge" THEN <<Neg(part(r[2])), -b, FALSE>> ELSE <<part(r[2]), b, r[1] = "eq">>]
     \o [k \in DOMAIN ct |-> <<unit(k, q.d), q.hi[ct[k]], FALSE>>] \o [k \in DOMAIN ct |-> <<unit(k, -q.d), -q.lo[ct[k]], FALSE>>]
Vertex(H, S) == \* the point where the halves of S (ascending) hold with equality: <<numerators, denominator>>, denominator 0 if none
  LET n == Len(S)
      m == [i \in 1..n |-> H[S[i]][1]]
      d == Det(m)
      s == IF d < 0 THEN -1 ELSE 1
  IN <<[j \in 1..n |-> s * Det([i \in 1..n |-> [m[i] EXCEPT ![j] = H[S[i]][2]]])], s * d>>
Inside(H, v) == \A i \in DOMAIN H : IF H[i][3] THEN Dot(H[i][1], v[1]) = H[i][2] * v[2] ELSE Dot(H[i][1], v[1]) <= H[i][2] * v[2]
Vertices(H, nc) == {v \in {Vertex(H, Ascending(S)) : S \in kSubset(nc, DOMAIN H)} : v[2] # 0 /\ Inside(H, v)}
(* objective values at feasible candidates: <<numerator, denominator>> *)
Values(q) == LET ct == Cont(q) IN
  UNION {LET H == Halves(q, z, ct) IN {<<Dot(q.c, z) * v[2] + SumS([k \in DOMAIN ct |-> q.c[ct[k]] * v[1][k]]), v[2]>> : v \in Vertices(H, Len(ct))} : z \in Assignments(q, 1, <<>>)}
Better(q, a, b) == IF q.dir = "max" THEN a[1] * b[2] > b[1] * a[2] ELSE a[1] * b[2] < b[1] * a[2]
Best(q) == LET V == Values(q) IN IF V = {} THEN <<0, 0>> ELSE FoldSet(LAMBDA a, b : IF Better(q, a, b) THEN a ELSE b, CHOOSE v \in V : TRUE, V)
(* has the feasible set of a continuous model an interior relative to independent equations? *)
Strict(q) == IntAt(q) = {} /\
  LET ct == Cont(q)  H == Halves(q, [i \in 1..NV(q) |-> 0], ct)  V == Vertices(H, NV(q))
      E == SelectSeq(H, LAMBDA h : h[3])
      gram == [i \in DOMAIN E |-> [j \in DOMAIN E |-> Dot(E[i][1], E[j][1])]]
  IN /\ V # {} /\ Len(E) < NV(q) /\ Det(gram) # 0
     /\ \A i \in DOMAIN H : ~H[i][3] => \E v \in V : Dot(H[i][1], v[1]) < H[i][2] * v[2]

(* models side by side, on variables of their own; rows may be added up to rows that follow from them *)
RECURSIVE CatF(_,_,_)
CatF(ms, f(_), i) == IF i > Len(ms) THEN <<>> ELSE f(ms[i]) \o CatF(ms, f, i + 1)
Before(ms, i) == SumS([k \in 1..(i - 1) |-> NV(ms[k])])
Moved(ms, i, a) == [j \in 1..Before(ms, Len(ms) + 1) |-> IF j > Before(ms, i) /\ j <= Before(ms, i + 1) THEN a[j - Before(ms, i)] ELSE 0]
RECURSIVE AllRows(_,_)
AllRows(ms, i) == IF i > Len(ms) THEN <<>> ELSE [r \in DOMAIN ms[i].rows |-> <<ms[i].rows[r][1], Moved(ms, i, ms[i].rows[r][2]), ms[i].rows[r][3]>>] \o AllRows(ms, i + 1)
Plus(r, t) == <<IF r[1] = "eq" THEN t[1] ELSE r[1], [j \in DOMAIN r[2] |-> r[2][j] + t[2][j]], r[3] + t[3]>>
Implied(rows, pairs) == LET ok == SelectSeq(pairs, LAMBDA p : rows[p[1]][1] = "eq" \/ rows[p[2]][1] = "eq" \/ rows[p[1]][1] = rows[p[2]][1])
                        IN [k \in DOMAIN ok |-> Plus(rows[ok[k][1]], rows[ok[k][2]])]
Join(ms, pairs) == LET rows == AllRows(ms, 1)  cat(f(_)) == CatF(ms, f, 1) IN
  [ints |-> cat(LAMBDA m : m.ints), d |-> ms[1].d, lo |-> cat(LAMBDA m : m.lo), hi |-> cat(LAMBDA m : m.hi), rows |-> rows \o Implied(rows, pairs),
   c |-> cat(LAMBDA m : m.c), c0 |-> SumS([i \in DOMAIN ms |-> ms[i].c0]), dir |-> ms[1].dir]

VARIABLES q, parts, best, strict, stage    \* parts: the models q consists of; best: the best value of each
vars == <<q, parts, best, strict, stage>>
Pick(S) == RandomElement(S)
Ops == {"le", "ge", "eq"}
Init == q = <<>> /\ parts = <<>> /\ best = <<>> /\ strict = FALSE /\ stage = 0
Put(m, ms) == stage = 0 /\ q' = m /\ parts' = ms /\ stage' = 1 /\ UNCHANGED <<best, strict>>
Set(m) == Put(m, <<m>>)
Solve == /\ stage = 1 /\ best' = [i \in DOMAIN parts |-> Best(parts[i])] /\ stage' = 2 /\ UNCHANGED <<q, parts>>
         \* (a sum of two equations would make the equations dependent)
         /\ strict' = ((\A i \in DOMAIN parts : Strict(parts[i])) /\ Cardinality({r \in DOMAIN q.rows : q.rows[r][1] = "eq"}) = SumS([i \in DOMAIN parts |-> Cardinality({r \in DOMAIN parts[i].rows : parts[i].rows[r][1] = "eq"})]))
(* constraints on one variable become limits; a file with neither objective nor rows is refused by Cbc and Clp *)
Sound(m) == (\E i \in DOMAIN m.c : m.c[i] # 0) \/ (\E r \in DOMAIN m.rows : Cardinality({i \in DOMAIN m.c : m.rows[r][2][i] # 0}) > 1)
RandModel(d, dir, lean, w) ==    \* lean: most right-hand sides hold at an integer point within the limits
  LET nv == Pick(1..3)
      lo == [i \in 1..nv |-> Pick(-4 * d..d)]
      hi == [i \in 1..nv |-> lo[i] + Pick(IF lean THEN d..5 * d ELSE IF w = 3 THEN 1..6 * d ELSE 0..5 * d)]
      x == [i \in 1..nv |-> Pick(Ceil(lo[i], d)..(hi[i] \div d))]
      row(i) == LET op == IF Pick(1..4) = 1 THEN "eq" ELSE Pick({"le", "ge"})
                    a == [k \in 1..nv |-> IF Pick(1..4) = 1 THEN 0 ELSE Pick(-4..4)]
                    t == Pick(0..2)
                IN <<op, a, IF lean /\ Pick(1..100) > 1 THEN Dot(a, x) + (CASE op = "le" -> t [] op = "ge" -> -t [] OTHER -> 0) ELSE Pick(-7..7)>>
  IN [ints |-> [i \in 1..nv |-> IF w <= 2 THEN TRUE ELSE IF w = 3 THEN FALSE ELSE Pick(1..2) = 1],
      d |-> d, lo |-> lo, hi |-> hi, rows |-> [r \in 1..Pick(0..3) |-> row(r)],
      c |-> [i \in 1..nv |-> IF Pick(1..5) = 1 THEN 0 ELSE Pick(-5..5)], c0 |-> IF Pick(1..2) = 1 THEN 0 ELSE Pick(-9..9), dir |-> dir]
RandD(z) == IF Pick(1..2) = 1 THEN 1 ELSE Pick({2, 4, 5})
Simple == {[ints |-> <<i>>, d |-> 1, lo |-> <<-1>>, hi |-> <<2>>, rows |-> <<<<op, <<a>>, b>>>>, c |-> <<c>>, c0 |-> 0, dir |-> "max"] :
             i \in BOOLEAN, op \in Ops, a \in {-2, 1, 2}, b \in {-5, 0, 1}, c \in {-1, 2}}
Knapsack(z) ==
  LET nv == Pick(6..10)
      h == IF nv <= 6 THEN Pick(1..2) ELSE 1
      m == Pick({1, 1, 2})
      k == Pick({1, 10})
      w == [r \in 1..m |-> [i \in 1..nv |-> Pick(20..60)]]
      sg == Pick({1, -1})
  IN [ints |-> [i \in 1..nv |-> TRUE], d |-> 1, lo |-> [i \in 1..nv |-> 0], hi |-> [i \in 1..nv |-> h],
      rows |-> [r \in 1..m |-> <<IF sg = 1 THEN "le" ELSE "ge", w[r], (h * SumS(w[r]) * Pick(30..70)) \div 100>>],
      c |-> [i \in 1..nv |-> k * w[1][i] + Pick(-2 * k..4 * k)], c0 |-> 0, dir |-> IF sg = 1 THEN "max" ELSE "min"]
Menu == \E ints \in {<<TRUE, TRUE>>, <<FALSE, FALSE>>, <<TRUE, FALSE>>}, op \in Ops, a1 \in {-1, 1, 2}, a2 \in {-2, 0, 1}, b \in {-1, 2, 3}, c \in {<<1, -1>>, <<-2, 1>>, <<1, 3>>}, dir \in {"min", "max"} :
          Set([ints |-> ints, d |-> 1, lo |-> <<-1, 0>>, hi |-> <<2, 3>>, rows |-> <<<<op, <<a1, a2>>, b>>>>, c |-> c, c0 |-> 0, dir |-> dir])
Next == \/ Solve
        \/ Mode = "menu" /\ Menu
        \/ Mode = "random" /\ stage = 0 /\ \E d \in {RandD(0)}, dir \in {Pick({"min", "max"})} : \E m \in {RandModel(d, dir, FALSE, Pick(1..4))} : Sound(m) /\ Set(m)
        \/ Mode = "knap" /\ stage = 0 /\ \E m \in {Knapsack(0)} : Set(m)
        \/ Mode = "pairs" /\ stage = 0 /\ \E m \in Simple, t \in Simple : Put(Join(<<m, t>>, <<<<1, 2>>>>), <<m, t>>)
        \/ Mode = "blocks" /\ stage = 0 /\ \E d \in {RandD(0)}, dir \in {Pick({"min", "max"})} :
             \E ms \in {LET w == Pick(1..5) IN [i \in 1..Pick(3..6) |-> RandModel(d, dir, TRUE, IF w = 5 THEN Pick(1..4) ELSE w)]} : LET n == SumS([i \in DOMAIN ms |-> Len(ms[i].rows)]) IN
                /\ Sound(Join(ms, <<>>))
                /\ \E pairs \in {[k \in 1..(IF n < 2 THEN 0 ELSE Pick(0..3)) |-> <<Pick(1..n), Pick(1..n)>>]} : Put(Join(ms, pairs), ms)
Spec == Init /\ [][Next]_vars

(* side by side, models have the sum of their best values, or no point if one has none *)
Apart == stage = 2 /\ Mode = "pairs" => LET b == Best(q) IN
  IF \E i \in DOMAIN best : best[i][2] = 0 THEN b[2] = 0 ELSE b[1] * best[1][2] * best[2][2] = b[2] * (best[1][1] * best[2][2] + best[2][1] * best[1][2])
(* integer models: brute force over all points agrees *)
AllInts == stage = 2 /\ Len(parts) = 1 /\ IntAt(q) = DOMAIN q.c
Feasible(x) == \A r \in DOMAIN q.rows : LET s == Dot(q.rows[r][2], x) IN CASE q.rows[r][1] = "le" -> s <= q.rows[r][3] [] q.rows[r][1] = "ge" -> s >= q.rows[r][3] [] OTHER -> s = q.rows[r][3]
BruteForce == AllInts => LET X == {x \in Assignments(q, 1, <<>>) : Feasible(x)}
  IN /\ (X = {}) <=> (best[1][2] = 0)
     /\ X # {} => (\E x \in X : Dot(q.c, x) = best[1][1]) /\ \A x \in X : IF q.dir = "max" THEN Dot(q.c, x) <= best[1][1] ELSE Dot(q.c, x) >= best[1][1]
Emit == ("OUT" \in DOMAIN IOEnv /\ stage = 2) =>
          Serialize(ToJson([q |-> q, best |-> best, strict |-> strict]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

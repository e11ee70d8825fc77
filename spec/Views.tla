------------------------------- MODULE Views -------------------------------
(* Problem objects made by hand: data of the right sizes make a problem, and *)
(* every view of it (an LP as an LP, MILP, NLP and MINLP) shows that data    *)
(* and evaluates it; data of inconsistent sizes are refused. The objective   *)
(* and the nonlinear constraints are quadratic. A problem lives through      *)
(* evaluations and combinations of constraint Hessians through its views;    *)
(* what each view shows after its own steps is computed here.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Mode,    \* "all": every class, size and single inconsistency; "random": histories
          MaxOps

Classes == {"lp", "milp", "nlp", "minlp"}
Views(c) == CASE c = "lp" -> {"lp", "milp", "nlp", "minlp"} [] c = "milp" -> {"milp", "minlp"} [] c = "nlp" -> {"nlp", "minlp"} [] c = "minlp" -> {"minlp"}
Linear(c) == c \in {"lp", "milp"}
Mixed(c) == c \in {"milp", "minlp"}
(* the sizes that can be wrong in the data of a class *)
Sizes(c, nf) == {"acols", "arows", "b", "l", "u"} \cup (IF Mixed(c) THEN {"p"} ELSE {})
                \cup (IF Linear(c) THEN {"c"} ELSE {"hrows", "hcols", "jcols", "hcount"} \cup (IF nf > 0 THEN {"Hrows", "Hcols"} ELSE {}))
Pick(S) == RandomElement(S)
Small == -4..4

(* a problem: [class, nx, na, nf, c, q, a, b, l, u, p, x0, con]; q and a: entries <<i, j, v>>, repeated     *)
(* positions add up; con: [c, k, q] each; a quadratic is c*x + k + sum of v x_i x_j over its entries, j <= i *)
VARIABLES pr, bad, ops
vars == <<pr, bad, ops>>
Init == pr = [class |-> ""] /\ bad = <<"", 0>> /\ ops = <<>>

Lower(nx, z) == LET i == Pick(1..nx) IN <<i, Pick(1..i), Pick(Small)>>
Vec(n, z) == [i \in 1..n |-> Pick(Small)]
Entries(nx, k, z) == [e \in 1..Pick(0..k) |-> Lower(nx, e)]
(* the problem may stand inside a wider one: variables, linear rows and (where the class has them) nonlinear rows before its own *)
Pad(z) == IF Pick(1..8) > 1 THEN [cols |-> 0, lin |-> 0, non |-> 0] ELSE [cols |-> Pick({0, 3, 300, 70000}), lin |-> Pick({0, 4, 270, 66000}), non |-> Pick({0, 2, 30, 280})]
Rand(c, nx, na, nf) ==
  [class |-> c, pad |-> IF Mode = "random" THEN Pad(nx) ELSE [cols |-> 0, lin |-> 0, non |-> 0], nx |-> nx, na |-> na, nf |-> IF Linear(c) THEN 0 ELSE nf, c |-> Vec(nx, 0),
   q |-> IF Linear(c) THEN <<>> ELSE Entries(nx, 3 + nx, 0),
   a |-> IF na = 0 THEN <<>> ELSE [e \in 1..Pick(0..5 + na) |-> <<Pick(1..na), Pick(1..nx), Pick(Small)>>],
   b |-> Vec(na, 0), l |-> Vec(nx, 0), u |-> Vec(nx, 1), p |-> [i \in 1..nx |-> Mixed(c) /\ Pick(1..2) = 1],
   x0 |-> IF Pick(1..2) = 1 THEN <<>> ELSE Vec(nx, 2),
   con |-> IF Linear(c) THEN <<>> ELSE [k \in 1..nf |-> [c |-> Vec(nx, k), k |-> Pick(Small), q |-> Entries(nx, 3, k)]]]
Make == /\ pr.class = ""
        /\ IF Mode = "all"
           THEN \E c \in Classes, nx \in 1..3, na \in 0..2, nf \in 0..2 : \E x \in {Rand(c, nx, na, nf)} :
                  /\ (Linear(c) => nf = 0) /\ pr' = x
                  /\ bad' \in {<<"", 0>>} \cup {<<s, 1>> : s \in Sizes(c, nf)}
                            \cup {<<s, -1>> : s \in Sizes(c, nf) \ ((IF na = 0 THEN {"arows", "b"} ELSE {}) \cup (IF nf = 0 THEN {"hcount"} ELSE {}))}
           ELSE \E c \in {Pick(Classes)} : \E w \in {Pick(1..4)} :
                \E x \in {IF w = 1 THEN Rand(c, Pick(5..9), Pick(4..8), Pick(4..8)) ELSE Rand(c, Pick(1..4), Pick(0..3), Pick(0..3))} : pr' = x /\ bad' = <<"", 0>>
        /\ ops' = ops

(* ---- the meaning ---- *)
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Quad(c, k, q, x) == SumS([i \in DOMAIN c |-> c[i] * x[i]]) + k + SumS([e \in DOMAIN q |-> q[e][3] * x[q[e][1]] * x[q[e][2]]])
Grad(c, q, x) == [i \in DOMAIN c |-> c[i] + SumS([e \in DOMAIN q |-> (IF q[e][1] = i THEN q[e][3] * x[q[e][2]] ELSE 0) + (IF q[e][2] = i THEN q[e][3] * x[q[e][1]] ELSE 0)])]
(* second derivatives, entry by entry *)
Hess(q) == [e \in DOMAIN q |-> IF q[e][1] = q[e][2] THEN 2 * q[e][3] ELSE q[e][3]]
At(x) == [phi |-> Quad(pr.c, 0, pr.q, x), gphi |-> Grad(pr.c, pr.q, x), hphi |-> Hess(pr.q),
          f |-> [k \in 1..pr.nf |-> Quad(pr.con[k].c, pr.con[k].k, pr.con[k].q, x)],
          j |-> [k \in 1..pr.nf |-> Grad(pr.con[k].c, pr.con[k].q, x)],
          h |-> [k \in 1..pr.nf |-> Hess(pr.con[k].q)]]
Comb(nu) == [k \in 1..pr.nf |-> [e \in DOMAIN pr.con[k].q |-> nu[k] * Hess(pr.con[k].q)[e]]]
(* the Hessian of the combination, as a matrix: what the entries of Comb must add up to *)
Dense(nu, i, j) == SumS([k \in 1..pr.nf |-> nu[k] * SumS([e \in DOMAIN pr.con[k].q |->
                     IF pr.con[k].q[e][1] = i /\ pr.con[k].q[e][2] = j THEN Hess(pr.con[k].q)[e] ELSE 0])])
Evaluated(v) == \E i \in DOMAIN ops : ops[i].op = "eval" /\ ops[i].view = v
Eval(v, x) == ops' = Append(ops, [op |-> "eval", view |-> v, x |-> x, want |-> At(x)]) /\ UNCHANGED <<pr, bad>>
Combine(v, nu) == /\ Evaluated(v)
                  /\ ops' = Append(ops, [op |-> "combine", view |-> v, x |-> nu, want |-> IF Len(nu) = pr.nf THEN [h |-> Comb(nu)] ELSE [refused |-> TRUE]])
                  /\ UNCHANGED <<pr, bad>>
Step == /\ pr.class # "" /\ bad[1] = "" /\ Len(ops) < MaxOps
        /\ \E v \in {Pick(Views(pr.class))} :
             IF Pick(1..2) = 1 \/ ~Evaluated(v) \/ v \in {"lp", "milp"} THEN \E x \in {Vec(pr.nx, 0)} : Eval(v, x)
             ELSE \E n \in {IF Pick(1..6) = 1 THEN pr.nf + Pick({1, 2}) ELSE pr.nf} : \E nu \in {Vec(n, 0)} : Combine(v, nu)
Next == Make \/ Step
Spec == Init /\ [][Next]_vars

(* the Hessian of a quadratic is right: exact second-order expansion of every function along every step taken *)
Last == ops[Len(ops)]
Sym(q, i, j) == SumS([e \in DOMAIN q |-> IF {q[e][1], q[e][2]} = {i, j} THEN (IF q[e][1] = q[e][2] THEN 2 ELSE 1) * q[e][3] ELSE 0])
Taylor == (Len(ops) >= 2 /\ Last.op = "eval" /\ ops[Len(ops) - 1].op = "eval") =>
  LET x == ops[Len(ops) - 1].x  y == Last.x  d == [i \in 1..pr.nx |-> y[i] - x[i]]
      ok(c, k, q) == 2 * Quad(c, k, q, y) = 2 * Quad(c, k, q, x) + 2 * SumS([i \in 1..pr.nx |-> Grad(c, q, x)[i] * d[i]])
                       + SumS([i \in 1..pr.nx |-> SumS([j \in 1..pr.nx |-> Sym(q, i, j) * d[i] * d[j]])])
  IN ok(pr.c, 0, pr.q) /\ \A k \in 1..pr.nf : ok(pr.con[k].c, pr.con[k].k, pr.con[k].q)
Combined == (Len(ops) >= 1 /\ Last.op = "combine" /\ Len(Last.x) = pr.nf) =>
  \A i, j \in 1..pr.nx : Dense(Last.x, i, j) =
    SumS([k \in 1..pr.nf |-> SumS([e \in DOMAIN pr.con[k].q |-> IF pr.con[k].q[e][1] = i /\ pr.con[k].q[e][2] = j THEN Last.want.h[k][e] ELSE 0])])
Done == pr.class # "" /\ (Mode = "all" \/ Len(ops) = MaxOps)
Emit == ("OUT" \in DOMAIN IOEnv /\ Done) =>
          Serialize(ToJson([p |-> pr, bad |-> bad, ops |-> ops]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

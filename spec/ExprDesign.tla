----------------------------- MODULE ExprDesign -----------------------------
(* The algorithms numopt uses for expressions, as a transition system over a *)
(* heap of shared nodes: simplifying constructors, derivatives as sums over  *)
(* paths of products of partials, affine analysis, second derivatives over   *)
(* unordered pairs. Each step appends one register. The invariants say that  *)
(* every register means what the program says (module Prog, over F_p).       *)
EXTENDS Integers, Sequences, FiniteSets, Field, TLC

CONSTANTS NV, MaxIns, Scalars, Random, BugDivSame

PR == INSTANCE Prog WITH Add <- FAdd, Mul <- FMul, Neg <- FNeg, Inv <- FInv,
                         Cos <- FCos, Sin <- FSin, Num <- FInt, Rat <- FRat

VARIABLES heap,   \* sequence of nodes [o, args, c]
          regs,   \* register -> heap index
          prog    \* instructions so far
vars == <<heap, regs, prog>>

ScalarsDef == {<<0,1>>, <<1,1>>, <<-1,1>>, <<5,2>>, <<-5,2>>}

-------------------------------------------------------------- (* heap *)
(* constructors take a heap and return <<heap, index>> *)
New(h, o, args, c) == <<Append(h, [o |-> o, args |-> args, c |-> c]), Len(h) + 1>>
K(h, c) == New(h, "k", <<>>, c)
IsK(h, i) == h[i].o = "k"
IsKV(h, i, c) == h[i].o = "k" /\ h[i].c = c

RECURSIVE SumC(_,_)
SumC(h, s) == IF s = <<>> THEN 0
              ELSE FAdd(IF IsK(h, Head(s)) THEN h[Head(s)].c ELSE 0, SumC(h, Tail(s)))
NonK(h, s) == SelectSeq(s, LAMBDA i : ~ IsK(h, i))
Flat(h, i) == IF h[i].o = "add" THEN h[i].args ELSE <<i>>

MkAdd(h, a, b) ==
  IF IsKV(h, a, 0) THEN <<h, b>>
  ELSE IF IsKV(h, b, 0) THEN <<h, a>>
  ELSE LET all == Flat(h, a) \o Flat(h, b)
           c == SumC(h, all)
           args == NonK(h, all)
       IN IF args = <<>> THEN K(h, c)
          ELSE IF c # 0 THEN LET k == K(h, c) IN New(k[1], "add", Append(args, k[2]), 0)
          ELSE IF Len(args) = 1 THEN <<h, args[1]>>
          ELSE New(h, "add", args, 0)

RECURSIVE MkMul(_,_,_), Distribute(_,_,_,_,_)
Distribute(h, k, args, left, acc) ==
  IF args = <<>> THEN New(h, "add", acc, 0)
  ELSE LET m == IF left THEN MkMul(h, k, Head(args)) ELSE MkMul(h, Head(args), k)
       IN Distribute(m[1], k, Tail(args), left, Append(acc, m[2]))
MkMul(h, a, b) ==
  IF IsKV(h, a, 0) \/ IsKV(h, b, 0) THEN K(h, 0)
  ELSE IF IsKV(h, a, 1) THEN <<h, b>>
  ELSE IF IsKV(h, b, 1) THEN <<h, a>>
  ELSE IF IsK(h, a) /\ IsK(h, b) THEN K(h, FMul(h[a].c, h[b].c))
  ELSE IF IsK(h, a) /\ h[b].o = "add" THEN Distribute(h, a, h[b].args, TRUE, <<>>)
  ELSE IF IsK(h, b) /\ h[a].o = "add" THEN Distribute(h, b, h[a].args, FALSE, <<>>)
  ELSE New(h, "mul", <<a, b>>, 0)

MkNeg(h, a) == IF IsK(h, a) THEN K(h, FNeg(h[a].c))
               ELSE LET k == K(h, FInt(-1)) IN MkMul(k[1], k[2], a)
MkSub(h, a, b) == LET m == MkNeg(h, b) IN MkAdd(m[1], a, m[2])
(* only used when b is not the constant zero: numopt panics there *)
MkDiv(h, a, b) ==
  IF IsKV(h, b, 1) THEN <<h, a>>
  ELSE IF IsKV(h, a, 0) THEN K(h, 0)
  ELSE IF IsK(h, a) /\ IsK(h, b) THEN K(h, FMul(h[a].c, FInv(h[b].c)))
  ELSE New(h, "div", <<a, b>>, 0)
MkCos(h, a) == IF IsK(h, a) THEN K(h, FCos(h[a].c)) ELSE New(h, "cos", <<a>>, 0)
MkSin(h, a) == IF IsK(h, a) THEN K(h, FSin(h[a].c)) ELSE New(h, "sin", <<a>>, 0)
MkBin(op, h, a, b) == CASE op = "add" -> MkAdd(h, a, b) [] op = "sub" -> MkSub(h, a, b)
                        [] op = "mul" -> MkMul(h, a, b) [] op = "div" -> MkDiv(h, a, b)

-------------------------------------------------------- (* evaluation *)
RECURSIVE Eval(_,_,_), EvalSum(_,_,_)
EvalSum(h, s, env) == IF s = <<>> THEN 0 ELSE FAdd(Eval(h, Head(s), env), EvalSum(h, Tail(s), env))
Eval(h, i, env) ==
  LET n == h[i] IN
  CASE n.o = "k" -> n.c
    [] n.o = "v" -> env[n.c]
    [] n.o = "add" -> EvalSum(h, n.args, env)
    [] n.o = "mul" -> FMul(Eval(h, n.args[1], env), Eval(h, n.args[2], env))
    [] n.o = "div" -> FMul(Eval(h, n.args[1], env), FInv(Eval(h, n.args[2], env)))
    [] n.o = "cos" -> FCos(Eval(h, n.args[1], env))
    [] n.o = "sin" -> FSin(Eval(h, n.args[1], env))

------------------------------------------------------- (* derivatives *)
Partial(h, n, arg) ==
  LET a == h[n].args IN
  CASE h[n].o = "add" -> K(h, IF \E i \in DOMAIN a : a[i] = arg THEN 1 ELSE 0)
    [] h[n].o = "mul" -> IF a[1] = arg THEN <<h, a[2]>> ELSE <<h, a[1]>>
    [] h[n].o = "div" ->
         IF a[1] = arg /\ a[2] = arg /\ ~ BugDivSame THEN K(h, 0)
         ELSE IF a[1] = arg THEN LET k == K(h, 1) IN MkDiv(k[1], k[2], a[2])
         ELSE LET m == MkNeg(h, a[1])
                  q == MkMul(m[1], a[2], a[2])
              IN MkDiv(q[1], m[2], q[2])
    [] h[n].o = "cos" -> LET s == MkSin(h, arg) IN MkNeg(s[1], s[2])
    [] h[n].o = "sin" -> MkCos(h, arg)

(* all routes from node i to variable v, as sequences of nodes *)
RECURSIVE Paths(_,_,_), PathsArgs(_,_,_,_)
PathsArgs(h, s, v, i) ==
  IF s = <<>> THEN <<>>
  ELSE LET ps == Paths(h, Head(s), v)
       IN [k \in DOMAIN ps |-> <<i>> \o ps[k]] \o PathsArgs(h, Tail(s), v, i)
Paths(h, i, v) == IF h[i].o = "v" THEN (IF h[i].c = v THEN << <<i>> >> ELSE <<>>)
                  ELSE PathsArgs(h, h[i].args, v, i)

RECURSIVE ProdPath(_,_,_,_), SumPaths(_,_,_)
ProdPath(h, path, k, acc) ==
  IF k >= Len(path) THEN <<h, acc>>
  ELSE LET p == Partial(h, path[k], path[k+1])
           m == MkMul(p[1], acc, p[2])
       IN ProdPath(m[1], path, k + 1, m[2])
SumPaths(h, paths, acc) ==
  IF paths = <<>> THEN <<h, acc>>
  ELSE LET one == K(h, 1)
           p == ProdPath(one[1], Head(paths), 1, one[2])
           s == MkAdd(p[1], acc, p[2])
       IN SumPaths(s[1], Tail(paths), s[2])
Deriv(h, i, v) == LET z == K(h, 0) IN SumPaths(z[1], Paths(h, i, v), z[2])

----------------------------------------------------- (* affine analysis *)
(* [aff, keys, a, b]: a is 0 outside keys *)
RECURSIVE Props(_,_), PropsSum(_,_)
PNone == [aff |-> TRUE, keys |-> {}, a |-> [v \in 1..NV |-> 0], b |-> 0]
PropsSum(h, s) ==
  IF s = <<>> THEN PNone
  ELSE LET p == Props(h, Head(s)) q == PropsSum(h, Tail(s))
       IN [aff |-> p.aff /\ q.aff, keys |-> p.keys \cup q.keys,
           a |-> [v \in 1..NV |-> FAdd(p.a[v], q.a[v])], b |-> FAdd(p.b, q.b)]
Props(h, i) ==
  LET n == h[i] IN
  CASE n.o = "k" -> [PNone EXCEPT !.b = n.c]
    [] n.o = "v" -> [PNone EXCEPT !.keys = {n.c}, !.a[n.c] = 1]
    [] n.o = "add" -> PropsSum(h, n.args)
    [] n.o \in {"cos", "sin"} -> [Props(h, n.args[1]) EXCEPT !.aff = FALSE]
    [] n.o = "mul" ->
         LET p == Props(h, n.args[1]) q == Props(h, n.args[2])
         IN [aff |-> p.aff /\ q.aff /\ (p.keys = {} \/ q.keys = {}),
             keys |-> p.keys \cup q.keys,
             a |-> [v \in 1..NV |-> IF v \in q.keys THEN FMul(q.a[v], p.b) ELSE FMul(p.a[v], q.b)],
             b |-> FMul(p.b, q.b)]
    [] n.o = "div" ->
         LET p == Props(h, n.args[1]) q == Props(h, n.args[2]) r == FInv(q.b)
         IN [aff |-> p.aff /\ q.aff /\ q.keys = {}, keys |-> p.keys \cup q.keys,
             a |-> [v \in 1..NV |-> IF v \in q.keys THEN 0 ELSE FMul(p.a[v], r)], b |-> FMul(p.b, r)]

------------------------------------------------------------ (* actions *)
Init == /\ heap = [k \in 1..NV |-> [o |-> "v", args |-> <<>>, c |-> k]]
        /\ regs = [k \in 1..NV |-> k]
        /\ prog = <<>>

Do(ins) ==
  LET op == ins[1]  f == ins[2]  s == K(heap, FRat(ins[5], ins[6]))
      a == regs[IF ins[3] = 0 THEN 1 ELSE ins[3]]
      b == regs[IF ins[4] = 0 THEN 1 ELSE ins[4]]
      r == CASE op = "k" -> s
             [] op \in {"add", "sub", "mul", "div"} ->
                  IF f = "rr" THEN MkBin(op, heap, a, b)
                  ELSE IF f = "rs" THEN MkBin(op, s[1], a, s[2])
                  ELSE MkBin(op, s[1], s[2], a)
             [] op = "neg" -> MkNeg(heap, a)
             [] op = "cos" -> MkCos(heap, a)
             [] op = "sin" -> MkSin(heap, a)
             [] op = "Fadd" -> New(heap, "add", <<a, b>>, 0)
             [] op = "Fmul" -> New(heap, "mul", <<a, b>>, 0)
             [] op = "Fdiv" -> New(heap, "div", <<a, b>>, 0)
             [] op = "Fcos" -> New(heap, "cos", <<a>>, 0)
             [] op = "Fsin" -> New(heap, "sin", <<a>>, 0)
  IN /\ heap' = r[1]
     /\ regs' = Append(regs, r[2])
     /\ prog' = Append(prog, ins)

Ops == {"add", "sub", "mul", "div"}
ZeroDiv(ins) == /\ ins[1] \in {"div", "Fdiv"}
                /\ CASE ins[2] = "rs" -> ins[5] = 0
                     [] ins[2] = "sr" -> IsKV(heap, regs[ins[3]], 0)
                     [] OTHER -> IsKV(heap, regs[ins[4]], 0)
Recent == Len(regs)    \* exhaustive mode: every instruction uses the newest register
Regs == 1..Len(regs)
Instrs ==
  LET pairs == IF prog = <<>> THEN Regs \X Regs
               ELSE {p \in Regs \X Regs : p[1] = Recent \/ p[2] = Recent}
      singles == IF prog = <<>> THEN Regs ELSE {Recent}
  IN {<<op, "rr", p[1], p[2], 0, 1>> : op \in Ops \cup {"Fadd", "Fmul", "Fdiv"}, p \in pairs}
     \cup {<<op, f, a, 0, s[1], s[2]>> : op \in Ops, f \in {"rs", "sr"}, a \in singles, s \in Scalars}
     \cup {<<op, "r", a, 0, 0, 1>> : op \in {"neg", "cos", "sin"}, a \in singles}
RandomInstr ==
  LET c == RandomElement(1..20)
      a == IF RandomElement(1..2) = 1 THEN Len(regs) ELSE RandomElement(Regs)
      b == RandomElement(Regs)
      s == RandomElement(Scalars)
      op == RandomElement(Ops)
  IN CASE c <= 8 -> <<op, "rr", a, b, 0, 1>>
       [] c <= 11 -> <<op, "rs", a, 0, s[1], s[2]>>
       [] c <= 14 -> <<op, "sr", a, 0, s[1], s[2]>>
       [] c = 15 -> <<"neg", "r", a, 0, 0, 1>>
       [] c = 16 -> <<"cos", "r", a, 0, 0, 1>>
       [] c = 17 -> <<"sin", "r", a, 0, 0, 1>>
       [] c = 18 -> <<RandomElement({"Fadd", "Fmul", "Fdiv"}), "rr", a, b, 0, 1>>
       [] c = 19 -> <<RandomElement({"Fcos", "Fsin"}), "r", a, 0, 0, 1>>
       [] OTHER -> <<"k", "", 0, 0, s[1], s[2]>>
Next == /\ Len(prog) < MaxIns
        /\ Len(heap) < 400
        /\ IF Random THEN LET ins == RandomInstr IN
                            IF ZeroDiv(ins) THEN UNCHANGED vars ELSE Do(ins)
           ELSE \E ins \in Instrs : ~ ZeroDiv(ins) /\ Do(ins)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------- (* invariants *)
Env == [k \in 1..NV |-> <<17, 4099, 23456>>[k]]
Top == regs[Len(regs)]
Ref == LET R == PR!Den(prog, Env) IN R[Len(R)]
Good(j) == FOk(j.v) /\ \A i \in 1..NV : FOk(j.g[i]) /\ \A k \in 1..NV : FOk(j.h[i][k])
(* C01 *) ValuePreserved == Good(Ref) => Eval(heap, Top, Env) = Ref.v
(* C02 *) GradientRight == Good(Ref) =>
            \A v \in 1..NV : LET d == Deriv(heap, Top, v) IN Eval(d[1], d[2], Env) = Ref.g[v]
(* C03 *) HessianRight == Good(Ref) =>
            \A v \in 1..NV : LET d == Deriv(heap, Top, v) IN
              \A w \in v..NV : LET e == Deriv(d[1], d[2], w) IN Eval(e[1], e[2], Env) = Ref.h[v][w]
(* C04 *) AffineSound ==
            LET p == Props(heap, Top) IN
            /\ p.aff => /\ Good(Ref) => /\ \A v \in 1..NV : Ref.g[v] = p.a[v]
                                        /\ Ref.v = FAdd(p.b, EvalSum(heap, <<>>, Env)) \/ p.keys # {}
                        /\ Good(Ref) => \A v, w \in 1..NV : Ref.h[v][w] = 0
            /\ Good(Ref) => \A v \in 1..NV : Ref.g[v] # 0 => v \in p.keys
AffineValue == LET p == Props(heap, Top)
                   RECURSIVE Dot(_)
                   Dot(v) == IF v = 0 THEN p.b ELSE FAdd(FMul(p.a[v], Env[v]), Dot(v - 1))
               IN p.aff /\ Good(Ref) => Ref.v = Dot(NV)
AffineComplete == LET D == PR!RunDeg(prog, [k \in 1..NV |-> 1])
                  IN D[Len(D)] <= 1 /\ Good(Ref) => Props(heap, Top).aff
=============================================================================

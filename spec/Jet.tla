-------------------------------- MODULE Jet --------------------------------
(* Meaning of an expression at a point: value, gradient and Hessian, i.e.    *)
(* second-order Taylor coefficients ("jets") over an arbitrary field. This   *)
(* is the mathematical reference: it knows nothing of expression graphs,     *)
(* simplification, paths or partials.                                        *)
EXTENDS Integers, Sequences
CONSTANTS NV,                       \* number of variables
          Add(_,_), Mul(_,_), Neg(_), Inv(_), Cos(_), Sin(_), Num(_)

I == 1..NV
Zero == Num(0)
Konst(c) == [v |-> c, g |-> [i \in I |-> Zero], h |-> [i \in I |-> [j \in I |-> Zero]]]
Var(k, c) == [Konst(c) EXCEPT !.g[k] = Num(1)]
JAdd(a, b) == [v |-> Add(a.v, b.v),
               g |-> [i \in I |-> Add(a.g[i], b.g[i])],
               h |-> [i \in I |-> [j \in I |-> Add(a.h[i][j], b.h[i][j])]]]
JNeg(a) == [v |-> Neg(a.v), g |-> [i \in I |-> Neg(a.g[i])],
            h |-> [i \in I |-> [j \in I |-> Neg(a.h[i][j])]]]
JSub(a, b) == JAdd(a, JNeg(b))
JMul(a, b) == [v |-> Mul(a.v, b.v),
               g |-> [i \in I |-> Add(Mul(a.g[i], b.v), Mul(a.v, b.g[i]))],
               h |-> [i \in I |-> [j \in I |->
                        Add(Add(Mul(a.h[i][j], b.v), Mul(a.v, b.h[i][j])),
                            Add(Mul(a.g[i], b.g[j]), Mul(a.g[j], b.g[i])))]]]
(* chain rule for a function with value f0, derivative f1, second derivative f2 *)
Chain(a, f0, f1, f2) ==
    [v |-> f0, g |-> [i \in I |-> Mul(f1, a.g[i])],
     h |-> [i \in I |-> [j \in I |-> Add(Mul(f2, Mul(a.g[i], a.g[j])), Mul(f1, a.h[i][j]))]]]
JInv(a) == LET r == Inv(a.v)  r2 == Mul(r, r)
           IN Chain(a, r, Neg(r2), Mul(Num(2), Mul(r, r2)))
JDiv(a, b) == JMul(a, JInv(b))
JCos(a) == LET c == Cos(a.v) s == Sin(a.v) IN Chain(a, c, Neg(s), Neg(c))
JSin(a) == LET c == Cos(a.v) s == Sin(a.v) IN Chain(a, s, c, Neg(s))
=============================================================================

------------------------------ MODULE IpoptCb ------------------------------
(* The callbacks given to Ipopt. A problem is a polynomial objective, linear *)
(* rows and polynomial constraints; Ipopt calls back in any order, says      *)
(* whether the point (the multipliers) is the one of the call before, asks   *)
(* for structures, and passes wrong sizes or null buffers. Several problems  *)
(* are open at once. What each call must answer is computed here, exactly;   *)
(* the design (evaluate when the point is new, combine Hessians) is checked  *)
(* against it. Histories go to OUT and are played in the real callbacks.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxProbs, Mode,  \* "all": every history over the menu; "random"
          Design                   \* "always": combine at each Hessian call; "newlambda": only for new multipliers; "stale": evaluate at the first point only

(* ---- polynomials: sequences of <<coefficient, exponents>> *)
RECURSIVE Pow(_,_), Sum(_), Prod(_)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Val(p, x) == Sum([t \in DOMAIN p |-> p[t][1] * Prod([i \in DOMAIN x |-> Pow(x[i], p[t][2][i])])])
D(p, i) == [t \in DOMAIN p |-> IF p[t][2][i] = 0 THEN <<0, p[t][2]>> ELSE <<p[t][1] * p[t][2][i], [p[t][2] EXCEPT ![i] = @ - 1]>>]
Grad(p, x) == [i \in DOMAIN x |-> Val(D(p, i), x)]
Hess(p, x) == [i \in DOMAIN x |-> [j \in 1..i |-> Val(D(D(p, i), j), x)]]   \* lower triangle
(* ---- a problem: [nx, phi, a (entries <<row, column, value>>), b, fs] *)
NA(q) == Len(q.b)
NF(q) == Len(q.fs)
LinAt(q, i, j) == Sum([k \in DOMAIN q.a |-> IF q.a[k][1] = i /\ q.a[k][2] = j THEN q.a[k][3] ELSE 0])
Resid(q, x) == [i \in 1..NA(q) |-> Sum([j \in DOMAIN x |-> LinAt(q, i, j) * x[j]]) - q.b[i]] \o [i \in 1..NF(q) |-> Val(q.fs[i], x)]
Jac(q, x) == [i \in 1..NA(q) |-> [j \in DOMAIN x |-> LinAt(q, i, j)]] \o [i \in 1..NF(q) |-> Grad(q.fs[i], x)]
LagHess(q, x, of, lam) ==
  LET hp == Hess(q.phi, x)  hs == [k \in 1..NF(q) |-> Hess(q.fs[k], x)]
  IN [i \in DOMAIN x |-> [j \in 1..i |-> of * hp[i][j] + Sum([k \in 1..NF(q) |-> lam[NA(q) + k] * hs[k][i][j]])]]

MenuOf(z) == <<
  [nx |-> 2, phi |-> <<<<1, <<2, 1>>>>, <<3, <<0, 1>>>>>>, a |-> <<<<1, 1, 2>>, <<1, 2, -1>>, <<1, 1, 1>>>>, b |-> <<4>>, fs |-> <<<<<<1, <<1, 1>>>>, <<-1, <<0, 3>>>>>>>>],
  [nx |-> 1, phi |-> <<<<1, <<3>>>>>>, a |-> <<>>, b |-> <<>>, fs |-> <<<<<<1, <<2>>>>, <<-2, <<0>>>>>>, <<<<5, <<1>>>>>>>>],
  [nx |-> 2, phi |-> <<<<2, <<1, 0>>>>, <<-1, <<0, 1>>>>>>, a |-> <<<<1, 1, 2>>, <<2, 2, -3>>, <<1, 2, 1>>>>, b |-> <<4, -1>>, fs |-> <<>>],
  [nx |-> 3, phi |-> <<<<1, <<1, 1, 1>>>>>>, a |-> <<>>, b |-> <<>>, fs |-> <<<<<<1, <<2, 0, 0>>>>, <<1, <<0, 2, 0>>>>, <<-1, <<0, 0, 1>>>>>>>>],
  [nx |-> 2, phi |-> <<<<1, <<4, 0>>>>>>, a |-> <<>>, b |-> <<>>, fs |-> <<>>],
  [nx |-> 2, phi |-> <<>>, a |-> <<<<2, 1, 7>>>>, b |-> <<1, 2>>, fs |-> <<<<<<1, <<1, 0>>>>>>, <<<<2, <<0, 2>>>>>>>>] >>

VARIABLES probs, pt, fresh, lam0, cache, comb, ops, last, done
vars == <<probs, pt, fresh, lam0, cache, comb, ops, last, done>>
Pick(S) == RandomElement(S)

Exps(nx) == IF nx <= 3 THEN [i \in 1..nx |-> IF Pick(1..2) = 1 THEN 0 ELSE Pick(0..3)]
            ELSE LET a == Pick(1..nx)  b == Pick(1..nx) IN [i \in 1..nx |-> IF i = a THEN Pick(1..3) ELSE IF i = b THEN Pick(0..2) ELSE 0]
RandPoly(nx) == [t \in 1..Pick(0..(IF nx > 3 THEN 7 ELSE 3)) |-> <<Pick(-3..3), Exps(nx)>>]
(* the problem may stand inside a wider one: more variables, linear rows and nonlinear rows before its own *)
Pad(z) == IF Pick(1..10) > 1 THEN [cols |-> 0, lin |-> 0, non |-> 0]
          ELSE [cols |-> Pick({0, 3, 300, 70000}), lin |-> Pick({0, 5, 260, 40000, 70000}), non |-> Pick({0, 2, 40, 300})]
RandProb(nx) == LET na == Pick(0..(IF nx > 3 THEN 6 ELSE 2)) IN
  [pad |-> Pad(nx), nx |-> nx, phi |-> RandPoly(nx), a |-> IF na = 0 THEN <<>> ELSE [k \in 1..Pick(0..(IF nx > 3 THEN 20 ELSE 4)) |-> <<Pick(1..na), Pick(1..nx), Pick(-3..3)>>],
   b |-> [i \in 1..na |-> Pick(-4..4)], fs |-> [i \in 1..Pick(0..(IF nx > 3 THEN 5 ELSE 2)) |-> RandPoly(nx)]]

Start(ps) == /\ probs = <<>> /\ probs' = ps
             /\ pt' = [p \in DOMAIN ps |-> <<>>] /\ fresh' = [p \in DOMAIN ps |-> TRUE] /\ lam0' = [p \in DOMAIN ps |-> <<>>]
             /\ cache' = [p \in DOMAIN ps |-> <<>>] /\ comb' = [p \in DOMAIN ps |-> <<>>]
             /\ UNCHANGED <<ops, last, done>>

Init == /\ probs = <<>> /\ pt = <<>> /\ fresh = <<>> /\ lam0 = <<>> /\ cache = <<>> /\ comb = <<>> /\ ops = <<>> /\ done = FALSE
        /\ last = [k |-> "", x |-> <<>>, ex |-> <<>>, lam |-> <<>>, comb |-> <<>>]

Kinds == {"f", "grad", "g", "jac", "h"}
BadOf(k) == {"n+", "n-", "n0", "user"} \cup
            (CASE k = "f" -> {"x", "out"} [] k = "grad" -> {"x", "out"} [] k = "g" -> {"x", "out", "m+", "m-"}
               [] k = "jac" -> {"m+", "m-", "k+", "k-", "x"} [] k = "h" -> {"m+", "m-", "k+", "k-", "x", "lam"}
               [] k \in {"jacS", "hS"} -> {"m+", "m-", "k+", "k-", "irow", "jcol"})

(* a call that Ipopt may make: the point is said to be new unless it is that of the call before *)
Call(p, k, x, new, of, lam, nl) ==
  LET q == probs[p]
      ex == IF new /\ (Design # "stale" \/ cache[p] = <<>>) THEN x ELSE cache[p]
      cb == IF k # "h" THEN comb[p] ELSE IF Design # "newlambda" \/ nl THEN <<ex, lam>> ELSE comb[p]
      e == CASE k = "f" -> Val(q.phi, x) [] k = "grad" -> Grad(q.phi, x) [] k = "g" -> Resid(q, x)
             [] k = "jac" -> Jac(q, x) [] k = "h" -> LagHess(q, x, of, lam)
  IN /\ new \/ (~fresh[p] /\ pt[p] = x)
     /\ (k = "h" /\ ~nl) => lam0[p] = lam
     /\ pt' = [pt EXCEPT ![p] = x] /\ fresh' = [fresh EXCEPT ![p] = FALSE]
     /\ lam0' = IF k = "h" THEN [lam0 EXCEPT ![p] = lam] ELSE lam0
     /\ cache' = [cache EXCEPT ![p] = ex] /\ comb' = [comb EXCEPT ![p] = cb]
     /\ last' = [k |-> k, x |-> x, ex |-> ex, lam |-> lam, comb |-> cb]
     /\ ops' = Append(ops, [p |-> p, k |-> k, x |-> x, new |-> new, of |-> of, lam |-> lam, nl |-> nl, bad |-> "", e |-> e])
     /\ UNCHANGED <<probs, done>>
Structure(p, k) == /\ ops' = Append(ops, [p |-> p, k |-> k, x |-> <<>>, new |-> FALSE, of |-> 0, lam |-> <<>>, nl |-> FALSE, bad |-> "", e |-> 0])
                   /\ UNCHANGED <<probs, pt, fresh, lam0, cache, comb, last, done>>
(* a call that is refused; whether it evaluated the point is not said, so the next point is new *)
Refused(p, k, x, of, lam, b) ==
  /\ b \in BadOf(k) /\ (b = "lam" => NF(probs[p]) > 0)
  /\ ops' = Append(ops, [p |-> p, k |-> k, x |-> x, new |-> TRUE, of |-> of, lam |-> lam, nl |-> TRUE, bad |-> b, e |-> 0])
  /\ fresh' = [fresh EXCEPT ![p] = TRUE] /\ UNCHANGED <<probs, pt, lam0, cache, comb, last, done>>

Point(p, s) == [i \in 1..probs[p].nx |-> IF s = 1 THEN i ELSE 2 - 3 * i]
Mults(p, s) == [i \in 1..(NA(probs[p]) + NF(probs[p])) |-> IF s = 1 THEN i ELSE 5 - 2 * i]
RandPoint(p) == [i \in 1..probs[p].nx |-> Pick(-4..4)]
RandMults(p) == [i \in 1..(NA(probs[p]) + NF(probs[p])) |-> Pick(-3..3)]

All ==
  \/ \E i \in DOMAIN MenuOf(0) : Start(<<MenuOf(0)[i]>>)
  \/ \E i, j \in DOMAIN MenuOf(0) : MaxProbs > 1 /\ i # j /\ Start(<<MenuOf(0)[i], MenuOf(0)[j]>>)
  \/ /\ probs # <<>> /\ Len(ops) < MaxOps
     /\ \E p \in DOMAIN probs :
          \/ \E k \in Kinds \ {"h"}, s \in 1..2, new \in BOOLEAN : Call(p, k, Point(p, s), new, 1, <<>>, FALSE)
          \/ \E s, t \in 1..2, new, nl \in BOOLEAN : Call(p, "h", Point(p, s), new, 3 - t, Mults(p, t), nl)
          \/ MaxProbs = 1 /\ \E k \in {"jacS", "hS"} : Structure(p, k)
          \/ MaxProbs = 1 /\ (IF Len(ops) = 0 THEN TRUE ELSE ops[Len(ops)].bad = "") /\ \E k \in Kinds \cup {"jacS", "hS"} : \E b \in BadOf(k) : Refused(p, k, Point(p, 2), 1, Mults(p, 1), b)
Random ==
  IF probs = <<>> THEN \E n \in {Pick(1..MaxProbs)} : Start([i \in 1..n |-> IF Pick(1..4) = 1 THEN MenuOf(0)[Pick(DOMAIN MenuOf(0))] ELSE RandProb(IF Pick(1..5) = 1 THEN Pick(4..11) ELSE Pick(1..3))])
  ELSE \E p \in {Pick(DOMAIN probs)}, w \in {Pick(1..12)} :
         CASE w = 1 -> \E k \in {Pick({"jacS", "hS"})} : Structure(p, k)
           [] w = 2 -> \E k \in {Pick(Kinds \cup {"jacS", "hS"})} : \E b \in {Pick(BadOf(k) \ (IF NF(probs[p]) = 0 THEN {"lam"} ELSE {}))} :
                         Refused(p, k, RandPoint(p), Pick(-2..2), RandMults(p), b)
           [] OTHER -> \E k \in {IF w < 6 THEN "h" ELSE Pick(Kinds)}, x \in {IF fresh[p] \/ Pick(1..3) = 1 THEN RandPoint(p) ELSE pt[p]},
                          lam \in {IF lam0[p] # <<>> /\ Pick(1..2) = 1 THEN lam0[p] ELSE RandMults(p)} :
                        \E new \in {IF ~fresh[p] /\ x = pt[p] THEN Pick(1..4) = 1 ELSE TRUE}, nl \in {IF lam = lam0[p] THEN Pick(1..4) = 1 ELSE TRUE} :
                          Call(p, k, x, new, IF k = "h" THEN Pick(-2..3) ELSE 1, IF k = "h" THEN lam ELSE <<>>, nl)
Next == IF Mode = "all" THEN All ELSE Len(ops) < MaxOps /\ Random
Spec == Init /\ [][Next]_vars

(* the design's answers are computed at the point of the call, with its multipliers *)
AnswersRight == /\ last.ex = last.x
                /\ last.k = "h" => last.comb = <<last.x, last.lam>>
Emit == ("OUT" \in DOMAIN IOEnv /\ Len(ops) = MaxOps) =>
          Serialize(ToJson([q |-> probs, ops |-> ops]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

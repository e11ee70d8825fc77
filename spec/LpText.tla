------------------------------- MODULE LpText -------------------------------
(* The LP file format: a reader over tokens. A token is [k, s, v]: kind k is *)
(* "kw" (section keyword s), "name" s, "num" v, "op" s (one of = <= >=),     *)
(* "+", "-", ":" or "nl" (end of line). A number is <<sign, hi, lo, exp>>:   *)
(* 0.hihihi lololo * 10^exp with six digits each, or infinite.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == <<0, 0, 0, 0>>
One == <<1, 100000, 0, 1>>
Inf == <<1, 0, 0, 99999>>
NegNum(v) == <<0 - v[1], v[2], v[3], v[4]>>
(* equal to ten significant digits *)
Close(a, b) == \/ a = b
               \/ /\ a[1] = b[1] /\ a[4] = b[4] /\ a[4] # 99999 /\ a[1] # 0
                  /\ LET d == (a[2] - b[2])
                     IN /\ d \in {-1, 0, 1}
                        /\ LET x == d * 1000000 + a[3] - b[3] IN x <= 50 /\ x >= -50

NoName == ""
Start == [sec |-> "none", dir |-> "none", ok |-> TRUE, why |-> "",
          sg |-> 1, co |-> <<>>, pend |-> NoName, rel |-> "", label |-> NoName,
          terms |-> <<>>, obj |-> <<>>, rows |-> <<>>, line |-> <<>>, bnds |-> <<>>, ints |-> {}]
Bad(st, why) == IF st.ok THEN [st EXCEPT !.ok = FALSE, !.why = why] ELSE st

Signed(st) == LET v == IF st.co = <<>> THEN One ELSE st.co IN IF st.sg = 1 THEN v ELSE NegNum(v)
Fresh(st) == [st EXCEPT !.sg = 1, !.co = <<>>, !.pend = NoName]
(* a name not followed by a colon is a term *)
Commit(st) == IF st.pend = NoName THEN st
              ELSE IF \E i \in DOMAIN st.terms : st.terms[i][1] = st.pend THEN Bad(Fresh(st), "a variable twice in one expression")
              ELSE Fresh([st EXCEPT !.terms = Append(@, <<st.pend, Signed(st)>>)])
Dangling(st) == st.co # <<>> \/ st.sg # 1
(* one token of an expression *)
Term(st, t) ==
  CASE t.k = "+" -> LET s == Commit(st) IN IF s.co # <<>> THEN Bad(s, "a constant in an expression") ELSE s
    [] t.k = "-" -> LET s == Commit(st) IN IF s.co # <<>> THEN Bad(s, "a constant in an expression") ELSE [s EXCEPT !.sg = 0 - @]
    [] t.k = "num" -> LET s == Commit(st) IN IF s.co # <<>> THEN Bad(s, "two numbers in a row") ELSE [s EXCEPT !.co = t.v]
    [] t.k = "name" -> LET s == Commit(st) IN [s EXCEPT !.pend = t.s]
    [] t.k = ":" -> IF st.pend = NoName \/ Dangling(st) \/ st.terms # <<>> THEN Bad(st, "misplaced colon")
                    ELSE Fresh([st EXCEPT !.label = st.pend])
    [] OTHER -> Bad(st, "unexpected token in an expression")
(* one line of the bounds section *)
IsNum(x) == x.k = "num"
Bound(st, name, rel, v) == [st EXCEPT !.bnds = Append(@, <<name, rel, v>>)]
Flip(rel) == IF rel = "<=" THEN ">=" ELSE IF rel = ">=" THEN "<=" ELSE "="
Line(st) == LET w == st.line IN
  CASE Len(w) = 0 -> st
    [] Len(w) = 2 /\ w[1].k = "name" /\ w[2].k = "name" /\ w[2].s = "free" -> Bound(Bound(st, w[1].s, "<=", Inf), w[1].s, ">=", NegNum(Inf))
    [] Len(w) = 3 /\ w[1].k = "name" /\ w[2].k = "op" /\ IsNum(w[3]) -> Bound(st, w[1].s, w[2].s, w[3].v)
    [] Len(w) = 3 /\ w[3].k = "name" /\ w[2].k = "op" /\ IsNum(w[1]) -> Bound(st, w[3].s, Flip(w[2].s), w[1].v)
    [] Len(w) = 5 /\ IsNum(w[1]) /\ w[2].k = "op" /\ w[3].k = "name" /\ w[4].k = "op" /\ IsNum(w[5]) /\ w[2].s = w[4].s
         -> Bound(Bound(st, w[3].s, Flip(w[2].s), w[1].v), w[3].s, w[4].s, w[5].v)
    [] OTHER -> Bad(st, "malformed bound")
EndLine(st) == LET s == IF st.sg = 1 THEN st ELSE Bad(st, "dangling sign in a bound")
               IN [Line(s) EXCEPT !.line = <<>>, !.sg = 1]
Close1(st) == \* leaves a section
  CASE st.sec = "obj" -> LET s == Commit(st) IN
         IF Dangling(s) THEN Bad(s, "the objective ends in a number or sign") ELSE [s EXCEPT !.obj = s.terms, !.terms = <<>>, !.label = NoName]
    [] st.sec = "rows" -> IF st.pend # NoName \/ st.terms # <<>> \/ Dangling(st) \/ st.rel # "" \/ st.label # NoName THEN Bad(st, "unfinished row") ELSE st
    [] st.sec = "bounds" -> EndLine(st)
    [] OTHER -> st
Order == [none |-> 0, obj |-> 1, rows |-> 2, bounds |-> 3, ints |-> 3, end |-> 9]
Step(st, t) ==
  IF ~st.ok THEN st
  ELSE IF t.k = "kw" THEN
    LET s == Close1(st)
        n == CASE t.s \in {"min", "max"} -> "obj" [] OTHER -> t.s
    IN IF Order[n] < Order[s.sec] \/ Order[s.sec] = 9 \/ (n = "rows" /\ s.sec # "obj") \/ (Order[n] >= 3 /\ s.sec = "none") THEN Bad(s, "section out of place")
       ELSE [s EXCEPT !.sec = n, !.dir = IF n = "obj" THEN t.s ELSE @]
  ELSE IF t.k = "nl" THEN IF st.sec = "bounds" THEN EndLine(st) ELSE st
  ELSE CASE st.sec = "obj" -> Term(st, t)
         [] st.sec = "rows" ->
              IF st.rel = "" THEN
                IF t.k = "op" THEN LET s == Commit(st) IN IF Dangling(s) THEN Bad(s, "a constant on the left") ELSE [s EXCEPT !.rel = t.s]
                ELSE Term(st, t)
              ELSE CASE t.k = "+" -> st
                     [] t.k = "-" -> [st EXCEPT !.sg = 0 - @]
                     [] t.k = "num" -> Fresh([st EXCEPT !.rows = Append(@, [name |-> st.label, terms |-> st.terms, rel |-> st.rel,
                                                         rhs |-> IF st.sg = 1 THEN t.v ELSE NegNum(t.v)]),
                                                        !.terms = <<>>, !.rel = "", !.label = NoName])
                     [] OTHER -> Bad(st, "no number after a relation")
         [] st.sec = "bounds" ->
              CASE t.k = "+" -> st
                [] t.k = "-" -> [st EXCEPT !.sg = 0 - @]
                [] t.k = "num" -> [st EXCEPT !.line = Append(@, [t EXCEPT !.v = IF st.sg = 1 THEN @ ELSE NegNum(@)]), !.sg = 1]
                [] t.k \in {"name", "op"} -> [st EXCEPT !.line = Append(@, t)]
                [] OTHER -> Bad(st, "unexpected token in a bound")
         [] st.sec = "ints" -> IF t.k = "name" THEN [st EXCEPT !.ints = @ \cup {t.s}] ELSE Bad(st, "not a name among the integer variables")
         [] OTHER -> Bad(st, "text outside any section")
RECURSIVE Fold(_,_,_)
Fold(st, toks, i) == IF i > Len(toks) THEN st ELSE Fold(Step(st, toks[i]), toks, i + 1)
Read(toks) == Fold(Start, toks, 1)

(* what a read file says *)
Says(terms, name) == IF \E i \in DOMAIN terms : terms[i][1] = name
                     THEN terms[CHOOSE i \in DOMAIN terms : terms[i][1] = name][2] ELSE Zero
Last(st, name, rels, default) ==
  LET S == {i \in DOMAIN st.bnds : st.bnds[i][1] = name /\ st.bnds[i][2] \in rels}
  IN IF S = {} THEN default ELSE st.bnds[CHOOSE i \in S : \A j \in S : j <= i][3]
Lower(st, name) == Last(st, name, {">=", "="}, Zero)
Upper(st, name) == Last(st, name, {"<=", "="}, Inf)

(* a problem p: nx, na, c, rows (sequences of coefficients), b, l, u, p *)
X(i) == "x_" \o ToString(i - 1)
C(i) == "c_" \o ToString(i - 1)
Known(st, p) == /\ \A i \in DOMAIN st.obj : \E j \in 1..p.nx : X(j) = st.obj[i][1]
                /\ \A r \in DOMAIN st.rows : \A i \in DOMAIN st.rows[r].terms : \E j \in 1..p.nx : X(j) = st.rows[r].terms[i][1]
                /\ \A i \in DOMAIN st.bnds : \E j \in 1..p.nx : X(j) = st.bnds[i][1]
SameObjective(st, p) == \A j \in 1..p.nx :
  Close(Says(st.obj, X(j)), IF st.dir = "min" THEN p.c[j] ELSE NegNum(p.c[j]))
SameRows(st, p) == /\ Len(st.rows) = p.na
                   /\ \A i \in 1..p.na : \E r \in DOMAIN st.rows :
                        /\ st.rows[r].name = C(i) /\ st.rows[r].rel = "=" /\ Close(st.rows[r].rhs, p.b[i])
                        /\ \A j \in 1..p.nx : Close(Says(st.rows[r].terms, X(j)), p.rows[i][j])
SameLimits(st, p) == \A j \in 1..p.nx : Close(Lower(st, X(j)), p.l[j]) /\ Close(Upper(st, X(j)), p.u[j])
SameIntegers(st, p) == st.ints = {X(j) : j \in {j \in 1..p.nx : p.p[j] = 1}}
States(st, p) == /\ st.ok /\ st.sec = "end" /\ st.dir \in {"min", "max"}
                 /\ Known(st, p) /\ SameObjective(st, p) /\ SameRows(st, p) /\ SameLimits(st, p) /\ SameIntegers(st, p)
=============================================================================

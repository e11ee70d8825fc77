-------------------------------- MODULE Viol --------------------------------
(* The violation of a constraint, for every relation, every form in which    *)
(* its sides are written and every pair of values of the sides. A value is   *)
(* missing, NaN, infinite, or <<0, n, e>> for n + e * 2^-50: neighbouring       *)
(* floating-point numbers are told apart, and all differences are exact in   *)
(* double precision. A constraint is built once and judged at a sequence of  *)
(* values; the expected violations are written to OUT and compared with the  *)
(* real code.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Big, Steps

VARIABLES op, form, tag, scal, hist, phase
vars == <<op, form, tag, scal, hist, phase>>

(* <<class, n, e>>; class 0 is finite *)
Finite == {<<0, n, e>> : n \in -Big..Big, e \in {-1, 0, 1}}
Inf == <<1, 0, 0>>
MInf == <<2, 0, 0>>
NaN == <<3, 0, 0>>
Missing == <<4, 0, 0>>
Zero == <<0, 0, 0>>
Scalars == Finite \cup {NaN, Inf, MInf}
Values == Scalars \cup {Missing}
Ops == {"eq", "le", "ge"}
(* left and right side: r, o borrowed or owned variable, f expression, s scalar *)
Forms == {"rr", "ro", "fr", "ff", "rs", "fs", "sr", "so", "sf"}
ScalarLeft == form \in {"sr", "so", "sf"}
ScalarRight == form \in {"rs", "fs"}

IsNan(v) == v \in {NaN, Missing}
IsInf(v) == v \in {Inf, MInf}
Undetermined(l, r) == IsInf(l) /\ l = r
Lt(a, b) == IF a = MInf THEN b # MInf ELSE IF b = MInf THEN FALSE
            ELSE IF b = Inf THEN a # Inf ELSE IF a = Inf THEN FALSE
            ELSE a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])
Rel(o, l, r) == CASE o = "eq" -> l = r [] o = "le" -> ~Lt(r, l) [] o = "ge" -> ~Lt(l, r)
Minus(l, r) == <<0, l[2] - r[2], l[3] - r[3]>>
Dist(l, r) == IF IsInf(l) \/ IsInf(r) THEN Inf ELSE IF Lt(l, r) THEN Minus(r, l) ELSE Minus(l, r)
(* the specification *)
Violation(o, l, r) == IF IsNan(l) \/ IsNan(r) THEN NaN ELSE IF Rel(o, l, r) THEN Zero ELSE Dist(l, r)
(* what the implementation computes, as a design *)
Sub(l, r) == IF IsInf(l) THEN l ELSE IF r = Inf THEN MInf ELSE IF r = MInf THEN Inf ELSE Minus(l, r)
Pos(v) == IF Lt(v, Zero) THEN Zero ELSE v
Negate(v) == IF v = Inf THEN MInf ELSE IF v = MInf THEN Inf ELSE Minus(Zero, v)
Computed(o, l, r) ==
  IF IsNan(l) \/ IsNan(r) THEN NaN
  ELSE CASE o = "eq" -> (IF Lt(Sub(l, r), Zero) THEN Negate(Sub(l, r)) ELSE Sub(l, r))
         [] o = "le" -> Pos(Sub(l, r))
         [] o = "ge" -> Pos(Negate(Sub(l, r)))

Init == /\ op \in Ops /\ form \in Forms /\ tag \in {"", "t"}
        /\ scal \in (IF form \in {"rs", "fs", "sr", "so", "sf"} THEN Scalars ELSE {Zero})
        /\ hist = <<>> /\ phase = "values"
L(v) == IF ScalarLeft THEN scal ELSE v[1]
R(v) == IF ScalarRight THEN scal ELSE IF ScalarLeft THEN v[1] ELSE v[2]
Evaluate == /\ phase = "values" /\ Len(hist) < Steps
            /\ \E v \in (IF ScalarLeft \/ ScalarRight THEN Values \X {Zero} ELSE Values \X Values) :
                 /\ ~Undetermined(L(v), R(v))
                 /\ hist' = Append(hist, <<v, Violation(op, L(v), R(v))>>)
            /\ UNCHANGED <<op, form, tag, scal, phase>>
Next == Evaluate
Spec == Init /\ [][Next]_vars

DesignIsRight == \A k \in DOMAIN hist : LET v == hist[k][1] IN Computed(op, L(v), R(v)) = Violation(op, L(v), R(v))
NeverNegative == \A k \in DOMAIN hist : hist[k][2] = NaN \/ ~Lt(hist[k][2], Zero)
ZeroIffHolds == \A k \in DOMAIN hist : LET v == hist[k][1] IN
  hist[k][2] = Zero <=> (~IsNan(L(v)) /\ ~IsNan(R(v)) /\ Rel(op, L(v), R(v)))
Flip == \A k \in DOMAIN hist : LET v == hist[k][1] IN
  Violation("le", L(v), R(v)) = Violation("ge", R(v), L(v))
Emit == Len(hist) = Steps =>
          Serialize(ToJson([op |-> op, form |-> form, tag |-> tag, s |-> scal, h |-> hist]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

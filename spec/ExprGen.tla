------------------------------ MODULE ExprGen ------------------------------
(* Generates programs for conformance checking of the real code. Unlike      *)
(* ExprDesign it distinguishes the operand forms (borrowed, owned, scalar),  *)
(* which are separate code in numopt. Every generated program is written to  *)
(* the file OUT as one JSON line, with the exact value, gradient and Hessian *)
(* of its last register wherever they are rational (computed here by Prog),  *)
(* and the degree class of every register.                                   *)
EXTENDS Integers, Sequences, FiniteSets, Field, TLC, Json, IOUtils

CONSTANTS NV, Depth, Mode   \* Mode: "all" (every program), "thin" (fewer forms),
                            \* "deep" (fewest forms, for longer programs), "random",
                            \* "twin" (random, and the same again on other variables, combined),
                            \* "wide" (random, many variables, values left to the driver),
                            \* "sums" (random, a sum of many terms), "span" (the same, very many, of very many variables),
                            \* "bushy" (random, the same subexpression again and again: many routes),
                            \* "tower" (random, every instruction works on the result of the one before)

PR == INSTANCE Prog WITH Add <- QAdd, Mul <- QMul, Neg <- QNeg, Inv <- QInv,
                         Cos <- QCos, Sin <- QSin, Num <- QInt, Rat <- QRat

VARIABLES prog, names, meaning, other   \* other: the variables a twin is made of
vars == <<prog, names, meaning, other>>

Out == IOEnv.OUT
Drawn == {"random", "tower", "twin", "wide", "sums", "span", "bushy"}
Env == <<<<2, 1>>, <<-3, 1>>, <<5, 2>>, <<1, 2>>, <<-1, 2>>, <<3, 2>>, <<1, 1>>, <<-2, 1>>, <<7, 4>>, <<-5, 4>>, <<3, 1>>, <<3, 4>>,
         <<-3, 4>>, <<5, 4>>, <<-7, 4>>, <<9, 4>>, <<-3, 2>>, <<1, 4>>, <<-1, 4>>, <<11, 4>>>>
NameSets == << <<"x", "y", "z", "w", "u", "v", "p", "q", "r", "s", "t", "xx", "yy", "zz", "ww", "uu", "vv", "pp", "qq", "rr">>, [k \in 1..20 |-> "x"],
               <<"x10", "x9", "x1", "_s_a0_", "x2", "x11", "x3", "x0", "x8", "x12", "x7", "_s_j0_", "x21", "x20", "x19", "_s_a1_", "x4", "x14", "x5", "x13">>,
               <<"b", "a", "B", "A", "c", "C", "ab", "aB", "Ab", "AB", "d", "D", "e", "E", "cd", "cD", "Cd", "CD", "f", "F">> >>

(* constants given as registers in enumerated programs *)
BaseConsts == IF Mode = "deep" THEN << <<5, 2>> >> ELSE << <<0, 1>>, <<1, 1>>, <<-1, 1>>, <<5, 2>> >>
Prefix == [i \in 1..Len(BaseConsts) |-> <<"k", "", 0, 0, BaseConsts[i][1], BaseConsts[i][2]>>]
Scalars == IF Mode = "deep" THEN { <<0, 1>>, <<1, 1>>, <<-5, 2>> } ELSE { <<0, 1>>, <<1, 1>>, <<-1, 1>>, <<5, 2>>, <<-5, 2>> }
RScalars == << <<0,1>>, <<1,1>>, <<-1,1>>, <<5,2>>, <<-5,2>>, <<2,1>>, <<-2,1>>, <<3,1>>, <<1,2>>, <<7,1>>,
               <<1,3>>, <<10,1>>, <<1,100000000>>, <<1000000000,1>>, <<100000001,100000000>>, <<3,2>> >>

Init == /\ prog = IF Mode \in Drawn THEN <<>> ELSE Prefix
        /\ names = IF Mode \in Drawn THEN 1 ELSE 1
        /\ other = [k \in 1..NV |-> k]
        /\ meaning = IF Mode = "span" THEN <<>> ELSE PR!Den(IF Mode \in Drawn THEN <<>> ELSE Prefix, Env)

Ops == {"add", "sub", "mul", "div"}
N == NV + Len(prog)
First == Len(prog) = Len(Prefix)
Regs == 1..N
Forms2 == IF Mode = "all" THEN PR!NodeForms ELSE {"rr"}
FormsS == IF Mode = "all" THEN PR!LeftForms \cup PR!RightForms ELSE {"rs", "sr"}
Forms1 == IF Mode = "all" THEN {"r", "o"} ELSE {"r"}
(* the literal constant zero as divisor: numopt panics, and the driver expects that *)
Instrs ==
  LET pairs == IF First THEN Regs \X Regs ELSE {p \in Regs \X Regs : p[1] = N \/ p[2] = N}
      singles == IF First THEN Regs ELSE {N}
  IN {<<op, f, p[1], p[2], 0, 1>> : op \in Ops, f \in Forms2, p \in pairs}
     \cup {<<op, f, a, 0, s[1], s[2]>> : op \in Ops, f \in FormsS, a \in singles, s \in Scalars}
     \cup {<<op, f, a, 0, 0, 1>> : op \in {"neg"}, f \in Forms1, a \in singles}
     \cup {<<op, "r", a, 0, 0, 1>> : op \in {"cos", "sin"}, a \in singles}
     \cup {<<op, "rr", p[1], p[2], 0, 1>> : op \in {"Fadd", "Fmul", "Fdiv"},
             p \in IF Mode = "deep" \/ (Mode = "all" /\ First) THEN {} ELSE pairs}
     \cup {<<op, "r", a, 0, 0, 1>> : op \in {"Fcos", "Fsin"}, a \in IF Mode = "deep" \/ (Mode = "all" /\ First) THEN {} ELSE singles}

Pick(S) == RandomElement(S)
(* an instruction like an earlier one, on other operands: expressions of the same shape *)
Other(r) == IF r = 0 THEN 0 ELSE IF r <= NV THEN Pick(1..NV) ELSE IF Pick(1..2) = 1 THEN r ELSE Pick(Regs)
Mirror(e) == <<e[1], e[2], Other(e[3]), IF e[1] = "der" THEN Pick(1..NV) ELSE Other(e[4]), e[5], e[6]>>
RandomInstr ==
  LET c == Pick(1..40)
      a == IF Pick(1..3) <= 2 /\ Len(prog) > 0 THEN Pick((N - (IF Len(prog) > 3 THEN 3 ELSE Len(prog)) + 1)..N) ELSE Pick(Regs)
      b == IF Pick(1..3) = 1 THEN a ELSE Pick(Regs)
      bb == IF Pick(1..4) = 1 THEN b ELSE Pick(Regs)
      s == RScalars[Pick(1..Len(RScalars))]
      op == Pick(Ops)
  IN CASE c <= 11 -> <<op, Pick(PR!NodeForms), a, bb, 0, 1>>
       [] c <= 13 -> <<Pick({"add", "sub"}), Pick(PR!NodeForms), a, bb, 0, 1>>
       [] c <= 17 -> <<op, Pick(PR!LeftForms), a, 0, s[1], s[2]>>
       [] c <= 21 -> <<op, Pick(PR!RightForms), a, 0, s[1], s[2]>>
       [] c = 22 -> <<"neg", Pick({"r", "o"}), a, 0, 0, 1>>
       [] c = 23 -> <<"cos", "r", a, 0, 0, 1>>
       [] c = 24 -> <<"sin", "r", a, 0, 0, 1>>
       [] c = 25 -> <<Pick({"Fmul", "Fdiv"}), "rr", a, bb, 0, 1>>
       [] c = 26 -> <<Pick({"Fcos", "Fsin"}), "r", a, 0, 0, 1>>
       [] c = 27 -> <<"Fadd", "rr", a, bb, IF Pick(1..2) = 1 THEN 0 ELSE Pick(Regs), 1>>
       [] c = 28 -> <<"der", "", a, Pick(1..NV), 0, 1>>
       [] c = 29 -> <<"cl", "", a, 0, 0, 1>>
       [] c \in 31..37 /\ Len(prog) > 0 -> Mirror(prog[Pick(1..Len(prog))])
       [] c \in 38..40 /\ Len(prog) > 1 -> <<Pick({"add", "sub", "mul"}), Pick(PR!NodeForms), N, N - Pick({1, 1, 2}), 0, 1>>
       [] OTHER -> <<"k", "", 0, 0, s[1], s[2]>>

TowerInstr ==
  LET c == Pick(1..20)
      b == Pick(1..NV)
      s == <<Pick({<<1, 2>>, <<3, 2>>, <<-5, 4>>, <<2, 1>>, <<-1, 1>>, <<7, 8>>})>>[1]
      small == <<Pick({<<1, 2>>, <<3, 2>>, <<-1, 2>>, <<-1, 1>>, <<7, 8>>})>>[1]
  IN CASE c <= 6 -> <<Pick({"add", "sub"}), Pick(PR!NodeForms), N, b, 0, 1>>
       [] c = 7 -> <<Pick({"add", "sub"}), Pick(PR!NodeForms), b, N, 0, 1>>
       [] c \in 8..9 -> <<Pick({"add", "sub"}), Pick(PR!LeftForms \cup PR!RightForms), N, 0, s[1], s[2]>>
       [] c \in 10..12 -> <<Pick({"mul", "div"}), Pick(PR!LeftForms), N, 0, small[1], small[2]>>
       [] c = 13 -> <<"mul", Pick(PR!RightForms), N, 0, small[1], small[2]>>
       [] c = 14 -> <<"mul", Pick(PR!NodeForms), N, b, 0, 1>>
       [] c = 15 -> <<"neg", Pick({"r", "o"}), N, 0, 0, 1>>
       [] c \in 16..18 -> <<Pick({"sin", "cos"}), "r", N, 0, 0, 1>>
       [] c = 19 -> <<"div", Pick(PR!NodeForms), N, b, 0, 1>>
       [] OTHER -> <<Pick({"Fadd", "Fmul"}), "rr", N, b, 0, 1>>
(* half of the program, the same on the other variables, and their sum or difference *)
Half == (Depth - 1) \div 2
TwinInstr ==
  LET n == Len(prog)
      c == Pick(1..10)
      op == IF Pick(1..3) > 1 THEN "mul" ELSE Pick(Ops)
      s == RScalars[Pick(1..Len(RScalars))]
      a == IF n = 0 \/ Pick(1..4) = 1 THEN Pick(1..NV) ELSE N
      b == IF Pick(1..3) > 1 THEN Pick(1..NV) ELSE Pick(Regs)
      to(r) == IF r = 0 THEN 0 ELSE IF r <= NV THEN other[r] ELSE r + Half
  IN IF n < Half THEN CASE c <= 6 -> <<op, Pick(PR!NodeForms), a, b, 0, 1>>
                        [] c = 7 -> <<op, Pick(PR!NodeForms), b, a, 0, 1>>
                        [] c = 8 -> <<op, Pick(PR!LeftForms \cup PR!RightForms), a, 0, s[1], s[2]>>
                        [] c = 9 -> <<Pick({"sin", "cos"}), "r", a, 0, 0, 1>>
                        [] OTHER -> <<"neg", Pick({"r", "o"}), a, 0, 0, 1>>
     ELSE IF n < 2 * Half THEN LET e == prog[n - Half + 1] IN <<e[1], e[2], to(e[3]), to(e[4]), e[5], e[6]>>
     ELSE <<IF Pick(1..3) = 1 THEN Pick(Ops) ELSE Pick({"add", "sub"}), Pick(PR!NodeForms), N, NV + Half, 0, 1>>
(* many variables: sums, products and functions of fresh ones *)
WideInstr ==
  LET n == Len(prog)
      c == Pick(1..24)
      v == Pick(1..NV)
      w == Pick(1..NV)
      a == IF n = 0 THEN w ELSE IF Pick(1..3) > 1 THEN N ELSE Pick((NV + 1)..N)
      b == IF n = 0 THEN v ELSE Pick((NV + 1)..N)
      s == RScalars[Pick(1..12)]
  IN CASE c <= 6 -> <<Pick({"add", "sub"}), Pick(PR!NodeForms), a, v, 0, 1>>
       [] c <= 8 -> <<Pick({"add", "sub"}), Pick(PR!NodeForms), v, a, 0, 1>>
       [] c <= 11 -> <<"mul", Pick(PR!NodeForms), v, w, 0, 1>>
       [] c = 12 -> <<Pick({"mul", "div"}), Pick(PR!LeftForms), v, 0, s[1], s[2]>>
       [] c = 13 -> <<"mul", Pick(PR!NodeForms), a, v, 0, 1>>
       [] c = 14 -> <<Pick({"sin", "cos"}), "r", a, 0, 0, 1>>
       [] c \in 15..19 -> <<Pick({"add", "sub"}), Pick(PR!NodeForms), a, b, 0, 1>>
       [] c = 20 -> <<"div", Pick(PR!NodeForms), a, v, 0, 1>>
       [] c = 21 -> <<"Fadd", "rr", a, v, w, 1>>
       [] c = 22 -> <<"mul", Pick(PR!RightForms), a, 0, s[1], s[2]>>
       [] c = 23 -> <<"neg", Pick({"r", "o"}), a, 0, 0, 1>>
       [] OTHER -> <<Pick({"add", "sub"}), Pick(PR!LeftForms \cup PR!RightForms), a, 0, s[1], s[2]>>
(* a sum of many terms, one after the other: a term, then the sum with it *)
SumsInstr ==
  LET n == Len(prog)
      c == Pick(1..12)
      v == Pick(1..NV)
      w == Pick(1..NV)
      s == RScalars[Pick(1..12)]
      acc == IF n < 3 THEN Pick(1..NV) ELSE N - 1
  IN IF n % 2 = 0
     THEN CASE names # 1 /\ c <= 4 -> <<"mul", Pick(PR!NodeForms), v, w, 0, 1>>     \* (names = 1: linear)
            [] c <= 7 -> <<"mul", Pick(PR!LeftForms \cup PR!RightForms), v, 0, s[1], s[2]>>
            [] names # 1 /\ c = 8 -> <<Pick({"sin", "cos"}), "r", v, 0, 0, 1>>
            [] c = 9 -> <<"k", "", 0, 0, s[1], s[2]>>
            [] names # 1 /\ c = 10 -> <<"div", "rr", v, w, 0, 1>>
            [] c = 11 -> <<"sub", Pick(PR!NodeForms), v, w, 0, 1>>
            [] OTHER -> <<"cl", "", v, 0, 0, 1>>
     ELSE LET e == Pick(1..(IF Mode = "span" /\ Pick(1..20) > 1 THEN 98 ELSE 100))      \* (mostly one flat sum)
          IN CASE e <= 80 -> <<Pick({"add", "add", "sub"}), Pick(PR!NodeForms), acc, N, 0, 1>>
               [] e <= 98 -> <<"add", Pick(PR!NodeForms), N, acc, 0, 1>>
               [] e = 99 -> <<"Fadd", "rr", acc, N, v, 1>>
               [] OTHER -> <<"sub", Pick(PR!NodeForms), N, acc, 0, 1>>
(* an expression with itself or with one just before it, then a function of that *)
BushyInstr ==
  LET n == Len(prog)
      c == Pick(1..12)
      s == <<Pick({<<1, 2>>, <<3, 2>>, <<-1, 2>>, <<-1, 1>>, <<7, 8>>})>>[1]
      near == IF n < 3 THEN Pick(Regs) ELSE N - Pick({0, 0, 1, 1, 2})
  IN IF n % 2 = 1 THEN IF c <= 6 THEN <<Pick({"add", "sub"}), Pick(PR!NodeForms), N, near, 0, 1>>
                       ELSE <<"mul", Pick(PR!NodeForms), N, near, 0, 1>>
     ELSE CASE c <= 5 -> <<Pick({"sin", "cos"}), "r", N, 0, 0, 1>>
            [] c <= 7 -> <<"mul", Pick(PR!LeftForms \cup PR!RightForms), N, 0, s[1], s[2]>>
            [] c <= 9 -> <<Pick({"add", "sub"}), Pick(PR!NodeForms), N, Pick(1..NV), 0, 1>>
            [] c = 10 -> <<"add", Pick(PR!LeftForms \cup PR!RightForms), N, 0, s[1], s[2]>>
            [] c = 11 -> <<"mul", Pick(PR!NodeForms), Pick(1..NV), N, 0, 1>>
            [] OTHER -> <<"div", "rr", N, Pick(1..NV), 0, 1>>
Random == Mode \in Drawn
HasDer == \E i \in DOMAIN prog : prog[i][1] = "der"
Do(ins) == /\ prog' = Append(prog, ins)
           /\ meaning' = IF Mode = "span" THEN meaning
                         ELSE IF ins[1] = "der" \/ HasDer \/ Mode \in {"wide", "sums", "bushy"} THEN Append(meaning, PR!J!Konst(QBad))
                         ELSE Append(meaning, PR!Den1(ins, meaning))
Next == IF Random
        THEN /\ Len(prog) < Depth
             /\ Do(CASE Mode = "tower" -> TowerInstr [] Mode = "twin" -> TwinInstr [] Mode = "wide" -> WideInstr [] Mode \in {"sums", "span"} -> SumsInstr [] Mode = "bushy" -> BushyInstr [] OTHER -> RandomInstr)
             /\ other' = IF Mode = "twin" /\ prog = <<>> THEN [k \in 1..NV |-> IF Pick(1..2) = 1 THEN k ELSE Pick(1..NV)] ELSE other
             /\ names' = IF prog = <<>> THEN Pick({1, 3, 4}) ELSE names
        ELSE /\ Len(prog) < Len(Prefix) + Depth
             /\ \E ins \in Instrs : Do(ins)
             /\ UNCHANGED <<names, other>>
Spec == Init /\ [][Next]_vars

AllOk(j) == QOk(j.v) /\ \A i \in 1..NV : QOk(j.g[i]) /\ \A k \in 1..NV : QOk(j.h[i][k])
Deg == IF HasDer THEN <<>> ELSE PR!RunDeg(prog, [k \in 1..NV |-> 1])
Case == LET top == meaning[Len(meaning)]
        IN [n |-> [k \in 1..NV |-> IF NV > 20 THEN "x" \o ToString(k) ELSE NameSets[names][k]], i |-> prog, e |-> [k \in 1..NV |-> Env[((k - 1) % 20) + 1]],
            x |-> IF meaning # <<>> /\ AllOk(top) THEN <<top.v, top.g, top.h>> ELSE <<>>, d |-> Deg]
Emit == (IF Random THEN Len(prog) = Depth ELSE Len(prog) > Len(Prefix)) =>
          Serialize(ToJson(Case) \o "\n", Out,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

-------------------------------- MODULE Prog --------------------------------
(* Programs that build expressions, and what they mean.                      *)
(* A program works on registers. Registers 1..NV hold the variables; every   *)
(* instruction <<op, form, a, b, n, d>> appends one register:                *)
(*   "k"                    the constant n/d                                 *)
(*   "add" "sub" "mul" "div"  form "rr" "ro" "or" "oo": registers a, b       *)
(*                                 (operands borrowed or owned)              *)
(*                            form "rs" "os": register a with scalar n/d     *)
(*                            form "sr" "so": scalar n/d with register a     *)
(*   "neg" (form "r" "o"), "cos", "sin", "cl" (clone)      of register a     *)
(*   "Fadd" "Fmul" "Fdiv" "Fcos" "Fsin"  the raw node constructors           *)
(*                            (Fadd sums registers a, b and, if n > 0, n)    *)
(*   "der"                  derivative of register a by variable b           *)
EXTENDS Integers, Sequences
CONSTANTS NV, Add(_,_), Mul(_,_), Neg(_), Inv(_), Cos(_), Sin(_), Num(_), Rat(_,_)
J == INSTANCE Jet

NodeForms == {"rr", "ro", "or", "oo"}
LeftForms == {"rs", "os"}      \* scalar on the right
RightForms == {"sr", "so"}     \* scalar on the left

Bin(op, x, y) == CASE op = "add" -> J!JAdd(x, y)
                   [] op = "sub" -> J!JSub(x, y)
                   [] op = "mul" -> J!JMul(x, y)
                   [] op = "div" -> J!JDiv(x, y)

(* the meaning of one instruction, given the meanings of the registers *)
Den1(ins, R) ==
  LET op == ins[1]  f == ins[2]  a == ins[3]  b == ins[4]
      s == J!Konst(Rat(ins[5], ins[6]))
  IN CASE op = "k" -> s
       [] op \in {"add", "sub", "mul", "div"} ->
            IF f \in NodeForms THEN Bin(op, R[a], R[b])
            ELSE IF f \in LeftForms THEN Bin(op, R[a], s)
            ELSE Bin(op, s, R[a])
       [] op = "neg" -> J!JNeg(R[a])
       [] op \in {"cos", "Fcos"} -> J!JCos(R[a])
       [] op \in {"sin", "Fsin"} -> J!JSin(R[a])
       [] op = "cl" -> R[a]
       [] op = "Fadd" -> IF ins[5] > 0 THEN J!JAdd(J!JAdd(R[a], R[b]), R[ins[5]])
                         ELSE J!JAdd(R[a], R[b])
       [] op = "Fmul" -> J!JMul(R[a], R[b])
       [] op = "Fdiv" -> J!JDiv(R[a], R[b])

Vars(env) == [k \in 1..NV |-> J!Var(k, env[k])]
RECURSIVE Run(_,_)
Run(prog, R) == IF prog = <<>> THEN R ELSE Run(Tail(prog), Append(R, Den1(Head(prog), R)))
Den(prog, env) == Run(prog, Vars(env))

(* Degree class of a register: 0 a constant, 1 a linear combination of        *)
(* variables, 2 anything else (no promise). This is the promise made to users *)
(* of what is recognized as affine. Raw node constructors do not fold         *)
(* constants, so what they build from constants is only promised affine.      *)
Max(a, b) == IF a > b THEN a ELSE b
Deg1(ins, D) ==
  LET op == ins[1]  f == ins[2]  a == ins[3]  b == ins[4]
      x == IF f \in RightForms THEN 0 ELSE D[a]
      y == IF f \in RightForms THEN D[a] ELSE IF f \in LeftForms THEN 0 ELSE D[b]
  IN CASE op = "k" -> 0
       [] op \in {"add", "sub"} -> Max(x, y)
       [] op = "mul" -> IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE 2
       [] op = "div" -> IF y = 0 THEN x ELSE 2
       [] op = "Fmul" -> IF x = 0 THEN Max(1, y) ELSE IF y = 0 THEN x ELSE 2
       [] op = "Fdiv" -> IF y = 0 THEN Max(1, x) ELSE 2
       [] op = "neg" -> D[a]
       [] op = "cl" -> D[a]
       [] op \in {"cos", "sin"} -> IF D[a] = 0 THEN 0 ELSE 2
       [] op = "Fadd" -> IF ins[5] > 0 THEN Max(1, Max(Max(x, y), D[ins[5]])) ELSE Max(1, Max(x, y))
       [] OTHER -> 2
RECURSIVE RunDeg(_,_)
RunDeg(prog, D) == IF prog = <<>> THEN D ELSE RunDeg(Tail(prog), Append(D, Deg1(Head(prog), D)))
=============================================================================

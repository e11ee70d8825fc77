------------------------------- MODULE Params -------------------------------
(* Solver objects: typed parameters, and the problem classes each solves.     *)
(* Histories of settings and solves, with what each step must do, go to OUT   *)
(* and are played on the real solvers and on a solver that only implements    *)
(* the trait.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxOps, Mode   \* "all": every history over the menu; "random"

Kinds == {"clp", "cbc", "ipopt", "custom"}
Types(k) == CASE k \in {"clp", "cbc"} -> ("logLevel" :> "int")
              [] k = "ipopt" -> ("print_level" :> "int") @@ ("sb" :> "str")
              [] k = "custom" -> ("a" :> "int") @@ ("b" :> "float") @@ ("c" :> "str") @@ ("d" :> "int") @@ ("a b" :> "float")
(* "milp0": a mixed-integer problem none of whose variables is integer;       *)
(* "minlp0" likewise; "nlp0": a nonlinear problem without nonlinear parts     *)
Classes == {"lp", "milp", "nlp", "minlp", "milp0", "minlp0", "nlp0"}
Solves(k) == CASE k = "clp" -> {"lp"} [] k = "cbc" -> {"lp", "milp", "milp0"} [] k = "ipopt" -> {"lp", "nlp", "nlp0"} [] k = "custom" -> {}
(* values: <<type, text>> *)
Values == {<<"int", "0">>, <<"int", "7">>, <<"int", "-2147483648">>, <<"float", "0.5">>, <<"float", "-3">>, <<"float", "NaN">>, <<"str", "yes">>, <<"str", "">>, <<"str", "7">>,
           <<"int", "2147483647">>, <<"int", "-1">>, <<"float", "7">>, <<"float", "1e300">>, <<"float", "-inf">>, <<"float", "-0">>, <<"float", "2.5e-310">>,
           <<"str", " yes ">>, <<"str", "YES">>, <<"str", "a b">>, <<"str", "\t">>, <<"str", "no\n">>,
           <<"int", "256">>, <<"int", "-32769">>, <<"int", "65536">>, <<"float", "2147483648">>, <<"float", "0.1">>, <<"float", "-5e-324">>, <<"float", "1.7976931348623157e308">>,
           <<"str", "x*256">>, <<"str", "ab*300">>, <<"str", "long value *5000">>}  \* text*n: n times the text
Few == {<<"int", "7">>, <<"float", "0.5">>, <<"str", "yes">>}
Names(k) == DOMAIN Types(k) \cup {"logLevel", "loglevel", "sb", "", "unknown", "SB", "print_level ", "a_b"}

VARIABLES kind, val, ops   \* val[o][name]: value of object o's parameter, <<"init">> as created
vars == <<kind, val, ops>>
Pick(S) == RandomElement(S)
Objs == {1, 2}
Blank(k) == [o \in Objs |-> [nm \in DOMAIN Types(k) |-> <<"init">>]]
Init == kind = "" /\ val = [o \in Objs |-> <<>>] /\ ops = <<>>
Begin(k) == kind = "" /\ kind' = k /\ val' = Blank(k) /\ ops' = ops

Accepts(k, nm, v) == nm \in DOMAIN Types(k) /\ (IF nm \in DOMAIN Types(k) THEN Types(k)[nm] = v[1] ELSE FALSE)
Log(r, v) == ops' = Append(ops, r @@ [after |-> v])
Set(o, nm, v) == /\ val' = IF Accepts(kind, nm, v) THEN [val EXCEPT ![o][nm] = v] ELSE val
                 /\ Log([op |-> "set", o |-> o, name |-> nm, v |-> v, ok |-> Accepts(kind, nm, v)], val')
                 /\ UNCHANGED kind
Solve(o, c) == /\ kind # "custom" /\ UNCHANGED <<kind, val>>
               /\ Log([op |-> "solve", o |-> o, name |-> c, v |-> <<>>, ok |-> c \in Solves(kind)], val)
Next ==
  IF kind = "" THEN \E k \in (IF Mode = "all" THEN Kinds ELSE {Pick(Kinds)}) : Begin(k)
  ELSE /\ Len(ops) < MaxOps
       /\ IF Mode = "all"
          THEN \/ \E o \in Objs, nm \in Names(kind), v \in (IF MaxOps = 1 THEN Values ELSE Few) : Set(o, nm, v)
               \/ \E o \in Objs, c \in Classes : Solve(o, c)
          ELSE \E w \in {IF kind = "custom" THEN 1 ELSE Pick(1..3)}, o \in {Pick(Objs)} :
                 IF w = 3 THEN \E c \in {Pick(Classes)} : Solve(o, c)
                 ELSE \E nm \in {IF Pick(1..4) = 1 THEN Pick(Names(kind)) ELSE Pick(DOMAIN Types(kind))}, v \in {Pick(Values)} : Set(o, nm, v)
Spec == Init /\ [][Next]_vars

Typed == kind # "" => \A o \in Objs, nm \in DOMAIN Types(kind) : val[o][nm] = <<"init">> \/ val[o][nm][1] = Types(kind)[nm]
(* a setting touches one parameter of one object, and only when it succeeds *)
OnlyThat == [][\A o \in Objs : \A nm \in DOMAIN val[o] : (kind # "" /\ val'[o][nm] # val[o][nm]) =>
               LET e == ops'[Len(ops')] IN e.ok /\ e.op = "set" /\ e.o = o /\ e.name = nm /\ e.v = val'[o][nm]]_vars
Emit == ("OUT" \in DOMAIN IOEnv /\ Len(ops) = MaxOps) =>
          Serialize(ToJson([k |-> kind, ops |-> ops]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

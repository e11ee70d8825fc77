----------------------------- MODULE IpoptProto -----------------------------
(* What may be done with an Ipopt problem, as a state machine over calls.     *)
(* A state: [stage, int, str, rejected, code]; a call: a sequence whose first *)
(* element names it.                                                          *)
EXTENDS Integers, Sequences
Blank == [stage |-> "none", int |-> FALSE, str |-> FALSE, rejected |-> FALSE]
(* e: <<"create", made>> <<"int", key, value, accepted>> <<"str", key, value, accepted>> <<"solve">> <<"free">> *)
Legal(st, e, want) ==
  CASE e[1] = "create" -> st.stage = "none"
    [] e[1] \in {"int", "str"} -> st.stage = "open" /\ (e[2] = "print_level" => e[1] = "int" /\ e[3] = want.print)
                                                   /\ (e[2] = "sb" => e[1] = "str" /\ e[3] = want.sb)
    [] e[1] = "solve" -> st.stage = "open" /\ st.int /\ st.str /\ ~st.rejected
    [] e[1] = "free" -> st.stage \in {"open", "solved"}
After(st, e) ==
  CASE e[1] = "create" -> [st EXCEPT !.stage = IF e[2] THEN "open" ELSE "failed"]
    [] e[1] = "int" -> [st EXCEPT !.int = @ \/ (e[2] = "print_level" /\ e[4]), !.rejected = @ \/ ~e[4]]
    [] e[1] = "str" -> [st EXCEPT !.str = @ \/ (e[2] = "sb" /\ e[4]), !.rejected = @ \/ ~e[4]]
    [] e[1] = "solve" -> [st EXCEPT !.stage = "solved"]
    [] e[1] = "free" -> [st EXCEPT !.stage = IF st.stage = "solved" THEN "done" ELSE "dropped"]
(* at the return of a solve *)
Released(st) == st.stage \in {"none", "failed", "done", "dropped"}
Status(code) == IF code \in {0, 1} THEN "solved" ELSE IF code = 2 THEN "infeasible" ELSE "error"
=============================================================================

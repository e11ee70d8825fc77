------------------------------ MODULE SolveMenu ------------------------------
(* The expressions and constraints of the histories of Solve and of the records of SolveCheck. *)
EXTENDS Integers, Sequences
V == 1..3                     \* variable 3 is integer
(* expressions: coefficients of the variables, a constant and a product of two variables (or none) *)
Exprs == << [l |-> <<1, 0, 0>>, q |-> <<0, 0>>],  [l |-> <<1, 2, 0>>, q |-> <<0, 0>>],
            [l |-> <<0, 1, 0>>, q |-> <<1, 2>>],  [l |-> <<0, 1, 0>>, q |-> <<0, 0>>],
            [l |-> <<0, 0, 1>>, q |-> <<0, 0>>],  [l |-> <<2, 0, 0>>, q |-> <<0, 0>>],
            [l |-> <<-1, 0, 0>>, q |-> <<0, 0>>], [l |-> <<3, -1, 2>>, q |-> <<0, 0>>],
            [l |-> <<0, 0, -2>>, q |-> <<1, 1>>], [l |-> <<1, 1, 1>>, q |-> <<3, 2>>],
            [l |-> <<0, 0, 0>>, q |-> <<2, 2>>],  [l |-> <<0, -3, 1>>, q |-> <<0, 0>>] >>
(* constraints: relation, expression, right-hand side *)
Cons == << <<"le", 1, 4>>, <<"le", 1, 3>>, <<"ge", 2, 1>>, <<"eq", 2, 5>>,
           <<"le", 3, 6>>, <<"ge", 1, -2>>, <<"ge", 1, 0>>, <<"le", 4, 7>>, <<"ge", 4, 7>>, <<"eq", 3, 2>>, <<"eq", 1, 2>>,
           <<"le", 5, 9>>, <<"ge", 5, -9>>, <<"le", 6, 5>>, <<"ge", 6, -5>>, <<"le", 7, 2>>, <<"ge", 7, -8>>, <<"le", 8, 11>>,
           <<"ge", 8, -11>>, <<"eq", 8, 1>>, <<"ge", 9, 3>>, <<"le", 9, 30>>, <<"eq", 9, 4>>, <<"le", 10, 12>>, <<"ge", 10, -12>>,
           <<"ge", 11, 1>>, <<"le", 12, 13>>, <<"ge", 12, -13>>, <<"le", 1, 3>>, <<"ge", 4, 2>>, <<"le", 4, 5>>, <<"eq", 5, 3>> >>
(* the gradient of an expression at a point *)
GradAt(e, x) == [v \in V |-> e.l[v] + (IF e.q[1] = v THEN x[e.q[2]] ELSE 0) + (IF e.q[2] = v THEN x[e.q[1]] ELSE 0)]
ValueAt(e, x) == e.l[1] * x[1] + e.l[2] * x[2] + e.l[3] * x[3] + (IF e.q[1] = 0 THEN 0 ELSE x[e.q[1]] * x[e.q[2]])
=============================================================================

------------------------------- MODULE LpRead -------------------------------
(* Reads LP files recorded from the real code, token by token, and compares  *)
(* what they say with the problem each was written from.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, LpText
Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLES r, st      \* index of the file, the reader's state
Init == r = 0 /\ st = Start
Next == \/ r = 0 /\ r' \in 1..Len(Recs) /\ st' = st
        \/ r > 0 /\ st.sec = "none" /\ st.ok /\ r' = r /\ st' = Fold(Start, Recs[r].t, 1)
Spec == Init /\ [][Next]_<<r, st>>
Done == r > 0 /\ (st.sec # "none" \/ ~st.ok)
Readable == Done => st.ok /\ st.sec = "end" /\ st.dir \in {"min", "max"} /\ Known(st, Recs[r])
Objective == Done /\ Readable => SameObjective(st, Recs[r])
Rows == Done /\ Readable => SameRows(st, Recs[r])
Limits == Done /\ Readable => SameLimits(st, Recs[r])
Integers_ == Done /\ Readable => SameIntegers(st, Recs[r])
=============================================================================

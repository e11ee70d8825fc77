------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices: a coordinate matrix built entry by entry, its conversion *)
(* to row format by a counting sort, and the in-place summing of duplicates, *)
(* as algorithms over the lists the code keeps, with the meaning (a dense    *)
(* matrix) that each step has to preserve. Entry k has the value             *)
(* val[k] * 2^(k-1), so a number tells which entries it is the sum of.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxRows, MaxCols, MaxE, Patterns, Random, Emitting

VARIABLES nr, nc, ents,             \* shape and entries <<row, column, sign>>
          pat,                      \* how signs are chosen
          phase, k,                 \* counting sort: entry looked at next
          ptr, cnt, cols, data,     \* row pointers, counters, indices, values (sets of entries) of the row format
          row, out, optr, seen      \* summing: row looked at, new indices and data, new pointers, last row and place per column
vars == <<nr, nc, ents, pat, phase, k, ptr, cnt, cols, data, row, out, optr, seen>>
csr == <<ptr, cnt, cols, data>>
sm == <<row, out, optr, seen>>

Rows == 0..nr - 1
Cols == 0..nc - 1
N == Len(ents)
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Sign(i) == CASE pat = "plus" -> 1
             [] pat = "alternate" -> IF i % 2 = 0 THEN -1 ELSE 1
             [] pat = "zero" -> IF i = 2 THEN 0 ELSE 1
             [] pat = "mixed" -> (i % 3) - 1
Init == /\ nr = 0 /\ nc = 0 /\ pat = "plus" /\ ents = <<>> /\ phase = "start" /\ k = 1
        /\ ptr = <<>> /\ cnt = <<>> /\ cols = <<>> /\ data = <<>> /\ row = 0 /\ out = <<>> /\ optr = <<>> /\ seen = <<>>
Start == /\ phase = "start" /\ phase' = "build"
         /\ nr' \in Pick(0..MaxRows) /\ nc' \in Pick(0..MaxCols) /\ pat' \in Pick(Patterns)
         /\ UNCHANGED <<ents, k, ptr, cnt, cols, data, row, out, optr, seen>>
Put == /\ phase = "build" /\ N < MaxE /\ nr > 0 /\ nc > 0
       /\ \E r \in Pick(Rows), c \in Pick(Cols) : ents' = Append(ents, <<r, c, Sign(N + 1)>>)
       /\ UNCHANGED <<nr, nc, pat, phase, k, ptr, cnt, cols, data, row, out, optr, seen>>

RECURSIVE Before(_)
Before(r) == IF r = 0 THEN 0 ELSE Before(r - 1) + Cardinality({i \in 1..N : ents[i][1] = r - 1})
(* sizes of the rows are counted, then entries are placed one by one *)
Count == /\ phase = "build" /\ (~Random \/ N = MaxE \/ nr * nc = 0)
         /\ phase' = "place" /\ k' = 1
         /\ ptr' = [r \in 0..nr |-> Before(r)]
         /\ cnt' = [r \in Rows |-> 0]
         /\ cols' = [i \in 0..N - 1 |-> -1] /\ data' = [i \in 0..N - 1 |-> {}]
         /\ UNCHANGED <<nr, nc, ents, pat, row, out, optr, seen>>
Place == /\ phase = "place" /\ k <= N
         /\ LET e == ents[k] p == ptr[e[1]] + cnt[e[1]]
            IN /\ cols' = [cols EXCEPT ![p] = e[2]] /\ data' = [data EXCEPT ![p] = {k}]
               /\ cnt' = [cnt EXCEPT ![e[1]] = @ + 1]
         /\ k' = k + 1
         /\ UNCHANGED <<nr, nc, ents, pat, phase, ptr, row, out, optr, seen>>
(* duplicates are summed row by row; a column of the row is known by its last place *)
StartSum == /\ (phase = "place" /\ k > N) \/ phase = "summed"
            /\ phase' = "sum" /\ row' = 0 /\ out' = <<>> /\ optr' = <<0>>
            /\ seen' = [c \in Cols |-> <<-1, 0>>]
            /\ k' = 0
            /\ UNCHANGED <<nr, nc, ents, pat, ptr, cnt, cols, data>>
Merge == /\ phase = "sum" /\ row < nr
         /\ IF k < ptr[row + 1]
            THEN LET c == cols[k]
                 IN /\ IF seen[c][1] = row
                       THEN out' = [out EXCEPT ![seen[c][2]] = <<c, @[2] \cup data[k]>>] /\ seen' = seen
                       ELSE out' = Append(out, <<c, data[k]>>) /\ seen' = [seen EXCEPT ![c] = <<row, Len(out) + 1>>]
                    /\ k' = k + 1 /\ UNCHANGED <<row, optr>>
            ELSE row' = row + 1 /\ optr' = Append(optr, Len(out)) /\ UNCHANGED <<out, seen, k>>
         /\ UNCHANGED <<nr, nc, ents, pat, phase, ptr, cnt, cols, data>>
EndSum == /\ phase = "sum" /\ row = nr
          /\ ptr' = [r \in 0..nr |-> optr[r + 1]]
          /\ cols' = [i \in 0..Len(out) - 1 |-> out[i + 1][1]]
          /\ data' = [i \in 0..Len(out) - 1 |-> out[i + 1][2]]
          /\ phase' = "summed"
          /\ UNCHANGED <<nr, nc, ents, pat, k, cnt, row, out, optr, seen>>
Next == Start \/ Put \/ Count \/ Place \/ (phase = "place" /\ StartSum) \/ Merge \/ EndSum
Spec == Init /\ [][Next]_vars

(* the meaning: which entries add up at each position *)
Dense == [r \in Rows, c \in Cols |-> {i \in 1..N : ents[i][1] = r /\ ents[i][2] = c}]
Slots(r) == ptr[r]..ptr[r + 1] - 1
Stored == [r \in Rows, c \in Cols |-> UNION {data[p] : p \in {p \in Slots(r) : cols[p] = c}}]
Converted == phase \in {"place", "sum", "summed"} /\ (phase = "place" => k > N)
SameMatrix == Converted => Stored = Dense
Pointers == Converted => ptr[0] = 0 /\ (\A r \in Rows : ptr[r] <= ptr[r + 1]) /\ ptr[nr] = Cardinality(DOMAIN cols)
Stable == (phase = "place" /\ k > N) =>
  \A r \in Rows : \A p, q \in Slots(r) : p < q => \A i \in data[p], j \in data[q] : i < j
AtMostOnce == phase = "summed" => \A r \in Rows : \A p, q \in Slots(r) : cols[p] = cols[q] => p = q

Case == [r |-> nr, c |-> nc, e |-> ents, x |-> [i \in 1..nc |-> ((i * 7) % 5) - 1]]
Emit == ~Emitting \/ phase # "summed" \/
          Serialize(ToJson(Case @@ [rows |-> [r \in 1..nr |-> [p \in 1..Cardinality({i \in 1..N : ents[i][1] = r - 1}) |->
               LET idx == {i \in 1..N : ents[i][1] = r - 1}
               IN CHOOSE i \in idx : Cardinality({j \in idx : j < i}) = p - 1]],
             sums |-> [r \in 1..nr |-> [c \in 1..nc |-> Dense[r - 1, c - 1]]]]) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================

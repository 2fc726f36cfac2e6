-------------------------------- MODULE Orders -------------------------------
(* Orders in which the workers of module Pipeline can finish the lines: any   *)
(* of the first K unfinished lines of the current file may be next. Each      *)
(* order is exported and replayed with lines that take long enough to parse.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Files, K
VARIABLES order
N == LET f[i \in 0..Len(Files)] == IF i = 0 THEN 0 ELSE Files[i] + f[i - 1] IN f[Len(Files)]
Done == {order[i] : i \in 1..Len(order)}
FileOf(s) == LET f[i \in 0..Len(Files)] == IF i = 0 THEN 0 ELSE Files[i] + f[i - 1] IN CHOOSE i \in 1..Len(Files) : f[i - 1] < s /\ s <= f[i]
Left == (1..N) \ Done
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
InFlight == IF Left = {} THEN {} ELSE
            LET f == FileOf(Min(Left)) L == {s \in Left : FileOf(s) = f} IN {s \in L : Cardinality({t \in L : t < s}) < K}
Init == order = <<>>
Next == \E s \in InFlight : /\ order' = Append(order, s)
                            /\ (Len(order') = N => PrintT("@@" \o ToJson([files |-> Files, k |-> K, order |-> order'])))
=============================================================================

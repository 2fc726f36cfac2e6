-------------------------------- MODULE Loop ---------------------------------
(* An input that is repeated (-dbg-loop-input-size): a reader hands out the   *)
(* bytes of a buffer again and again, in pieces of any length, until at least *)
(* Limit bytes have been read; the scan of keys and the writing of rows both  *)
(* read all of it, each from the beginning (C31). Bytes are positions.        *)
EXTENDS Integers, Sequences
CONSTANTS Size, Limit, Chunk, Variant
VARIABLES pass, pos, read, got
vars == <<pass, pos, read, got>>

\* Whole reads of a buffer of the given size give this many copies of it.
Times(limit, size) == IF size = 0 THEN 0 ELSE (limit + size - 1) \div size

Init == pass = 1 /\ pos = 0 /\ read = 0 /\ got = <<>>
Ended == read >= Limit \/ (Size = 0 /\ Variant # "empty")
Read(n) == /\ pass <= 2 /\ ~Ended
           /\ LET from == IF pos = Size THEN 0 ELSE pos
                  m == IF from + n > Size THEN Size - from ELSE n IN
              /\ pos' = from + m /\ read' = read + m
              /\ got' = got \o [i \in 1..m |-> from + i]
           /\ UNCHANGED pass
NextPass == /\ pass = 1 /\ Ended
            /\ pass' = 2 /\ got' = <<>>
            /\ read' = IF Variant = "count kept" THEN read ELSE 0
            /\ pos' = IF Variant = "no rewind" THEN pos ELSE 0
Next == NextPass \/ \E n \in 1..Chunk : Read(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Repeated == \A i \in 1..Len(got) : got[i] = ((i - 1) % Size) + 1
Enough == (Ended /\ Size > 0) => Len(got) >= Limit /\ Len(got) < Limit + Size
Whole == Len(got) <= Times(Limit, Size) * Size
Ends == <>(pass = 2 /\ Ended)
=============================================================================

------------------------------ MODULE Throttle -------------------------------
(* Memory limit: a watcher raises a flag whenever it finds that more memory   *)
(* than the limit is in use, which may be always. The reader pauses once per  *)
(* raised flag before it takes a line, and goes on (C28).                     *)
EXTENDS Integers, Sequences
CONSTANTS Lines, Variant
VARIABLES flag, pc, given, taken
vars == <<flag, pc, given, taken>>
Init == flag = FALSE /\ pc = "scan" /\ given = <<>> /\ taken = 0
Watch == flag' = TRUE /\ UNCHANGED <<pc, given, taken>>   \* at any time, as often as it likes
Scan == /\ pc = "scan"
        /\ IF taken = Lines THEN pc' = "end" /\ UNCHANGED taken ELSE pc' = "check" /\ taken' = taken + 1
        /\ UNCHANGED <<flag, given>>
Check == /\ pc = "check"
         /\ IF flag /\ Variant = "wait" THEN UNCHANGED pc \* waits until memory is freed, which no one does
            ELSE IF flag /\ Variant = "skip" THEN pc' = "scan"
            ELSE pc' = "give"
         /\ UNCHANGED <<given, taken>>
         /\ flag' = IF Variant = "wait" THEN flag ELSE FALSE
         /\ UNCHANGED <<given, taken>>
Give == pc = "give" /\ given' = Append(given, taken) /\ pc' = "scan" /\ UNCHANGED <<flag, taken>>
Next == Watch \/ Scan \/ Check \/ Give
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan \/ Check \/ Give) /\ WF_vars(Watch)
NothingLost == pc = "end" => given = [i \in 1..Lines |-> i]
Ends == <>(pc = "end")
=============================================================================

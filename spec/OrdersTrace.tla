----------------------------- MODULE OrdersTrace -----------------------------
(* Recorded outcomes of replayed orders. Line i has the value i in some of    *)
(* its columns and nothing in the others, so a recorded row is <<number,      *)
(* lines whose values it has>> as in module Pipeline, whose properties        *)
(* NoGap, OwnLine and Complete leave one outcome.                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE ci
C == Cases[ci]
Set(s) == {s[i] : i \in 1..Len(s)}
Say(what, why) == PrintT("@@" \o ToJson([what |-> what, id |-> C.id, why |-> why, exp |-> C.n, got |-> C.out]))
NoGap == \A i \in 1..Len(C.out) : C.out[i].seq = i
OwnLine == \A i \in 1..Len(C.out) : Set(C.out[i].has) = {C.out[i].seq}
Cells == \A i \in 1..Len(C.out) : i <= Len(C.lines) => C.out[i].cols = C.lines[i]
Complete == C.status = "ok" /\ Len(C.out) = C.n
Init == ci = 1
Next == /\ ci <= Len(Cases) /\ ci' = ci + 1
        /\ IF ~Complete THEN Say("REJECT", "rows-missing") ELSE IF ~NoGap THEN Say("REJECT", "rows-out-of-order")
           ELSE IF ~OwnLine \/ ~Cells THEN Say("REJECT", "values-of-another-line") ELSE Say("ACCEPT", "")
=============================================================================

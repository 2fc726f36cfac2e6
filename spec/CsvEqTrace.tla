------------------------------ MODULE CsvEqTrace ------------------------------
(* Recorded outcomes of the comparison tool: each pair of tables is run       *)
(* through CsvEq and the verdict is compared with the exit status.            *)
EXTENDS CsvEq, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE ci
C == Cases[ci]
Say(what) == PrintT("@@" \o ToJson([what |-> what, id |-> C.id, why |-> "csvequals", exp |-> verdict', got |-> C.status]))
TInit == ci = 1 /\ Begin(Cases[1].a, Cases[1].b)
TNext == /\ ci <= Len(Cases)
         /\ \/ Step /\ UNCHANGED ci
               /\ (verdict' # "reading" => Say(IF (verdict' = "equal") = (C.status = 0) /\ C.status \in 0..125 THEN "ACCEPT" ELSE "REJECT"))
            \/ /\ verdict # "reading" /\ ci' = ci + 1
               /\ IF ci < Len(Cases) THEN a' = Cases[ci + 1].a /\ b' = Cases[ci + 1].b /\ n' = 1 /\ verdict' = "reading"
                  ELSE UNCHANGED <<a, b, n, verdict>>
View == <<ci, n, verdict>>
=============================================================================

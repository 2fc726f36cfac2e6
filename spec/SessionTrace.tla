----------------------------- MODULE SessionTrace -----------------------------
(* Recorded outcomes of runs under fault plans.                               *)
(*   maybe  the fault may be without effect (a damaged byte that no decoder   *)
(*          has to notice): the run may succeed if all outputs are complete   *)
EXTENDS Session, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE ci
C == Cases[ci]
Say(what, why) == PrintT("@@" \o ToJson([what |-> what, id |-> C.id, why |-> why, exp |-> status', got |-> C.obs]))
Judge == LET o == C.obs IN
         IF o.status < 0 \/ o.status > 125 THEN "ended-by-signal-or-timeout"
         ELSE IF o.status = 0 /\ \E i \in 1..Len(o.same) : ~o.same[i] THEN "success-with-incomplete-output"
         ELSE IF o.status # 0 /\ o.msg = 0 THEN "failure-without-message"
         ELSE IF C.maybe THEN ""
         ELSE IF status' = "failed" /\ o.status = 0 THEN "failure-not-reported"
         ELSE IF status' = "ok" /\ o.status # 0 THEN "failure-without-fault"
         ELSE ""
TInit == ci = 1 /\ Begin(Cases[1].plan)
TNext == /\ ci <= Len(Cases)
         /\ \/ /\ Next /\ UNCHANGED ci
               /\ (status' # "running" => IF Judge = "" THEN Say("ACCEPT", "") ELSE Say("REJECT", Judge))
            \/ /\ stage = "exited" /\ ci' = ci + 1
               /\ IF ci < Len(Cases)
                  THEN LET p == Cases[ci + 1].plan IN
                       /\ plan' = p /\ stage' = "config" /\ at' = 1 /\ rec' = 0 /\ failed' = FALSE /\ status' = "running"
                       /\ file' = [o \in 1..Len(p.outs) |-> NewFile]
                  ELSE UNCHANGED vars
View == <<ci, stage, at, rec, file, failed, status>>
=============================================================================

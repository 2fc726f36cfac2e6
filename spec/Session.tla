------------------------------- MODULE Session -------------------------------
(* Outcome of a run in presence of faults. A run loads the configuration,     *)
(* checks the inputs, creates the outputs, reads each input to its end while  *)
(* rows go to every output, and closes the outputs; it succeeds only if no    *)
(* step failed. A fault plan tells what fails:                                *)
(*   cfgbad   the configuration can not be used                               *)
(*   ins      per input: number of records, and the record before which       *)
(*            reading fails (0: it can not even be opened, -1: no fault)      *)
(*   outs     per output: bytes of each record (header first), size of its    *)
(*            buffer, and bytes its device accepts (-1: any)                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES plan, stage, at, rec, file, failed, status
vars == <<plan, stage, at, rec, file, failed, status>>

\* file[o]: [buf: bytes not written yet, disk: bytes written, err: a write failed, got: records received]
NewFile == [buf |-> 0, disk |-> 0, err |-> FALSE, got |-> 0]
Drain(f, o) == IF f.err THEN f
               ELSE IF o.cap >= 0 /\ f.disk + f.buf > o.cap THEN [f EXCEPT !.disk = o.cap, !.buf = 0, !.err = TRUE]
               ELSE [f EXCEPT !.disk = @ + f.buf, !.buf = 0]
Accept(f, o) == LET g == [f EXCEPT !.buf = @ + o.recs[f.got + 1], !.got = @ + 1] IN
                IF g.buf > o.bufsize THEN Drain(g, o) ELSE g

Begin(p) == /\ plan = p /\ stage = "config" /\ at = 1 /\ rec = 0 /\ failed = FALSE /\ status = "running"
            /\ file = [o \in 1..Len(p.outs) |-> NewFile]

Fail == failed' = TRUE
LoadConfig == /\ stage = "config"
              /\ IF plan.cfgbad THEN Fail /\ stage' = "end" ELSE stage' = "create" /\ UNCHANGED failed
              /\ UNCHANGED <<plan, at, rec, file, status>>
\* Creating an output writes its header.
Create == /\ stage = "create"
          /\ IF \E i \in 1..Len(plan.ins) : plan.ins[i].bad = 0 THEN Fail /\ stage' = "end" /\ UNCHANGED file
             ELSE IF \E o \in 1..Len(plan.outs) : plan.outs[o].nofile THEN Fail /\ stage' = "close" /\ UNCHANGED file
             ELSE /\ file' = [o \in 1..Len(plan.outs) |-> Accept(file[o], plan.outs[o])]
                  /\ stage' = "read" /\ UNCHANGED failed
          /\ UNCHANGED <<plan, at, rec, status>>
\* One record of input at goes to every output.
ReadOne ==
  /\ stage = "read" /\ at <= Len(plan.ins)
  /\ IF rec + 1 = plan.ins[at].bad THEN Fail /\ stage' = "close" /\ UNCHANGED <<at, rec, file>>
     ELSE IF rec = plan.ins[at].n THEN at' = at + 1 /\ rec' = 0 /\ UNCHANGED <<file, failed, stage>>
     ELSE LET f2 == [o \in 1..Len(plan.outs) |-> Accept(file[o], plan.outs[o])] IN
          /\ file' = f2 /\ rec' = rec + 1 /\ UNCHANGED at
          \* An error of a writer is known at once or, when it buffers, later: both stop the run with a failure.
          /\ \/ UNCHANGED <<stage, failed>>
             \/ (\E o \in 1..Len(plan.outs) : f2[o].err) /\ Fail /\ stage' = "close"
  /\ UNCHANGED <<plan, status>>
ReadEnd == /\ stage = "read" /\ at > Len(plan.ins) /\ stage' = "close" /\ UNCHANGED <<plan, at, rec, file, failed, status>>
Close == /\ stage = "close"
         /\ LET f2 == [o \in 1..Len(plan.outs) |-> Drain(file[o], plan.outs[o])] IN
            /\ file' = f2
            /\ failed' = (failed \/ \E o \in 1..Len(plan.outs) : f2[o].err)
         /\ stage' = "end" /\ UNCHANGED <<plan, at, rec, status>>
Exit == /\ stage = "end" /\ stage' = "exited" /\ status' = IF failed THEN "failed" ELSE "ok"
        /\ UNCHANGED <<plan, at, rec, file, failed>>
Next == LoadConfig \/ Create \/ ReadOne \/ ReadEnd \/ Close \/ Exit

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Size(o) == SumTo(o.recs, Len(o.recs))
Lines(p) == SumTo([i \in 1..Len(p.ins) |-> p.ins[i].n], Len(p.ins))
Faulty(p) == \/ p.cfgbad
             \/ \E i \in 1..Len(p.ins) : p.ins[i].bad # -1 /\ p.ins[i].bad <= p.ins[i].n + 1
             \/ \E o \in 1..Len(p.outs) : p.outs[o].nofile \/ (p.outs[o].cap >= 0 /\ p.outs[o].cap < Size(p.outs[o]))

\* Success means that everything is on disk; a run fails if and only if the plan has a fault that it meets.
Durable == status = "ok" => \A o \in 1..Len(plan.outs) : file[o].disk = Size(plan.outs[o]) /\ file[o].buf = 0
NeverSilent == status # "running" => (status = "failed") = Faulty(plan)
Prefix == \A o \in 1..Len(plan.outs) : file[o].disk + file[o].buf <= SumTo(plan.outs[o].recs, file[o].got)
=============================================================================

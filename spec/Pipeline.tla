------------------------------ MODULE Pipeline -------------------------------
(* Second pass: one reader hands lines to workers, workers fill row buffers,  *)
(* finished rows are emitted in the order of their sequence numbers by        *)
(* whichever worker finds the next expected row; buffers are reused. Between  *)
(* files the reader waits until all workers are free; after the last file it  *)
(* emits what is left. A write may fail, a line may panic in its worker.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Lines,   \* lines per file, e.g. <<2, 1>>
          Workers, \* number of workers
          Fails,   \* rows whose write fails
          Panics,  \* lines whose worker panics before the row is finished
          Variant  \* "ok", or a defect that the properties have to reveal

N == LET f[i \in 0..Len(Lines)] == IF i = 0 THEN 0 ELSE Lines[i] + f[i - 1] IN f[Len(Lines)]
EndOf(i) == LET f[j \in 0..i] == IF j = 0 THEN 0 ELSE Lines[j] + f[j - 1] IN f[i]
W == 1..Workers
None == 0

VARIABLES main,     \* "read", "drain", "wait", "end"
          at,       \* current file
          next,     \* next line
          free,     \* idle workers
          pc, line, \* per worker: step and line
          exp,      \* per worker: expected number it has read
          hold,     \* per worker: buffer it is emitting
          pend, fin,\* row number -> buffer (0: none)
          pool,     \* free buffers
          made,     \* number of buffers made
          has,      \* buffer -> lines whose values it holds
          expected, \* next row to emit
          out,      \* emitted rows: <<number, lines whose values it has>>
          stop, err, status
vars == <<main, at, next, free, pc, line, exp, hold, pend, fin, pool, made, has, expected, out, stop, err, status>>

Init == /\ main = "read" /\ at = 1 /\ next = 1 /\ free = W
        /\ pc = [w \in W |-> "idle"] /\ line = [w \in W |-> 0] /\ exp = [w \in W |-> 0] /\ hold = [w \in W |-> None]
        /\ pend = [s \in 1..N |-> None] /\ fin = [s \in 1..N |-> None]
        /\ pool = {} /\ made = 0 /\ has = [b \in 1..N |-> {}] /\ expected = 1 /\ out = <<>>
        /\ stop = FALSE /\ err = FALSE /\ status = "running"

\* Reader.
Dispatch == /\ main = "read" /\ ~stop /\ next <= EndOf(at)
            /\ \E w \in free : /\ free' = free \ {w} /\ pc' = [pc EXCEPT ![w] = "start"] /\ line' = [line EXCEPT ![w] = next]
            /\ next' = next + 1
            /\ UNCHANGED <<main, at, exp, hold, pend, fin, pool, made, has, expected, out, stop, err, status>>
FileEnd == /\ main = "read" /\ (stop \/ next > EndOf(at)) /\ main' = "drain"
           /\ UNCHANGED <<at, next, free, pc, line, exp, hold, pend, fin, pool, made, has, expected, out, stop, err, status>>
Drained == /\ main = "drain" /\ free = W
           /\ IF err THEN main' = "end" /\ status' = "failed" /\ UNCHANGED at
              ELSE IF at < Len(Lines) THEN main' = "read" /\ at' = at + 1 /\ UNCHANGED status
              ELSE main' = "wait" /\ UNCHANGED <<at, status>>
           /\ UNCHANGED <<next, free, pc, line, exp, hold, pend, fin, pool, made, has, expected, out, stop, err>>
Waited == /\ main = "wait" /\ main' = "end"
          /\ status' = IF \A s \in 1..N : fin[s] = None THEN "ok" ELSE "failed"
          /\ UNCHANGED <<at, next, free, pc, line, exp, hold, pend, fin, pool, made, has, expected, out, stop, err>>

\* Worker.
Go(w, p) == pc' = [pc EXCEPT ![w] = p]
Start(w) == /\ pc[w] = "start"
            /\ \/ \E b \in pool : pend' = [pend EXCEPT ![line[w]] = b] /\ pool' = pool \ {b} /\ UNCHANGED made
               \/ made < N /\ pool = {} /\ made' = made + 1 /\ pend' = [pend EXCEPT ![line[w]] = made + 1] /\ UNCHANGED pool
            /\ Go(w, "walk")
            /\ UNCHANGED <<main, at, next, free, line, exp, hold, fin, has, expected, out, stop, err, status>>
Walk(w) == /\ pc[w] = "walk"
           /\ has' = [has EXCEPT ![pend[line[w]]] = @ \cup {line[w]}]
           /\ Go(w, IF line[w] \in Panics THEN "failed" ELSE "finish")
           /\ UNCHANGED <<main, at, next, free, line, exp, hold, pend, fin, pool, made, expected, out, stop, err, status>>
Finish(w) == /\ pc[w] = "finish"
             /\ fin' = [fin EXCEPT ![line[w]] = pend[line[w]]] /\ pend' = [pend EXCEPT ![line[w]] = None]
             /\ Go(w, "look")
             /\ UNCHANGED <<main, at, next, free, line, exp, hold, pool, made, has, expected, out, stop, err, status>>
Look(w) == /\ pc[w] = "look" /\ exp' = [exp EXCEPT ![w] = expected] /\ Go(w, "take")
           /\ UNCHANGED <<main, at, next, free, line, hold, pend, fin, pool, made, has, expected, out, stop, err, status>>
Take(w) == /\ pc[w] = "take"
           /\ IF exp[w] <= N /\ fin[exp[w]] # None
              THEN hold' = [hold EXCEPT ![w] = fin[exp[w]]] /\ fin' = [fin EXCEPT ![exp[w]] = None] /\ Go(w, "emit")
              ELSE Go(w, "release") /\ UNCHANGED <<hold, fin>>
           /\ UNCHANGED <<main, at, next, free, line, exp, pend, pool, made, has, expected, out, stop, err, status>>
Emit(w) == /\ pc[w] = "emit"
           /\ IF exp[w] \in Fails THEN UNCHANGED out ELSE out' = Append(out, <<exp[w], has[hold[w]]>>)
           /\ Go(w, IF Variant = "put first" THEN "put" ELSE "bump")
           /\ UNCHANGED <<main, at, next, free, line, exp, hold, pend, fin, pool, made, has, expected, stop, err, status>>
Bump(w) == /\ pc[w] = "bump" /\ expected' = expected + 1 /\ Go(w, IF Variant = "put first" THEN "next" ELSE "clear")
           /\ UNCHANGED <<main, at, next, free, line, exp, hold, pend, fin, pool, made, has, out, stop, err, status>>
Clear(w) == /\ pc[w] = "clear" /\ has' = [has EXCEPT ![hold[w]] = {}] /\ Go(w, IF Variant = "put first" THEN "bump" ELSE "put")
            /\ UNCHANGED <<main, at, next, free, line, exp, hold, pend, fin, pool, made, expected, out, stop, err, status>>
Put(w) == /\ pc[w] = "put" /\ pool' = pool \cup {hold[w]} /\ Go(w, IF Variant = "put first" THEN "clear" ELSE "next")
          /\ UNCHANGED <<main, at, next, free, line, exp, hold, pend, fin, made, has, expected, out, stop, err, status>>
NextRow(w) == /\ pc[w] = "next" /\ hold' = [hold EXCEPT ![w] = None]
              /\ Go(w, IF exp[w] \in Fails THEN "failed" ELSE IF Variant = "one row" THEN "release" ELSE "look")
              /\ UNCHANGED <<main, at, next, free, line, exp, pend, fin, pool, made, has, expected, out, stop, err, status>>
Failed(w) == /\ pc[w] = "failed" /\ stop' = TRUE /\ err' = TRUE /\ Go(w, IF Variant = "leak" THEN "lost" ELSE "release")
             /\ UNCHANGED <<main, at, next, free, line, exp, hold, pend, fin, pool, made, has, expected, out, status>>
Release(w) == /\ pc[w] = "release" /\ free' = free \cup {w} /\ Go(w, "idle")
              /\ UNCHANGED <<main, at, next, line, exp, hold, pend, fin, pool, made, has, expected, out, stop, err, status>>

Worker(w) == Start(w) \/ Walk(w) \/ Finish(w) \/ Look(w) \/ Take(w) \/ Emit(w) \/ Bump(w) \/ Clear(w) \/ Put(w) \/ NextRow(w) \/ Failed(w) \/ Release(w)
Next == Dispatch \/ FileEnd \/ Drained \/ Waited \/ \E w \in W : Worker(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Dispatch) /\ WF_vars(FileEnd) /\ WF_vars(Drained) /\ WF_vars(Waited) /\ \A w \in W : WF_vars(Worker(w))

\* C01: rows come in order, each once; C02: a row has values of its own line only.
InOrder == \A i \in 1..Len(out) : out[i][1] >= i /\ (i > 1 => out[i][1] > out[i - 1][1])
NoGap == Fails = {} /\ Panics = {} => \A i \in 1..Len(out) : out[i][1] = i
OwnLine == \A i \in 1..Len(out) : out[i][2] = {out[i][1]}
\* A buffer is in one place only.
Places(b) == Cardinality({s \in 1..N : pend[s] = b}) + Cardinality({s \in 1..N : fin[s] = b})
             + Cardinality({w \in W : hold[w] = b /\ pc[w] \in {"emit", "bump", "clear", "put"}}) + (IF b \in pool THEN 1 ELSE 0)
OnePlace == \A b \in 1..N : Places(b) <= 1
CleanPool == Variant = "ok" => \A b \in pool : has[b] = {}
\* C01, C18: success means that all rows are out; failures are failures.
Complete == status = "ok" => Len(out) = N /\ Fails = {} /\ Panics = {}
Honest == status = "failed" => Fails # {} \/ Panics # {}
\* C28
Ends == <>(status # "running")
=============================================================================

------------------------------- MODULE KeyScan -------------------------------
(* First pass: workers observe values of keys and join them in a shared map.  *)
(* A key is added under a lock (with the decision looked up again), its type  *)
(* is raised under the lock; the children of a container are counted and it   *)
(* collapses to one column when there are more of them than the limit.        *)
(* The outcome is the same for all schedules (C05, C11).                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Work,     \* per worker: sequence of observations [k, t, z]: key, type, zero value
          Limit,    \* limit of children
          Variant   \* "ok", or a defect that the properties have to reveal

Types == {"null", "bool", "int", "float", "string"}
Join(a, b) == IF a = b \/ b = "null" THEN a ELSE IF a = "null" THEN b
              ELSE IF {a, b} = {"int", "float"} THEN "float" ELSE "string"
W == 1..Len(Work)
Keys == UNION {{Work[w][i].k : i \in 1..Len(Work[w])} : w \in W}
Absent == [t |-> "none", tt |-> {}, z |-> FALSE]

VARIABLES at, pc, seen, map, list, count, hc, lock
vars == <<at, pc, seen, map, list, count, hc, lock>>
Init == /\ at = [w \in W |-> 1] /\ pc = [w \in W |-> "next"] /\ seen = [w \in W |-> Absent]
        /\ map = [k \in Keys |-> Absent] /\ list = <<>> /\ count = 0 /\ hc = FALSE /\ lock = 0

Ob(w) == Work[w][at[w]]
Go(w, p) == pc' = [pc EXCEPT ![w] = p]
New(o) == [t |-> o.t, tt |-> {o.t}, z |-> o.z]
Raise(m, o) == [t |-> Join(m.t, o.t), tt |-> m.tt \cup {o.t}, z |-> m.z /\ o.z]

\* The container may have collapsed: nothing below it is observed.
Take(w) == /\ pc[w] = "next" /\ at[w] <= Len(Work[w])
           /\ IF hc THEN at' = [at EXCEPT ![w] = @ + 1] /\ UNCHANGED pc ELSE Go(w, "load") /\ UNCHANGED at
           /\ UNCHANGED <<seen, map, list, count, hc, lock>>
Load(w) == /\ pc[w] = "load" /\ seen' = [seen EXCEPT ![w] = map[Ob(w).k]]
           /\ Go(w, IF map[Ob(w).k] = Absent THEN "lock-add" ELSE "type")
           /\ UNCHANGED <<at, map, list, count, hc, lock>>
Lock(w) == /\ pc[w] \in {"lock-add", "lock-type"} /\ lock = 0 /\ lock' = w
           /\ Go(w, IF pc[w] = "lock-add" THEN "add" ELSE "raise")
           /\ UNCHANGED <<at, seen, map, list, count, hc>>
Add(w) == /\ pc[w] = "add" /\ lock' = 0
          /\ IF map[Ob(w).k] # Absent /\ Variant # "no second look"
             THEN seen' = [seen EXCEPT ![w] = map[Ob(w).k]] /\ UNCHANGED <<map, list, count, hc>>
             ELSE /\ seen' = [seen EXCEPT ![w] = New(Ob(w))] /\ map' = [map EXCEPT ![Ob(w).k] = New(Ob(w))]
                  /\ list' = Append(list, Ob(w).k)
                  /\ IF count + 1 > Limit THEN hc' = TRUE /\ UNCHANGED count ELSE count' = count + 1 /\ UNCHANGED hc
          /\ Go(w, "type") /\ UNCHANGED at
Type(w) == /\ pc[w] = "type"
           /\ IF Ob(w).t \notin seen[w].tt \/ (seen[w].z /\ ~Ob(w).z) THEN Go(w, "lock-type") /\ UNCHANGED at
              ELSE Go(w, "next") /\ at' = [at EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<seen, map, list, count, hc, lock>>
RaiseType(w) == /\ pc[w] = "raise" /\ lock' = 0
                /\ map' = [map EXCEPT ![Ob(w).k] = Raise(IF Variant = "stale" THEN seen[w] ELSE @, Ob(w))]
                /\ at' = [at EXCEPT ![w] = @ + 1] /\ Go(w, "next")
                /\ UNCHANGED <<seen, list, count, hc>>
Worker(w) == Take(w) \/ Load(w) \/ Lock(w) \/ Add(w) \/ Type(w) \/ RaiseType(w)
Next == \E w \in W : Worker(w)
Spec == Init /\ [][Next]_vars /\ \A w \in W : WF_vars(Worker(w)) /\ SF_vars(Lock(w))

Done == \A w \in W : at[w] > Len(Work[w]) /\ pc[w] = "next"
Obs(k) == UNION {{[t |-> Work[w][i].t, z |-> Work[w][i].z] : i \in {i \in 1..Len(Work[w]) : Work[w][i].k = k}} : w \in W}
RECURSIVE JoinAll(_)
JoinAll(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE LET x == CHOOSE x \in S : TRUE IN Join(x, JoinAll(S \ {x}))
Expected(k) == [t |-> JoinAll({o.t : o \in Obs(k)}), z |-> \A o \in Obs(k) : o.z]
Once == \A i, j \in 1..Len(list) : i # j => list[i] # list[j]
Collapse == Done => hc = (Cardinality(Keys) > Limit)
Confluent == Done /\ ~hc => /\ {list[i] : i \in 1..Len(list)} = Keys
                            /\ \A k \in Keys : map[k].t = Expected(k).t /\ map[k].z = Expected(k).z
Ends == <>Done
=============================================================================

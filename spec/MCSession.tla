------------------------------ MODULE MCSession ------------------------------
(* All fault plans of small runs.                                             *)
EXTENDS Session
CONSTANTS MaxLines, MaxIns, MaxOuts

InPlans == UNION {{[n |-> n, bad |-> b] : b \in -1..(n + 1)} : n \in 0..MaxLines}
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, k) == IF k = 1 THEN {<<x>> : x \in S} ELSE SeqsUpTo(S, k - 1) \cup {<<x>> \o s : x \in S, s \in SeqsUpTo(S, k - 1)}
OutPlans(n) == {[recs |-> [i \in 1..(n + 1) |-> IF i = 2 THEN w ELSE 1], bufsize |-> b, cap |-> c, nofile |-> nf] :
                  w \in {1, 2}, b \in {0, 1, 3}, c \in -1..3, nf \in BOOLEAN}
Init == \E cb \in BOOLEAN, i \in SeqsUpTo(InPlans, MaxIns) :
          LET n == SumTo([k \in 1..Len(i) |-> i[k].n], Len(i)) IN
          \E o \in SeqsUpTo(OutPlans(n), MaxOuts) : Begin([cfgbad |-> cb, ins |-> i, outs |-> o])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(stage = "exited")
=============================================================================

-------------------------------- MODULE CsvEq --------------------------------
(* Comparison of two CSV tables. A table is [head |-> names, rows |-> rows].  *)
(* The comparison reads both files record by record; Equal is what its        *)
(* verdict has to mean.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Names(t) == {t.head[i] : i \in 1..Len(t.head)}
Col(t, c) == CHOOSE i \in 1..Len(t.head) : t.head[i] = c
Equal(a, b) ==
  /\ Names(a) = Names(b)
  /\ Len(a.rows) = Len(b.rows)
  /\ \A r \in 1..Len(a.rows) : \A c \in Names(a) : a.rows[r][Col(a, c)] = b.rows[r][Col(b, c)]

\* Records of a file: header first.
Recs(t) == <<t.head>> \o t.rows
MapOf(names, rec) == {<<names[i], rec[i]>> : i \in 1..Len(rec)}

VARIABLES a, b, n, verdict
vars == <<a, b, n, verdict>>
Begin(x, y) == a = x /\ b = y /\ n = 1 /\ verdict = "reading"
Step ==
  /\ verdict = "reading"
  /\ LET ra == Recs(a)  rb == Recs(b) IN
     verdict' = IF n > Len(ra) /\ n > Len(rb) THEN "equal"
                ELSE IF n > Len(ra) \/ n > Len(rb) THEN "differ"
                ELSE IF n = 1 THEN (IF Names(a) = Names(b) THEN "reading" ELSE "differ")
                ELSE IF MapOf(a.head, ra[n]) = MapOf(b.head, rb[n]) THEN "reading" ELSE "differ"
  /\ n' = n + 1 /\ UNCHANGED <<a, b>>
VerdictOK == /\ verdict = "equal" => Equal(a, b)
             /\ verdict = "differ" => ~Equal(a, b)
=============================================================================

------------------------------- MODULE MCCsvEq -------------------------------
(* All pairs of small tables; each pair is exported to be compared by the     *)
(* real tool.                                                                 *)
EXTENDS CsvEq, Json, IOUtils

CONSTANT MaxRows
Heads == {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "c">>}
Cells == {"x", "y"}
Tables == UNION {{[head |-> h, rows |-> rs] : rs \in UNION {[1..k -> [1..Len(h) -> Cells]] : k \in 0..MaxRows}} : h \in Heads}

Init == \E x \in Tables, y \in Tables : Begin(x, y)
Next == /\ Step
        /\ IF verdict' # "reading" /\ IOEnv.EXPORT = "1"
           THEN PrintT("@@" \o ToJson([a |-> a, b |-> b])) ELSE TRUE
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(verdict # "reading")
=============================================================================

----------------------------- MODULE MCKeyScan -------------------------------
EXTENDS KeyScan
O(k, t, z) == [k |-> k, t |-> t, z |-> z]
Mixed == <<<<O("a", "int", TRUE), O("b", "string", FALSE)>>, <<O("a", "float", FALSE), O("b", "null", TRUE)>>, <<O("a", "int", FALSE), O("c", "bool", TRUE)>>>>
Same == <<<<O("a", "int", TRUE), O("a", "string", TRUE)>>, <<O("a", "float", TRUE), O("a", "null", TRUE)>>, <<O("a", "bool", FALSE)>>>>
Long3 == <<<<O("a", "int", TRUE), O("b", "null", TRUE), O("c", "float", FALSE)>>, <<O("c", "int", TRUE), O("a", "null", TRUE), O("b", "bool", TRUE)>>,
           <<O("b", "bool", FALSE), O("c", "null", TRUE), O("a", "float", TRUE)>>>>
=============================================================================

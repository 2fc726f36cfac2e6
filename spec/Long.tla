--------------------------------- MODULE Long --------------------------------
(* Tables of long uniform inputs, which are too long for cell by cell         *)
(* validation against module FlatJsonl: line i of the input is                *)
(*   {"c0":i, "c1":i+1, ..., "t":[{"x0":10*i, "x1":10*i+1, ...},              *)
(*                                {"x0":10*i+1, "x1":10*i+2, ...}, ...]}      *)
(* (with arr: {"c":[i, i+1, ...]} and columns .c.[J])                         *)
(* so that every cell of every table is a linear function of the line number  *)
(* and the index of the child: main table column cJ has i+J, child table      *)
(* column xJ has 10*i+k+J for child k, sequence columns have i.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, k
C == Cases[ci]
Block == 20000
Say(what, exp, got) == PrintT("@@" \o ToJson([what |-> what, id |-> C.id, why |-> C.why, exp |-> exp, got |-> got]))

\* A recorded column: rule [m, d, c], per (rows of one line) and cells; line i is at rows (i-1)*per+1 .. i*per.
Cell(r) == LET line == (r - 1) \div C.per + 1
               child == (r - 1) % C.per IN
           ToString(C.m * line + C.d * child + C.c)
\* A recorded row of a wide table: all cells of line C.row, or names of columns for row 0.
Wide == "row" \in DOMAIN C
WideCell(j) == IF C.row = 0 THEN ".c" \o ToString(j - 1) ELSE ToString(C.row + j - 1)
Want(r) == IF Wide THEN WideCell(r) ELSE Cell(r)
Count == IF Wide THEN C.width ELSE C.lines * C.per
Bad(from, to) == {r \in from..to : C.cells[r] # Want(r)}

\* A recorded list of tables, main tables or child tables in order of their parts: names of columns.
Prefix == IF C.child THEN <<"._sequence", "._index">> ELSE IF C.seq THEN <<"._sequence">> ELSE <<>>
Names == Prefix \o [j \in 1..C.width |-> IF C.child THEN ".x" \o ToString(j - 1) ELSE IF C.arr THEN ".c.[" \o ToString(j - 1) \o "]" ELSE ".c" \o ToString(j - 1)]
\* SQL tables have a sequence id, the rest is split in parts of limit - 1 columns.
Parts(limit) ==
  LET n == Len(Names)
      q == limit - 1
      p == IF n = 0 THEN 1 ELSE (n + q - 1) \div q IN
  [i \in 1..p |-> <<"_seq_id">> \o SubSeq(Names, (i - 1) * q + 1, IF i * q > n THEN n ELSE i * q)]
Tables == IF C.limit = 0 THEN <<Names>> ELSE Parts(C.limit)

Init == ci = 1 /\ k = 0
NextCase == ci' = ci + 1 /\ k' = 0
Next ==
  /\ ci <= Len(Cases)
  /\ IF "tables" \in DOMAIN C
     THEN /\ IF C.tables = Tables THEN Say("ACCEPT", "", "") ELSE Say("REJECT", ToString(Tables), ToString(C.tables))
          /\ NextCase
     ELSE IF k >= Len(C.cells)
     THEN /\ IF Len(C.cells) = Count THEN Say("ACCEPT", "", "")
             ELSE Say("REJECT", ToString(Count) \o " cells", ToString(Len(C.cells)) \o " cells")
          /\ NextCase
     ELSE LET to == IF k + Block > Len(C.cells) THEN Len(C.cells) ELSE k + Block
              b == Bad(k + 1, to) IN
          IF b = {} THEN k' = to /\ UNCHANGED ci
          ELSE /\ LET r == CHOOSE r \in b : \A j \in b : r <= j IN
                    Say("REJECT", "cell " \o ToString(r) \o ": " \o Want(r), C.cells[r])
               /\ NextCase
=============================================================================

-------------------------------- MODULE Sinks --------------------------------
(* Physical form of the tables in each output, as relations between a cell of *)
(* the specification and what is found in the output.                         *)
EXTENDS Rows

\* js: pairs <<text, decoded value>> of observed cells that are JSON.
Decoded(js, txt) == Assoc(js, txt)
CellOK(c, txt, js) ==
  CASE c.k = "K" -> IF c.lim > 0 THEN ByteLen(txt) <= c.lim
                    ELSE Keyed(js, txt) /\ Plain(Decoded(js, txt)) = c.v
    [] c.k = "M" -> Len(txt) > Len(c.s) /\ HasText(txt, c.s)
    [] c.k = "W" -> txt \in c.any
    [] OTHER -> txt = CellText(c)
TextRowOK(row, obs, js) == Len(row) = Len(obs) /\ \A i \in 1..Len(row) : CellOK(row[i], obs[i], js)

\* A line with a number that can not be used: each cell is as without that number or empty.
Lax(row) == [i \in 1..Len(row) |-> IF row[i].k \in {"K", "M"} THEN row[i] ELSE [k |-> "W", any |-> {"", CellText(row[i])}, c |-> row[i]]]

\* RAW: cells joined by the delimiter; text of containers and messages is taken from the other output.
RawRow(row, d, texts) == Join([i \in 1..Len(row) |-> IF row[i].k \in {"K", "M", "W"} THEN texts[i] ELSE CellText(row[i])], d)

----------------------------------------------------------------------------
(* SQL: tables are split in parts that have at most n columns, _seq_id        *)
(* included.                                                                  *)
PartOf(i, n) == (i - 1) \div (n - 1) + 1
PartCount(k, n) == IF k = 0 THEN 1 ELSE PartOf(k, n)
PartName(t, p) == IF p = 1 THEN t ELSE t \o "_part" \o ToString(p)
PartCols(s, p, n) == LET from == (p - 1) * (n - 1) + 1
                         to == IF p * (n - 1) > Len(s) THEN Len(s) ELSE p * (n - 1) IN SubSeq(s, from, to)

SqliteType(t) == CASE t \in {"int", "bool"} -> "INTEGER" [] t = "float" -> "REAL" [] OTHER -> ""
PgType(t, orig, cfg) == CASE t = "int" -> "INT8" [] t = "bool" -> "BOOL" [] t = "float" -> "FLOAT8"
                          [] t = "string" /\ Keyed(cfg.ptime, orig) -> "TIMESTAMP" [] OTHER -> "VARCHAR"

\* A SQLite cell is "N" (null), "T" text, "I" integer, "R" real. Text that looks like a number is stored as a number
\* if the column has a numeric type.
Numeric(t) == t \in {"int", "bool", "float"}
RECURSIVE SqliteCellOK(_, _, _, _)
SqliteCellOK(c, x, t, js) ==
  CASE c.k \in {"A", "N"} -> x = "N"
    [] c.k = "D" /\ Numeric(t) -> \/ x = "I" \o c.v.ci \/ x = "R" \o c.v.cf \/ x = "T" \o c.v.r
    [] c.k = "S" /\ c.s = "" -> x \in {"N", "T"}
    [] c.k = "W" -> x \in {"N", "T"} \/ SqliteCellOK(c.c, x, t, js)
    [] OTHER -> x # "N" /\ (Ch(x, 1) = "T" \/ ~Numeric(t) \/ c.k \in {"S", "W"}) /\ CellOK(c, Drop(x, 1), js)
\* Declared type t admits cell x of a column with only values seen by the scan.
SqliteAdmits(t, x) == CASE t = "int" -> x = "N" \/ Ch(x, 1) = "I"
                        [] t = "float" -> x = "N" \/ Ch(x, 1) \in {"I", "R"}
                        [] t = "bool" -> x \in {"N", "Ttrue", "Tfalse", "I0", "I1"}
                        [] OTHER -> TRUE

SqliteTableOK(obs, t, names, types, n) ==
  LET k == Len(names)  pc == PartCount(k, n) IN
  \A p \in 1..pc :
    /\ Keyed(obs, PartName(t, p))
    /\ LET o == Assoc(obs, PartName(t, p))
           ns == PartCols(names, p, n)  ts == PartCols(types, p, n) IN
       /\ Len(o.cols) = Len(ns) + 1 /\ Len(o.cols) <= n
       /\ o.cols[1][1] = "_seq_id"
       /\ \A i \in 1..Len(ns) : o.cols[i + 1] = <<ns[i], SqliteType(ts[i])>>
PgTableOK(obs, t, names, types, n) ==
  LET k == Len(names)  pc == PartCount(k, n) IN
  \A p \in 1..pc :
    /\ Keyed(obs, PartName(t, p))
    /\ LET o == Assoc(obs, PartName(t, p))
           ns == PartCols(names, p, n)  ts == PartCols(types, p, n) IN
       /\ Len(o.cols) = Len(ns) + 1 /\ Len(o.cols) <= n
       /\ o.cols[1] = <<"_seq_id", "INT8">>
       /\ \A i \in 1..Len(ns) : \/ o.cols[i + 1] = <<ns[i], ts[i]>>
                                \/ ts[i] = "TIME?" /\ o.cols[i + 1] \in {<<ns[i], "TIMESTAMP">>, <<ns[i], "VARCHAR">>}

SqliteRowOK(obs, t, row, types, seq, at, n, js) ==
  \A p \in 1..PartCount(Len(row), n) :
    LET o == Assoc(obs, PartName(t, p))
        cs == PartCols(row, p, n)  ts == PartCols(types, p, n) IN
    /\ at <= Len(o.rows)
    /\ Len(o.rows[at]) = Len(cs) + 1
    /\ o.rows[at][1] = "I" \o ToString(seq)
    /\ \A i \in 1..Len(cs) : SqliteCellOK(cs[i], o.rows[at][i + 1], ts[i], js)
PgRowOK(obs, t, row, seq, at, n, js) ==
  \A p \in 1..PartCount(Len(row), n) :
    LET o == Assoc(obs, PartName(t, p))
        cs == PartCols(row, p, n) IN
    /\ at <= Len(o.rows)
    /\ Len(o.rows[at]) = Len(cs) + 1
    /\ o.rows[at][1] = ToString(seq)
    /\ \A i \in 1..Len(cs) : CellOK(cs[i], o.rows[at][i + 1], js)
=============================================================================

-------------------------------- MODULE Rows --------------------------------
(* Cells of the rows that one line contributes.                               *)
EXTENDS Keys, TimeFmt

\* Cells: k = "A" absent, "N" null, "S" text, "D" number, "B" boolean, "K" container kept as JSON,
\* "M" message about text s.
Absent == [k |-> "A"]
Null == [k |-> "N"]
Str(s) == [k |-> "S", s |-> s]
CellText(c) == CASE c.k = "S" -> c.s [] c.k = "D" -> c.v.r [] c.k = "B" -> IF c.b THEN "true" ELSE "false" [] OTHER -> ""

TimeCell(s, f, cfg) == LET r == Retime(s, f, cfg) IN IF r.ok THEN Str(r.s) ELSE [k |-> "M", s |-> s]

EventCell(e, cfg) ==
  CASE e.k = "null" -> Null
    [] e.k = "bool" -> [k |-> "B", b |-> e.v.b]
    [] e.k \in {"int", "float"} -> [k |-> "D", v |-> e.v]
    [] e.k = "keep" -> [k |-> "K", v |-> Plain(e.v), lim |-> cfg.flim]
    [] e.k = "str" -> LET s == CutBytes(e.v.s, cfg.flim) IN
                      IF cfg.ptime # <<>> /\ Keyed(cfg.ptime, e.p) /\ Assoc(cfg.ptime, e.p).p # "RAW"
                      THEN TimeCell(s, Assoc(cfg.ptime, e.p), cfg) ELSE Str(s)

Put(row, i, c, cfg) ==
  IF row[i].k \in {"A", "N"} THEN [row EXCEPT ![i] = c]
  ELSE IF c.k = "N" \/ ~cfg.hasConcat THEN row
  ELSE [row EXCEPT ![i] = Str(CellText(row[i]) \o cfg.concat \o CellText(c))]

RowOf(es, plan, cfg) ==
  LET r0 == [i \in 1..Len(plan.cols) |-> Absent]
      r1 == FoldLeft(LAMBDA r, e : IF e.k \notin {"arr", "obj"} /\ e.p \in DOMAIN plan.colOf
                                   THEN Put(r, plan.colOf[e.p], EventCell(e, cfg), cfg) ELSE r, r0, es)
  IN [i \in 1..Len(r1) |-> IF plan.cols[i].const # <<>> THEN Str(plan.cols[i].const[1]) ELSE r1[i]]

MainRow(row, plan) == [j \in 1..Len(plan.main) |-> row[plan.main[j]]]

\* Rows of child table d: one per prefix and index/property that has a value, in order of the columns.
KidRows(row, plan, d, seq) ==
  LET k == plan.kids[d]
      ids == Dedup([j \in 1..Len(k.cols) |-> LET t == plan.cols[k.cols[j]].tr IN
                       IF row[k.cols[j]].k = "A" THEN <<>> ELSE <<t.pre, t.key>>])
      used == SelectSeq(ids, LAMBDA x : x # <<>>)
      cell(x, c) == IF c = 1 THEN Str(ToString(seq)) ELSE IF c = 2 THEN Str(x[2])
                    ELSE LET js == {j \in 1..Len(k.cols) : /\ k.at[j] = c
                                                           /\ plan.cols[k.cols[j]].tr.pre = x[1]
                                                           /\ plan.cols[k.cols[j]].tr.key = x[2]
                                                           /\ row[k.cols[j]].k # "A"}
                         IN IF js = {} THEN Absent ELSE row[k.cols[CHOOSE j \in js : \A m \in js : m <= j]]
  IN [r \in 1..Len(used) |-> [c \in 1..Len(k.trims) |-> cell(used[r], c)]]

----------------------------------------------------------------------------
(* Events of a line: sequence number, line prefix, JSON.                      *)
\* A line is [pre |-> text before the JSON, v |-> value or absent, lax |-> TRUE if the value ends with a damage].
Cut(es) == LET i == SelectInSeq(es, LAMBDA e : e.k = "bad") IN IF i = 0 THEN es ELSE SubSeq(es, 1, i - 1)
PrefixEvents(pre, cfg) ==
  IF cfg.prefix = <<>> \/ pre = "" THEN <<>>
  ELSE LET ms == RxAll(cfg.prefix[1], pre, 1) IN
       FlattenSeq([m \in 1..Len(ms) |-> [g \in 1..Len(ms[m]) |->
                     Evt("._prefix." \o Idx(g - 1), "", "str", [t |-> "s", s |-> ms[m][g]], ms[m][g] = "")]])
LineEvents(l, seq, E, cfg) ==
  (IF cfg.seq THEN LET r == ToString(seq) IN <<Evt("._sequence", "", "int", [t |-> "n", r |-> r, ci |-> r, cf |-> r], FALSE)>> ELSE <<>>)
  \o PrefixEvents(l.pre, cfg)
  \o (IF Has(l, "v") THEN (IF Has(l, "lax") THEN (IF E.cut THEN Cut(Ev(l.v, "", "", E)) ELSE SelectSeq(Ev(l.v, "", "", E), LAMBDA e : e.k # "bad"))
                           ELSE Ev(l.v, "", "", E)) ELSE <<>>)

\* A scan ends at a number that can not be used; what a row shows of such a line is not determined (see Lax).
ScanEnv(cfg) == [cut |-> TRUE, keep |-> Rng(cfg.keep), ex |-> cfg.extract, xrx |-> cfg.xrx]
WriteEnv(cfg, plan) == [cut |-> FALSE, keep |-> Rng(cfg.keep) \cup plan.H, ex |-> cfg.extract, xrx |-> cfg.xrx]

\* Lines of each file that take part, and the ones that are scanned.
Window(file, off, max) == LET to == IF max = 0 \/ off + max > Len(file) THEN Len(file) ELSE off + max IN SubSeq(file, off + 1, to)
WriteLines(files, cfg) == FlattenSeq([f \in 1..Len(files) |-> Window(files[f], cfg.offset, cfg.max)])
ScanMax(cfg) == IF cfg.maxkeys > 0 /\ (cfg.max = 0 \/ cfg.maxkeys < cfg.max) THEN cfg.maxkeys ELSE cfg.max
ScanLines(files, cfg) == FlattenSeq([f \in 1..Len(files) |-> Window(files[f], cfg.offset, ScanMax(cfg))])
=============================================================================

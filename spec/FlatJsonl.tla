------------------------------ MODULE FlatJsonl ------------------------------
(* One run: lines are scanned for keys, the plan of columns is frozen, every  *)
(* line is written as one row of the main table and rows of child tables.     *)
EXTENDS Sinks

Catalog0(cfg) == IF NoScan(cfg) THEN ListedCat(cfg) ELSE EmptyCat
ScanTodo(files, cfg) == IF NoScan(cfg) THEN <<>> ELSE ScanLines(files, cfg)
ScanLine(cat, l, seq, cfg) == AddEvents(cat, LineEvents(l, seq, ScanEnv(cfg), cfg))

\* Representatives reported by a run with several workers are a permutation of the groups that have values.
RepsOK(reps, plan, cfg) ==
  /\ {CK(reps[i], cfg) : i \in 1..Len(reps)} = plan.alive
  /\ Len(reps) = Cardinality(plan.alive)
  /\ \A i \in 1..Len(reps) : reps[i] \in Rng(plan.groups[CK(reps[i], cfg)])

WriteLine(l, seq, plan, cfg) ==
  LET row == RowOf(LineEvents(l, seq, WriteEnv(cfg, plan), cfg), plan, cfg)
      lax == Has(l, "lax")
      m == MainRow(row, plan)
  IN [main |-> IF lax THEN Lax(m) ELSE m,
      kids |-> [d \in Rng(plan.dsts) |-> KidRows(row, plan, d, seq)],
      lax |-> lax]

MainNames(plan) == [j \in 1..Len(plan.main) |-> plan.cols[plan.main[j]].name]
MainTypes(plan) == [j \in 1..Len(plan.main) |-> plan.cols[plan.main[j]].type]
\* A column that no scanned line has may be declared in any way that admits text or, with a time format, time.
MainPg(plan, cfg) == [j \in 1..Len(plan.main) |-> LET c == plan.cols[plan.main[j]] IN
                        IF c.orig = "" /\ Keyed(cfg.ptime, c.src) THEN "TIME?" ELSE PgType(c.type, c.orig, cfg)]
KidTypes(k) == [i \in 1..Len(k.types) |-> KidType(k, i)]
\* The representative key of a child column is the first one that maps to it.
KidOrig(plan, k, i) == IF i <= 2 THEN "" ELSE LET j == CHOOSE j \in 1..Len(k.at) : k.at[j] = i /\ \A m \in 1..Len(k.at) : k.at[m] = i => j <= m
                                              IN plan.cols[k.cols[j]].orig
KidPg(plan, k, cfg) == [i \in 1..Len(k.types) |-> PgType(KidType(k, i), KidOrig(plan, k, i), cfg)]

----------------------------------------------------------------------------
(* Errors of lines in the log of a verbose run. A line without any JSON is no *)
(* error when a prefix may describe it. A number that can not be used is only *)
(* noticed where it is looked at, that is in all lines that are scanned.      *)
Damaged(l, cfg) == IF Has(l, "v") THEN Has(l, "lax") ELSE l.brace \/ cfg.prefix = <<>>
NamedErr(named, scan, write, cfg) ==
  LET all == scan \o write
      must == {all[i].id : i \in {i \in 1..Len(all) : Damaged(all[i], cfg) /\ (Has(all[i], "lax") => i <= Len(scan))}}
      may == {all[i].id : i \in {i \in 1..Len(all) : Damaged(all[i], cfg)}}
      got == {named[i][1] : i \in 1..Len(named)}
      Is(ls, n, id) == n <= Len(ls) /\ ls[n].id = id
  IN IF ~(must \subseteq got) THEN <<"damaged-line-not-named", must, got>>
     ELSE IF ~(got \subseteq may) THEN <<"line-named-without-damage", may, got>>
     ELSE IF \E i \in 1..Len(named) : named[i][2] > 0 /\ ~Is(scan, named[i][2], named[i][1]) /\ ~Is(write, named[i][2], named[i][1])
     THEN <<"line-named-by-wrong-number", [i \in 1..Len(all) |-> all[i].id], named>>
     ELSE <<>>

----------------------------------------------------------------------------
(* Reports.                                                                   *)
InfoLine(i, c, cfg) ==
  LET base == c.name \o ", TYPE " \o c.type
      l1 == IF c.name # c.orig THEN c.orig \o ", REPLACED WITH " \o base ELSE base
      marked == cfg.include # <<>> \/ cfg.includeRx # <<>>
      fmt == IF cfg.xrx = <<>> \/ c.orig = "" THEN "" ELSE Format(c.orig, [xrx |-> cfg.xrx])
  IN [n |-> i, head |-> l1, inc |-> marked, dst |-> c.tr.dst, x |-> fmt]
InfoText(i, c, plan, cfg) ==
  LET r == InfoLine(i, c, cfg) IN
  ToString(i) \o ": " \o r.head
  \o (IF r.inc /\ c.orig \in Rng(plan.sel) THEN ", INCLUDED" ELSE "")
  \o (IF r.dst # "" THEN ", TRANSPOSED TO " \o r.dst ELSE "")
  \o (IF r.x # "" THEN ", EXTRACTED " \o r.x ELSE "")
InfoLines(plan, cfg) ==
  LET n == Len(plan.cols)
      skipped == IF cfg.include = <<>> /\ cfg.includeRx = <<>> THEN <<>>
                 ELSE SelectSeq(plan.disc, LAMBDA k : k \notin Rng(plan.sel)) IN
  [i \in 1..n |-> InfoText(i, plan.cols[i], plan, cfg)]
  \o [i \in 1..Len(skipped) |-> ToString(n + i) \o ": " \o skipped[i] \o ", SKIPPED"]

\* All proper and improper prefixes of the paths of discovered scalar keys, as sequences of segments.
HierPaths(cat, plan, segs) ==
  LET ps == IF plan.noscan THEN {} ELSE {p \in Rng(plan.live) : ~IsContainer(plan.ptype[p])} IN
  UNION {{SubSeq(segs[p], 1, n) : n \in 1..Len(segs[p])} : p \in ps}

\* A schema node is [types, props: <<<<name, node>>>>, items: <<>> or <<node>>].
SchemaType(v) == CASE v.t = "s" -> {"string"} [] v.t = "b" -> {"boolean"} [] v.t = "z" -> {"null"} [] v.t = "a" -> {"array"}
                   [] v.t = "o" -> {"object"} [] v.t = "n" -> IF v.ci # "" THEN {"integer", "number"} ELSE {"number"}
RECURSIVE Admits(_, _)
Admits(sch, v) ==
  /\ sch.types = <<>> \/ SchemaType(v) \cap Rng(sch.types) # {}
  /\ v.t = "o" => \A i \in 1..Len(v.m) : Keyed(sch.props, v.m[i][1]) => Admits(Assoc(sch.props, v.m[i][1]), v.m[i][2])
  /\ v.t = "a" /\ sch.items # <<>> => \A i \in 1..Len(v.e) : Admits(sch.items[1], v.e[i])
\* Every scanned scalar is described by the schema: its path leads to a node that names its type. A null is not required
\* to be: a key that is null or an empty container in all lines has no description.
RECURSIVE HasScalar(_)
HasScalar(v) == CASE v.t = "o" -> \E i \in 1..Len(v.m) : HasScalar(v.m[i][2])
                  [] v.t = "a" -> \E i \in 1..Len(v.e) : HasScalar(v.e[i])
                  [] OTHER -> v.t # "z"
RECURSIVE SchemaHas(_, _)
SchemaHas(sch, v) ==
  CASE v.t = "o" -> \A i \in 1..Len(v.m) : HasScalar(v.m[i][2]) => (Keyed(sch.props, v.m[i][1]) /\ SchemaHas(Assoc(sch.props, v.m[i][1]), v.m[i][2]))
    [] v.t = "a" -> ~HasScalar(v) \/ (sch.items # <<>> /\ \A i \in 1..Len(v.e) : ~HasScalar(v.e[i]) \/ SchemaHas(sch.items[1], v.e[i]))
    [] OTHER -> SchemaType(v) \cap Rng(sch.types) # {}
=============================================================================

------------------------------- MODULE Validate -------------------------------
(* Steps through recorded runs of the program. Each case has lines, a         *)
(* configuration and the observed outputs of one or more runs; a case that is *)
(* not a behaviour of FlatJsonl is reported and the next one is taken.        *)
EXTENDS FlatJsonl, Json, IOUtils

CasesFile == IOEnv.CASES
Cases == ndJsonDeserialize(CasesFile)

VARIABLES ci, ph, n, cat, todo, plans, kc, rp
vars == <<ci, ph, n, cat, todo, plans, kc, rp>>
View == <<ci, ph, n>>

C == Cases[ci]
\* The first input is repeated: whole reads of its bytes (see module Loop).
Fed(c) == IF c.loop = <<>> THEN c.files
          ELSE LET limit == c.loop[1][1]  size == c.loop[1][2]
                   k == IF size = 0 THEN 0 ELSE (limit + size - 1) \div size IN
               <<FlattenSeq([i \in 1..k |-> c.files[1]])>> \o Tail(c.files)
Cfg == C.cfg
Runs == C.runs

Short(x) == LET s == ToString(x) IN IF Len(s) > 4000 THEN SubSeq(s, 1, 4000) ELSE s
Say(what, why, run, at, exp, got) ==
  PrintT("@@" \o ToJson([what |-> what, id |-> C.id, why |-> why, run |-> run, at |-> at, exp |-> Short(exp), got |-> Short(got)]))
Reject(why, run, at, exp, got) == Say("REJECT", why, run, at, exp, got)
Known(why, run, at, got) == Say("KNOWN", why, run, at, "", got)

Start(i) == /\ ci' = i /\ ph' = "scan" /\ n' = 0 /\ plans' = <<>> /\ kc' = <<>> /\ rp' = <<>>
            /\ IF i > Len(Cases) THEN cat' = EmptyCat /\ todo' = <<>>
               ELSE /\ cat' = Catalog0(Cases[i].cfg)
                    /\ todo' = ScanTodo(Fed(Cases[i]), Cases[i].cfg)
Init == /\ ci = 1 /\ ph = "scan" /\ n = 0 /\ plans = <<>> /\ kc = <<>> /\ rp = <<>>
        /\ cat = Catalog0(Cases[1].cfg) /\ todo = ScanTodo(Fed(Cases[1]), Cases[1].cfg)

Scan == /\ ph = "scan" /\ n < Len(todo)
        /\ cat' = ScanLine(cat, todo[n + 1], n + 1, Cfg)
        /\ n' = n + 1
        /\ UNCHANGED <<ci, ph, todo, plans, kc, rp>>

----------------------------------------------------------------------------
(* Frozen plan against headers, tables and reports of every run.              *)
\* First complaint <<why, expected, got>>, or <<>>.
HeadErr(run, plan) ==
  LET names == MainNames(plan)  types == MainTypes(plan)  m == Cfg.sqlcols IN
  IF run.status # "ok" THEN <<"status", "ok", run.status>>
  ELSE IF Has(run, "disc") /\ ~plan.noscan /\ ~RepsOK(run.disc, plan, Cfg) THEN <<"keys", plan.alive, run.disc>>
  ELSE IF Has(run, "flat") /\ run.flat # plan.disc THEN <<"flat-keys", plan.disc, run.flat>>
  ELSE IF Has(run, "info") /\ run.info # InfoLines(plan, Cfg) THEN <<"keys-info", InfoLines(plan, Cfg), run.info>>
  ELSE IF Has(run, "hier") /\ Rng(run.hier) # HierPaths(cat, plan, [p \in DOMAIN cat.info |-> Split(Drop(p, 1), ".")])
       THEN <<"keys-hier", HierPaths(cat, plan, [p \in DOMAIN cat.info |-> Split(Drop(p, 1), ".")]), run.hier>>
  ELSE IF Has(run, "csv") /\ run.csv.head # names THEN <<"csv-header", names, run.csv.head>>
  ELSE IF Has(run, "csv") /\ {run.csv.kids[i][1] : i \in 1..Len(run.csv.kids)} # Rng(plan.dsts)
       THEN <<"csv-child-tables", plan.dsts, [i \in 1..Len(run.csv.kids) |-> run.csv.kids[i][1]]>>
  ELSE IF Has(run, "csv") /\ \E d \in Rng(plan.dsts) : Assoc(run.csv.kids, d).head # plan.kids[d].names
       THEN LET d == CHOOSE d \in Rng(plan.dsts) : Assoc(run.csv.kids, d).head # plan.kids[d].names
            IN <<"csv-child-header", plan.kids[d].names, Assoc(run.csv.kids, d).head>>
  ELSE IF Has(run, "raw") /\ {run.raw.kids[i][1] : i \in 1..Len(run.raw.kids)} # Rng(plan.dsts) THEN <<"raw-child-tables", plan.dsts, run.raw.kids>>
  ELSE IF Has(run, "sqlite") /\ ~SqliteTableOK(run.sqlite, C.table, names, types, m)
       THEN <<"sqlite-table", <<names, types>>, [i \in 1..Len(run.sqlite) |-> <<run.sqlite[i][1], run.sqlite[i][2].cols>>]>>
  ELSE IF Has(run, "sqlite") /\ \E d \in Rng(plan.dsts) :
              ~SqliteTableOK(run.sqlite, C.table \o "_" \o d, plan.kids[d].names, KidTypes(plan.kids[d]), m)
       THEN <<"sqlite-child-table", [d \in Rng(plan.dsts) |-> <<plan.kids[d].names, KidTypes(plan.kids[d])>>],
              [i \in 1..Len(run.sqlite) |-> <<run.sqlite[i][1], run.sqlite[i][2].cols>>]>>
  ELSE IF Has(run, "pg") /\ run.pg.err # "" THEN <<"pg-dump", "", run.pg.err>>
  ELSE IF Has(run, "pg") /\ ~PgTableOK(run.pg.tabs, C.table, names, MainPg(plan, Cfg), m)
       THEN <<"pg-table", <<names, MainPg(plan, Cfg)>>, [i \in 1..Len(run.pg.tabs) |-> <<run.pg.tabs[i][1], run.pg.tabs[i][2].cols>>]>>
  ELSE IF Has(run, "pg") /\ \E d \in Rng(plan.dsts) :
              ~PgTableOK(run.pg.tabs, C.table \o "_" \o d, plan.kids[d].names, KidPg(plan, plan.kids[d], Cfg), m)
       THEN <<"pg-child-table", [d \in Rng(plan.dsts) |-> <<plan.kids[d].names, KidPg(plan, plan.kids[d], Cfg)>>],
              [i \in 1..Len(run.pg.tabs) |-> <<run.pg.tabs[i][1], run.pg.tabs[i][2].cols>>]>>
  ELSE IF Has(run, "sqlite") /\ Len(run.sqlite) # PartCount(Len(names), m) +
              FoldLeft(LAMBDA a, d : a + PartCount(Len(plan.kids[d].names), m), 0, plan.dsts)
       THEN <<"sqlite-extra-tables", plan.dsts, [i \in 1..Len(run.sqlite) |-> run.sqlite[i][1]]>>
  ELSE IF Has(run, "pg") /\ Len(run.pg.tabs) # PartCount(Len(names), m) +
              FoldLeft(LAMBDA a, d : a + PartCount(Len(plan.kids[d].names), m), 0, plan.dsts)
       THEN <<"pg-extra-tables", plan.dsts, [i \in 1..Len(run.pg.tabs) |-> run.pg.tabs[i][1]]>>
  ELSE IF Has(run, "schema") /\ \E i \in 1..Len(todo) : Has(todo[i], "v") /\ ~Has(todo[i], "lax") /\ ~Admits(run.schema, todo[i].v)
       THEN <<"json-schema", "", CHOOSE i \in 1..Len(todo) : Has(todo[i], "v") /\ ~Has(todo[i], "lax") /\ ~Admits(run.schema, todo[i].v)>>
  ELSE IF Has(run, "schemafull") /\ \E i \in 1..Len(todo) : Has(todo[i], "v") /\ ~Has(todo[i], "lax") /\ ~SchemaHas(run.schema, todo[i].v)
       THEN <<"json-schema-incomplete", "", CHOOSE i \in 1..Len(todo) : Has(todo[i], "v") /\ ~SchemaHas(run.schema, todo[i].v)>>
  ELSE IF Has(run, "named") THEN NamedErr(run.named, todo, WriteLines(Fed(C), Cfg), Cfg)
  ELSE <<>>

PlanOf(run, base) == IF Has(run, "disc") /\ run.disc # base.disc THEN
                        (IF RepsOK(run.disc, base, Cfg) THEN Plan(cat, Cfg, run.disc) ELSE base)
                     ELSE base
Freeze ==
  /\ ph = "scan" /\ n = Len(todo)
  /\ LET base == Plan(cat, Cfg, <<>>)
         ps == [r \in 1..Len(Runs) |-> PlanOf(Runs[r], base)]
         errs == [r \in 1..Len(Runs) |-> HeadErr(Runs[r], ps[r])]
         bad == {r \in 1..Len(Runs) : errs[r] # <<>>}
     IN IF bad # {} THEN LET r == CHOOSE r \in bad : TRUE IN
                         Reject(errs[r][1], Runs[r].name, 0, errs[r][2], errs[r][3]) /\ Start(ci + 1)
        ELSE /\ plans' = ps
             /\ kc' = [r \in 1..Len(Runs) |-> [d \in Rng(ps[r].dsts) |-> 0]]
             /\ rp' = [r \in 1..Len(Runs) |-> [d \in Rng(ps[r].dsts) \cup {""} |-> 1]]
             /\ ph' = "write" /\ n' = 0 /\ todo' = WriteLines(Fed(C), Cfg)
             /\ UNCHANGED <<ci, cat>>

----------------------------------------------------------------------------
(* Rows.                                                                      *)
Checked == Cfg.maxkeys = 0 /\ ~NoScan(Cfg)
TextAt(run, d, at) == IF d = "" THEN run.csv.rows[at] ELSE Assoc(run.csv.kids, d).rows[at]
RawAt(run, d, at, row) == RawRow(row, C.delim, IF \E i \in 1..Len(row) : row[i].k \in {"K", "M", "W"} THEN TextAt(run, d, at) ELSE <<>>) \o "\n"

PgAdmits(t, x) == x = "" \/ CASE t = "INT8" -> IntLit(x) [] t = "FLOAT8" -> AllIn(x, Digits \cup {"-", "+", ".", "e", "E"})
                              [] t = "BOOL" -> x \in {"true", "false"} [] OTHER -> TRUE

MainErr(run, plan, w, at) ==
  LET row == w.main  types == MainTypes(plan)  m == Cfg.sqlcols IN
  IF Has(run, "csv") /\ row # <<>> /\ (at > Len(run.csv.rows) \/ ~TextRowOK(row, run.csv.rows[at], run.js))
  THEN <<"csv-row", row, IF at > Len(run.csv.rows) THEN "no row" ELSE run.csv.rows[at]>>
  ELSE IF Has(run, "sqlite") /\ ~SqliteRowOK(run.sqlite, C.table, row, types, at, at, m, run.js)
  THEN <<"sqlite-row", row, LET o == Assoc(run.sqlite, C.table).rows IN IF at > Len(o) THEN <<"no row">> ELSE o[at]>>
  ELSE IF Has(run, "pg") /\ ~PgRowOK(run.pg.tabs, C.table, row, at, at, m, run.js)
  THEN <<"pg-row", row, LET o == Assoc(run.pg.tabs, C.table).rows IN IF at > Len(o) THEN <<"no row">> ELSE o[at]>>
  ELSE IF Has(run, "sqlite") /\ Checked /\ \E p \in 1..PartCount(Len(row), m) :
             LET o == Assoc(run.sqlite, PartName(C.table, p)).rows[at]  ts == PartCols(types, p, m) IN
             \E i \in 1..Len(ts) : ~SqliteAdmits(ts[i], o[i + 1])
  THEN <<"sqlite-type", types, Assoc(run.sqlite, C.table).rows[at]>>
  ELSE IF Has(run, "pg") /\ Checked /\ \E p \in 1..PartCount(Len(row), m) :
             LET o == Assoc(run.pg.tabs, PartName(C.table, p)).rows[at]  ts == PartCols(MainPg(plan, Cfg), p, m) IN
             \E i \in 1..Len(ts) : ~PgAdmits(ts[i], o[i + 1])
  THEN <<"pg-type", MainPg(plan, Cfg), Assoc(run.pg.tabs, C.table).rows[at]>>
  ELSE <<>>

KidErr(run, plan, w, d, at, i) ==
  LET row == w.kids[d][i]  k == plan.kids[d]  m == Cfg.sqlcols  t == C.table \o "_" \o d IN
  IF Has(run, "csv") /\ (at > Len(Assoc(run.csv.kids, d).rows) \/ ~TextRowOK(row, Assoc(run.csv.kids, d).rows[at], run.js))
  THEN <<"csv-child-row", row, IF at > Len(Assoc(run.csv.kids, d).rows) THEN <<"no row">> ELSE Assoc(run.csv.kids, d).rows[at]>>
  ELSE IF Has(run, "sqlite") /\ ~SqliteRowOK(run.sqlite, t, row, KidTypes(k), ToNat(row[1].s), at, m, run.js)
  THEN <<"sqlite-child-row", row, LET o == Assoc(run.sqlite, t).rows IN IF at > Len(o) THEN <<"no row">> ELSE o[at]>>
  ELSE IF Has(run, "pg") /\ ~PgRowOK(run.pg.tabs, t, row, ToNat(row[1].s), at, m, run.js)
  THEN <<"pg-child-row", row, LET o == Assoc(run.pg.tabs, t).rows IN IF at > Len(o) THEN <<"no row">> ELSE o[at]>>
  ELSE IF Has(run, "sqlite") /\ Checked /\ \E p \in 1..PartCount(Len(row), m) :
             LET o == Assoc(run.sqlite, PartName(t, p)).rows[at]  ts == PartCols(KidTypes(k), p, m) IN
             \E j \in 1..Len(ts) : ~SqliteAdmits(ts[j], o[j + 1])
  THEN <<"sqlite-child-type", KidTypes(k), Assoc(run.sqlite, t).rows[at]>>
  ELSE IF Has(run, "pg") /\ Checked /\ \E p \in 1..PartCount(Len(row), m) :
             LET o == Assoc(run.pg.tabs, PartName(t, p)).rows[at]  ts == PartCols(KidPg(plan, k, Cfg), p, m) IN
             \E j \in 1..Len(ts) : ~PgAdmits(ts[j], o[j + 1])
  THEN <<"pg-child-type", KidPg(plan, k, Cfg), Assoc(run.pg.tabs, t).rows[at]>>
  ELSE <<>>

LineErr(r, w, at) ==
  LET run == Runs[r]  plan == plans[r]
      e0 == MainErr(run, plan, w, at) IN
  IF e0 # <<>> THEN e0
  ELSE LET bad == {d \in Rng(plan.dsts) : \E i \in 1..Len(w.kids[d]) : KidErr(run, plan, w, d, kc[r][d] + i, i) # <<>>} IN
       IF bad # {} THEN LET d == CHOOSE d \in bad : TRUE
                            i == CHOOSE i \in 1..Len(w.kids[d]) : KidErr(run, plan, w, d, kc[r][d] + i, i) # <<>>
                        IN KidErr(run, plan, w, d, kc[r][d] + i, i)
       ELSE <<>>

RawLine(r, w, d, at) ==
  IF d = "" THEN (IF w.main = <<>> THEN "" ELSE RawAt(Runs[r], d, at, w.main))
  ELSE Join([i \in 1..Len(w.kids[d]) |-> RawAt(Runs[r], d, kc[r][d] + i, w.kids[d][i])], "")
RawSrc(run, d) == IF d = "" THEN run.raw.text ELSE Assoc(run.raw.kids, d)
RawErr(r, w, at) ==
  IF ~Has(Runs[r], "raw") THEN <<>>
  ELSE LET bad == {d \in DOMAIN rp[r] : LET x == RawLine(r, w, d, at)  src == RawSrc(Runs[r], d)  to == rp[r][d] + Len(x) - 1 IN
                                        to > Len(src) \/ SubSeq(src, rp[r][d], to) # x} IN
       IF bad = {} THEN <<>>
       ELSE LET d == CHOOSE d \in bad : TRUE  src == RawSrc(Runs[r], d) IN
            <<"raw-row", RawLine(r, w, d, at), SubSeq(src, rp[r][d], IF rp[r][d] + 100 > Len(src) THEN Len(src) ELSE rp[r][d] + 100)>>

\* Runs without columns of their own share the plan of the first run.
Samep == [r \in 1..Len(Runs) |-> r = 1 \/ ~Has(Runs[r], "disc")]

Write ==
  /\ ph = "write" /\ n < Len(todo)
  /\ LET l == todo[n + 1]
         at == n + 1
         w1 == WriteLine(l, at, plans[1], Cfg)
         ws == [r \in 1..Len(Runs) |-> IF Samep[r] THEN w1 ELSE WriteLine(l, at, plans[r], Cfg)]
         errs == [r \in 1..Len(Runs) |-> LET e == LineErr(r, ws[r], at) IN IF e # <<>> THEN e ELSE RawErr(r, ws[r], at)]
         bad == {r \in 1..Len(Runs) : errs[r] # <<>>}
         ts == {r \in 1..Len(Runs) : /\ Has(Runs[r], "pg") /\ Cfg.ptime # <<>>
                                     /\ \E j \in 1..Len(ws[r].main) : ws[r].main[j].k = "M" /\ MainPg(plans[r], Cfg)[j] = "TIMESTAMP"}
     IN IF bad # {} THEN LET r == CHOOSE r \in bad : TRUE IN
                         Reject(errs[r][1], Runs[r].name, at, errs[r][2], errs[r][3]) /\ Start(ci + 1)
        ELSE /\ IF ts # {} THEN Known("pg-timestamp-message", Runs[CHOOSE r \in ts : TRUE].name, at, "") ELSE TRUE
             /\ kc' = [r \in 1..Len(Runs) |-> [d \in DOMAIN kc[r] |-> kc[r][d] + Len(ws[r].kids[d])]]
             /\ rp' = [r \in 1..Len(Runs) |-> IF Has(Runs[r], "raw") THEN [d \in DOMAIN rp[r] |-> rp[r][d] + Len(RawLine(r, ws[r], d, at))] ELSE rp[r]]
             /\ n' = n + 1
             /\ UNCHANGED <<ci, ph, cat, todo, plans>>

\* Nothing is left over in any output.
EndErr(r) ==
  LET run == Runs[r]  plan == plans[r]  N == Len(todo)  n1 == Cfg.sqlcols
      parts(t, k) == {PartName(t, p) : p \in 1..PartCount(k, n1)} IN
  IF Has(run, "csv") /\ plan.main # <<>> /\ Len(run.csv.rows) # N THEN <<"csv-row-count", N, Len(run.csv.rows)>>
  ELSE IF Has(run, "csv") /\ plan.main = <<>> /\ run.csv.rows # <<>> THEN <<"csv-row-count", 0, Len(run.csv.rows)>>
  ELSE IF Has(run, "csv") /\ \E d \in Rng(plan.dsts) : Len(Assoc(run.csv.kids, d).rows) # kc[r][d]
       THEN <<"csv-child-row-count", kc[r], [i \in 1..Len(run.csv.kids) |-> <<run.csv.kids[i][1], Len(run.csv.kids[i][2].rows)>>]>>
  ELSE IF Has(run, "raw") /\ \E d \in DOMAIN rp[r] : Len(RawSrc(run, d)) # rp[r][d] - 1 THEN <<"raw-leftover", rp[r], "">>
  ELSE IF Has(run, "sqlite") /\ (\/ \E t \in parts(C.table, Len(plan.main)) : Len(Assoc(run.sqlite, t).rows) # N
                                 \/ \E d \in Rng(plan.dsts) : \E t \in parts(C.table \o "_" \o d, Len(plan.kids[d].names)) :
                                      Len(Assoc(run.sqlite, t).rows) # kc[r][d])
       THEN <<"sqlite-row-count", <<N, kc[r]>>, [i \in 1..Len(run.sqlite) |-> <<run.sqlite[i][1], Len(run.sqlite[i][2].rows)>>]>>
  ELSE IF Has(run, "pg") /\ (\/ \E t \in parts(C.table, Len(plan.main)) : Len(Assoc(run.pg.tabs, t).rows) # N
                             \/ \E d \in Rng(plan.dsts) : \E t \in parts(C.table \o "_" \o d, Len(plan.kids[d].names)) :
                                  Len(Assoc(run.pg.tabs, t).rows) # kc[r][d])
       THEN <<"pg-row-count", <<N, kc[r]>>, [i \in 1..Len(run.pg.tabs) |-> <<run.pg.tabs[i][1], Len(run.pg.tabs[i][2].rows)>>]>>
  ELSE <<>>

Close ==
  /\ ph = "write" /\ n = Len(todo)
  /\ LET bad == {r \in 1..Len(Runs) : EndErr(r) # <<>>} IN
     IF bad # {} THEN LET r == CHOOSE r \in bad : TRUE  e == EndErr(r) IN Reject(e[1], Runs[r].name, n, e[2], e[3])
     ELSE Say("ACCEPT", "", "", n, "", "")
  /\ Start(ci + 1)

Next == ci <= Len(Cases) /\ (Scan \/ Freeze \/ Write \/ Close)
Spec == Init /\ [][Next]_vars
=============================================================================

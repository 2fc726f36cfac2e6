-------------------------------- MODULE Keys --------------------------------
(* What the key-scanning pass knows, and which columns follow from it.        *)
(* A catalog maps each path to its parent, the kinds of values seen there and *)
(* whether all of them were zero values, plus the order of first appearance.  *)
EXTENDS JVal

Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE PosFrom(_, _, _)
PosFrom(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE PosFrom(s, x, i + 1)
PosIn(s, x) == PosFrom(s, x, 1)
\* First pair of an association list with the given key.
RECURSIVE AssocFrom(_, _, _)
AssocFrom(al, k, i) == IF al[i][1] = k THEN al[i][2] ELSE AssocFrom(al, k, i + 1)
Assoc(al, k) == AssocFrom(al, k, 1)
Keyed(al, k) == \E i \in 1..Len(al) : al[i][1] = k

----------------------------------------------------------------------------
(* Types.                                                                     *)
KindType(k) == CASE k = "str" -> "string" [] k = "keep" -> "string" [] k = "arr" -> "array" [] k = "obj" -> "object"
                 [] OTHER -> k
\* Least type that admits all of the types ts: null and absent are admitted by any type, scalars win over containers.
Join2(ts) == LET s == ts \ {"null", ""}
                 sc == s \ {"array", "object"} IN
  IF s = {} THEN (IF ts \subseteq {""} THEN "" ELSE "null")
  ELSE IF sc = {} THEN (IF Cardinality(s) = 1 THEN CHOOSE x \in s : TRUE ELSE "object")
  ELSE IF Cardinality(sc) = 1 THEN CHOOSE x \in sc : TRUE
  ELSE IF sc = {"int", "float"} THEN "float"
  ELSE "string"
IsContainer(t) == t \in {"array", "object", ""}

----------------------------------------------------------------------------
(* Catalog.                                                                   *)
EmptyCat == [seen |-> <<>>, info |-> <<>>]

AddEvent(cat, e) ==
  IF e.p \in DOMAIN cat.info
  THEN LET i == cat.info[e.p] IN
       IF e.k \in i.kinds /\ (e.z \/ ~i.zero) THEN cat
       ELSE [cat EXCEPT !.info = [@ EXCEPT ![e.p] = [i EXCEPT !.kinds = @ \cup {e.k}, !.zero = @ /\ e.z]]]
  ELSE [seen |-> Append(cat.seen, e.p),
        info |-> (e.p :> [par |-> e.par, kinds |-> {e.k}, zero |-> e.z]) @@ cat.info]
AddEvents(cat, es) == FoldLeft(AddEvent, cat, es)

\* Containers with more distinct children than allowed.
HighCard(cat, cfg) ==
  IF cfg.children = 0 THEN {}
  ELSE LET pars == {cat.info[p].par : p \in DOMAIN cat.info} \ {""}
           IN {q \in pars : /\ q \notin Rng(cfg.allow)
                            /\ Cardinality({p \in DOMAIN cat.info : cat.info[p].par = q}) > cfg.children}
Under(p, H) == \E h \in H : StartsWith(p, h \o ".")

CK(k, cfg) == IF cfg.cs THEN k ELSE Lower(k)

----------------------------------------------------------------------------
(* Transposition: the longest configured prefix of the key applies.           *)
NoTr == [dst |-> "", pre |-> "", key |-> "", isInt |-> FALSE, trim |-> ""]
Transp(orig, cfg) ==
  LET cand == {i \in 1..Len(cfg.transpose) : /\ StartsWith(orig, cfg.transpose[i][1])
                                             /\ Len(orig) > Len(cfg.transpose[i][1])} IN
  IF cand = {} THEN NoTr
  ELSE LET i == CHOOSE i \in cand : \A j \in cand : Len(cfg.transpose[j][1]) <= Len(cfg.transpose[i][1])
           pre == cfg.transpose[i][1]
           r0 == Drop(orig, Len(pre))
           r == IF Ch(r0, 1) = "." THEN Drop(r0, 1) ELSE r0
           b == Index(r, "]")
           isIdx == r # "" /\ Ch(r, 1) = "[" /\ b > 2 /\ AllIn(SubSeq(r, 2, b - 1), Digits)
           d == Index(r, ".")
           key == IF isIdx THEN ToString(ToNat(SubSeq(r, 2, b - 1))) ELSE IF d > 1 THEN SubSeq(r, 1, d - 1) ELSE r
           trim == IF isIdx THEN Drop(r, b) ELSE IF d > 1 THEN Drop(r, d - 1) ELSE ""
       IN [dst |-> cfg.transpose[i][2], pre |-> pre, key |-> key, isInt |-> isIdx,
           trim |-> IF trim = "" THEN "._value" ELSE trim]

----------------------------------------------------------------------------
(* Names. The naming state has: by name -> key that took it, used names,      *)
(* memo key -> shortened name.                                                *)
IsSpace(c) == c \in Spaces
RECURSIVE Squeeze(_, _, _)
Squeeze(s, i, in) == IF i > Len(s) THEN ""
  ELSE IF IsSpace(Ch(s, i)) THEN (IF in THEN "" ELSE "_") \o Squeeze(s, i + 1, TRUE)
  ELSE Ch(s, i) \o Squeeze(s, i + 1, FALSE)
RECURSIVE PutCaps(_, _, _)
PutCaps(t, caps, g) == IF g > Len(caps) THEN t
  ELSE PutCaps(Subst(t, "${" \o ToString(g) \o "}", Squeeze(Trim(caps[g], Spaces), 1, FALSE)), caps, g + 1)
SnakeMark == "|to_snake_case"
RxName(key, cfg) ==   \* "" if no expression applies
  LET m == SelectSeq(cfg.repRx, LAMBDA x : RxMatch(x[1], key)) IN
  IF m = <<>> THEN ""
  ELSE LET t == PutCaps(m[1][2], RxCaps(m[1][1], key), 1) IN
       IF t = key THEN ""
       ELSE IF EndsWith(t, SnakeMark) THEN Snake(SubSeq(t, 1, Len(t) - Len(SnakeMark))) ELSE t

StartOK(s) == s # "" /\ (Ch(s, 1) = "_" \/ Ch(s, 1) \in (Uppers \cup Lowers))
RECURSIVE TailName(_, _, _, _, _)
TailName(key, sk, i, nm, by) ==
  IF nm # "" /\ (nm \notin DOMAIN by \/ by[nm] = key) /\ StartOK(nm) THEN nm
  ELSE IF i - 1 <= 1 THEN ""
  ELSE TailName(key, sk, i - 1, Trim(Snake(sk[i - 1]), {"[", "]"}) \o "_" \o nm, by)
AutoName(key, by) == LET sk == Split(TrimRight(key, {"."}), ".") IN
  TailName(key, sk, Len(sk), Trim(Snake(sk[Len(sk)]), {"[", "]"}), by)

RECURSIVE ShortName(_, _, _, _)
ShortName(kk, lim, used, i) ==
  LET is == ToString(i) IN
  IF Len(is) > lim THEN kk
  ELSE LET nm == FitFrom(kk, lim - Len(is), 1) \o is IN IF nm \in used THEN ShortName(kk, lim, used, i + 1) ELSE nm

NameState0(cfg) == [by |-> [r \in {cfg.repKeys[i][2] : i \in 1..Len(cfg.repKeys)} |->
                              CK(cfg.repKeys[CHOOSE i \in 1..Len(cfg.repKeys) : cfg.repKeys[i][2] = r][1], cfg)],
                    used |-> {cfg.repKeys[i][2] : i \in 1..Len(cfg.repKeys)},
                    memo |-> [k \in {CK(cfg.repKeys[i][1], cfg) : i \in 1..Len(cfg.repKeys)} |->
                              LET i == CHOOSE i \in 1..Len(cfg.repKeys) : CK(cfg.repKeys[i][1], cfg) = k IN cfg.repKeys[i][2]]]

\* Result: [st, name].
PrepareKey(st, key, cfg) ==
  LET ck == CK(key, cfg) IN
  IF ck \in DOMAIN st.memo THEN [st |-> st, name |-> st.memo[ck]]
  ELSE LET rx == IF cfg.repRx = <<>> THEN "" ELSE RxName(key, cfg)
           auto == IF rx = "" /\ cfg.rep THEN AutoName(key, st.by) ELSE ""
           n0 == IF rx # "" THEN rx ELSE IF auto # "" THEN auto ELSE key
           by == IF rx # "" \/ auto # "" THEN (n0 :> key) @@ st.by ELSE st.by
           cut == cfg.klim > 0 /\ ByteLen(n0) > cfg.klim
           n == IF cut THEN ShortName(n0, cfg.klim, st.used, 0) ELSE n0
       IN [st |-> [by |-> IF cut THEN (n :> ck) @@ by ELSE by,
                   used |-> st.used \cup {n},
                   memo |-> IF cut THEN (ck :> n) @@ st.memo ELSE st.memo],
           name |-> n]

----------------------------------------------------------------------------
(* The plan: everything about columns that the write pass uses.               *)
IsConst(k) == StartsWith(k, "const:")
NoScan(cfg) == cfg.include # <<>> /\ cfg.includeRx = <<>> /\ cfg.xrx = <<>> /\ cfg.transpose = <<>>

Excluded(k, cfg) == \/ \E i \in 1..Len(cfg.exclude) : CK(cfg.exclude[i], cfg) = CK(k, cfg)
                    \/ \E i \in 1..Len(cfg.excludeRx) : RxMatch(cfg.excludeRx[i], k)
Dedup(s) == FoldLeft(LAMBDA acc, x : IF x \in Rng(acc) THEN acc ELSE Append(acc, x), <<>>, s)

ListedKeys(cfg) == Dedup(SelectSeq(cfg.include, LAMBDA k : ~Excluded(k, cfg)))

\* Catalog of a run without scan: the listed keys, as strings.
ListedCat(cfg) == LET ks == SelectSeq(ListedKeys(cfg), LAMBDA k : ~IsConst(k)) IN
  [seen |-> ks, info |-> [k \in Rng(ks) |-> [par |-> "", kinds |-> {"str"}, zero |-> FALSE]]]

\* reps: representatives of the columns in order of discovery as observed, or <<>>: the order of the catalog.
Plan(cat, cfg, reps) ==
  LET H == TLCEval(HighCard(cat, cfg))
      live == TLCEval(IF H = {} THEN cat.seen ELSE SelectSeq(cat.seen, LAMBDA p : ~Under(p, H)))
      ck == TLCEval([p \in Rng(cat.seen) |-> CK(p, cfg)])
      ptype == TLCEval([p \in Rng(live) |-> IF p \in H THEN "json" ELSE Join2({KindType(k) : k \in cat.info[p].kinds})])
      \* One group per distinct canonical key; its representative is the spelling seen first.
      step1 == FoldLeft(LAMBDA a, p : IF ck[p] \in DOMAIN a.g
                          THEN [a EXCEPT !.g = [@ EXCEPT ![ck[p]] = Append(@, p)]]
                          ELSE [o |-> Append(a.o, ck[p]), g |-> (ck[p] :> <<p>>) @@ a.g],
                        [o |-> <<>>, g |-> <<>>], live)
      alive == TLCEval([c \in DOMAIN step1.g |-> \E i \in 1..Len(step1.g[c]) : ~IsContainer(ptype[step1.g[c][i]])])
      rep == TLCEval([c \in DOMAIN step1.g |->
                LET o == SelectSeq(reps, LAMBDA r : CK(r, cfg) = c) IN IF o = <<>> THEN step1.g[c][1] ELSE o[1]])
      gtype == TLCEval([c \in DOMAIN step1.g |->
                 IF cfg.hasConcat /\ Len(step1.g[c]) > 1 THEN Join2({ptype[p] : p \in Rng(step1.g[c])} \cup {"string"})
                 ELSE Join2({ptype[p] : p \in Rng(step1.g[c])})])
      gzero == TLCEval([c \in DOMAIN step1.g |-> \A p \in Rng(step1.g[c]) : cat.info[p].zero])
      noscan == NoScan(cfg)
      disc == IF noscan THEN <<>>
              ELSE IF reps # <<>> THEN reps
              ELSE LET a == SelectSeq(step1.o, LAMBDA c : alive[c]) IN [i \in 1..Len(a) |-> rep[a[i]]]
      listed == ListedKeys(cfg)
      auto == SelectSeq(disc, LAMBDA k : /\ k \notin Rng(listed)
                                         /\ ~Excluded(k, cfg)
                                         /\ IF cfg.includeRx # <<>> THEN \E i \in 1..Len(cfg.includeRx) : RxMatch(cfg.includeRx[i], k)
                                            ELSE cfg.include = <<>> /\ (cfg.skipzero => ~gzero[CK(k, cfg)]))
      sel == listed \o auto
      known == TLCEval([i \in 1..Len(sel) |-> CK(sel[i], cfg) \in DOMAIN step1.g])
      orig == TLCEval([i \in 1..Len(sel) |-> IF known[i] THEN rep[CK(sel[i], cfg)] ELSE ""])
      tr == TLCEval([i \in 1..Len(sel) |-> IF known[i] /\ cfg.transpose # <<>> /\ ~noscan THEN Transp(orig[i], cfg) ELSE NoTr])
      rxm == TLCEval([i \in 1..Len(sel) |-> cfg.repRx # <<>> /\ \E j \in 1..Len(cfg.repRx) : RxMatch(cfg.repRx[j][1], sel[i])])
      len == TLCEval([i \in 1..Len(sel) |-> ByteLen(sel[i])])
      sorted == IF ~cfg.rep /\ cfg.repRx = <<>> /\ cfg.klim = 0 THEN [i \in 1..Len(sel) |-> i]
                ELSE SortSeq([i \in 1..Len(sel) |-> i],
                       LAMBDA i, j : \/ rxm[i] /\ ~rxm[j]
                                     \/ rxm[i] = rxm[j] /\ len[i] < len[j]
                                     \/ rxm[i] = rxm[j] /\ len[i] = len[j] /\ i < j)
      named == FoldLeft(LAMBDA a, i :
                          LET r == PrepareKey(a.st, IF ~known[i] THEN sel[i] ELSE IF tr[i].dst = "" THEN orig[i] ELSE tr[i].trim, cfg)
                          IN [st |-> r.st, n |-> (i :> r.name) @@ a.n],
                        [st |-> NameState0(cfg), n |-> <<>>], sorted)
      type == TLCEval([i \in 1..Len(sel) |-> IF known[i] THEN gtype[CK(sel[i], cfg)] ELSE ""])
      merged == FoldLeft(LAMBDA a, i :
                   IF tr[i].dst = "" /\ named.n[i] \in DOMAIN a.at
                   THEN LET j == a.at[named.n[i]] IN
                        [a EXCEPT !.cols = [@ EXCEPT ![j] = [@ EXCEPT !.type = Join2({@, type[i]} \cup (IF cfg.hasConcat THEN {"string"} ELSE {})),
                                                                     !.const = IF IsConst(sel[i]) THEN <<Drop(sel[i], 6)>> ELSE @]],
                                  !.of = Append(@, j)]
                   ELSE [cols |-> Append(a.cols, [name |-> named.n[i], orig |-> orig[i], src |-> sel[i], type |-> type[i], tr |-> tr[i],
                                                  const |-> IF IsConst(sel[i]) THEN <<Drop(sel[i], 6)>> ELSE <<>>]),
                         of |-> Append(a.of, Len(a.cols) + 1),
                         at |-> IF tr[i].dst = "" THEN (named.n[i] :> Len(a.cols) + 1) @@ a.at ELSE a.at],
                 [cols |-> <<>>, of |-> <<>>, at |-> <<>>], [i \in 1..Len(sel) |-> i])
      cols == merged.cols
      selOf == [c \in {CK(sel[i], cfg) : i \in 1..Len(sel)} |-> CHOOSE i \in 1..Len(sel) : CK(sel[i], cfg) = c]
      colOf == TLCEval([p \in {p \in Rng(live) : ck[p] \in DOMAIN selOf} |-> merged.of[selOf[ck[p]]]])
      \* Child tables, in order of appearance among the columns.
      main == SelectSeq([i \in 1..Len(cols) |-> i], LAMBDA i : cols[i].tr.dst = "")
      dsts == Dedup(SelectSeq([i \in 1..Len(cols) |-> cols[i].tr.dst], LAMBDA d : d # ""))
      kids == FoldLeft(LAMBDA a, i :
                 IF cols[i].tr.dst = "" THEN a
                 ELSE LET d == cols[i].tr.dst
                          new == d \notin DOMAIN a.k
                          s1 == IF new THEN PrepareKey(a.st, "._sequence", cfg) ELSE [st |-> a.st, name |-> ""]
                          s2 == IF new THEN PrepareKey(s1.st, "._index", cfg) ELSE [st |-> a.st, name |-> ""]
                          k0 == IF new THEN [trims |-> <<"._sequence", "._index">>, names |-> <<s1.name, s2.name>>,
                                             types |-> <<{"int"}, {}>>, cols |-> <<>>, at |-> <<>>] ELSE a.k[d]
                          t == cols[i].tr.trim
                          had == t \in Rng(k0.trims)
                          s3 == IF had THEN [st |-> s2.st, name |-> ""] ELSE PrepareKey(s2.st, t, cfg)
                          pos == IF had THEN PosIn(k0.trims, t) ELSE Len(k0.trims) + 1
                          ity == IF cols[i].tr.isInt THEN "int" ELSE "string"
                          k1 == [trims |-> IF had THEN k0.trims ELSE Append(k0.trims, t),
                                 names |-> IF had THEN k0.names ELSE Append(k0.names, s3.name),
                                 types |-> LET ts == IF had THEN k0.types ELSE Append(k0.types, {})
                                           IN [[ts EXCEPT ![2] = @ \cup {ity}] EXCEPT ![pos] = IF pos <= 2 THEN @ ELSE @ \cup {cols[i].type}],
                                 cols |-> Append(k0.cols, i), at |-> Append(k0.at, pos)]
                      IN [st |-> s3.st, k |-> (d :> k1) @@ a.k],
               [st |-> named.st, k |-> <<>>], [i \in 1..Len(cols) |-> i])
      cardOK == \A i \in 1..Len(reps) : CK(reps[i], cfg) \in DOMAIN step1.g
  IN [H |-> H, noscan |-> noscan, disc |-> disc, cols |-> cols, colOf |-> colOf, main |-> main, dsts |-> dsts, kids |-> kids.k,
      alive |-> {c \in DOMAIN alive : alive[c]}, groups |-> step1.g, live |-> live, ptype |-> ptype, sel |-> sel, of |-> merged.of,
      concat |-> cfg.hasConcat]

KidType(k, i) == Join2(k.types[i])
=============================================================================

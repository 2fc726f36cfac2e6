------------------------------- MODULE TimeFmt -------------------------------
(* Time values: parsing by a layout, instants, time zones, formatting.        *)
(* A layout is [p |-> text, toks |-> sequence of tokens]; a token is          *)
(* [f |-> field] or [l |-> literal text]. Fields: "2006" "01" "1" "Jan" "02"  *)
(* "2" "15" "03" "PM" "04" "05" ".000" ".000000" ".000000000" ".999999999"    *)
(* "Z07:00" "-07:00" "-0700".                                                 *)
EXTENDS JVal

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* Days since 1970-01-01 of the proleptic Gregorian calendar.
DaysOf(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
CivilOf(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]
WeekDay(days) == (days + 4) % 7   \* 0 = Sunday
\* Instants and local times: <<days, seconds of the day>>.
Shift(t, secs) == LET s == t[2] + secs IN <<t[1] + (s \div 86400), s % 86400>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
NthSunday(y, m, n) == LET d1 == DaysOf(y, m, 1) IN d1 + ((7 - WeekDay(d1)) % 7) + 7 * (n - 1)
LastSunday(y, m) == LET d == DaysOf(y, m, MonthLen(y, m)) IN d - WeekDay(d)

\* Offset from UTC in seconds at instant t (rules in force since 2007).
OffsetAt(tz, t) ==
  LET y == CivilOf(t[1]).y IN
  CASE tz \in {"", "UTC"} -> 0
    [] tz = "Asia/Tokyo" -> 32400
    [] tz = "Asia/Kolkata" -> 19800
    [] tz = "Europe/Berlin" ->
         IF ~Before(t, <<LastSunday(y, 3), 3600>>) /\ Before(t, <<LastSunday(y, 10), 3600>>) THEN 7200 ELSE 3600
    [] tz = "America/New_York" ->
         IF ~Before(t, <<NthSunday(y, 3, 2), 25200>>) /\ Before(t, <<NthSunday(y, 11, 1), 21600>>) THEN -14400 ELSE -18000
\* Instant of a local time: the offset is one that holds at that instant.
FromLocal(tz, l) == LET o1 == OffsetAt(tz, l)
                        o2 == OffsetAt(tz, Shift(l, -o1)) IN Shift(l, -o2)

----------------------------------------------------------------------------
Months == <<"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec">>
T0 == [ok |-> TRUE, y |-> 0, m |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0, ns |-> 0, pm |-> "", z |-> FALSE, off |-> 0]
Bad == [T0 EXCEPT !.ok = FALSE]

DigAt(s, i) == i <= Len(s) /\ Ch(s, i) \in Digits
RECURSIVE DigRun(_, _)
DigRun(s, i) == IF DigAt(s, i) THEN 1 + DigRun(s, i + 1) ELSE 0
Num(s, i, n) == ToNat(SubSeq(s, i, i + n - 1))
AllDig(s, i, n) == i + n - 1 <= Len(s) /\ \A k \in i..(i + n - 1) : Ch(s, k) \in Digits
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
FracLen(f) == Len(f) - 1
IsFrac(f) == f # "" /\ Ch(f, 1) = "."
\* Nanoseconds of the digits of a fraction (at most 9 are given).
Nanos(ds) == ToNat(ds) * Pow10(9 - Len(ds))

\* Two digits, or one if the field is not padded (0: no number here).
NumLen(s, i, padded) == IF AllDig(s, i, 2) THEN 2 ELSE IF ~padded /\ AllDig(s, i, 1) THEN 1 ELSE 0

\* Position after literal text at i, 0 if it is not there; a space stands for any number of spaces.
RECURSIVE Spaces0(_, _)
Spaces0(s, i) == IF i <= Len(s) /\ Ch(s, i) = " " THEN Spaces0(s, i + 1) ELSE i
RECURSIVE SkipLit(_, _, _, _)
SkipLit(s, i, lit, k) ==
  IF k > Len(lit) THEN i
  ELSE IF Ch(lit, k) = " " THEN (IF i <= Len(s) /\ Ch(s, i) # " " THEN 0 ELSE SkipLit(s, Spaces0(s, i), lit, Spaces0(lit, k)))
  ELSE IF i > Len(s) \/ Ch(s, i) # Ch(lit, k) THEN 0 ELSE SkipLit(s, i + 1, lit, k + 1)

RECURSIVE ParseT(_, _, _, _, _)
ParseT(toks, k, s, i, t) ==
  IF k > Len(toks) THEN (IF i = Len(s) + 1 THEN t ELSE Bad)
  ELSE LET tk == toks[k] IN
  IF Has(tk, "l") THEN (LET j == SkipLit(s, i, tk.l, 1) IN IF j = 0 THEN Bad ELSE ParseT(toks, k + 1, s, j, t))
  ELSE LET f == tk.f
           two(lo, hi, fld, padded) ==
             LET n == NumLen(s, i, padded) IN
             IF n = 0 \/ Num(s, i, n) < lo \/ Num(s, i, n) > hi THEN Bad
             ELSE ParseT(toks, k + 1, s, i + n, [t EXCEPT ![fld] = Num(s, i, n)])
       IN
       CASE f = "2006" -> IF AllDig(s, i, 4) THEN ParseT(toks, k + 1, s, i + 4, [t EXCEPT !.y = Num(s, i, 4)]) ELSE Bad
         [] f = "01" -> two(1, 12, "m", TRUE)
         [] f = "1" -> two(1, 12, "m", FALSE)
         [] f = "Jan" -> LET c == {m \in 1..12 : i + 2 <= Len(s) /\ Lower(SubSeq(s, i, i + 2)) = Lower(Months[m])} IN
                         IF c = {} THEN Bad ELSE ParseT(toks, k + 1, s, i + 3, [t EXCEPT !.m = CHOOSE m \in c : TRUE])
         [] f = "02" -> two(0, 99, "d", TRUE)
         [] f = "2" -> two(0, 99, "d", FALSE)
         [] f = "15" -> two(0, 23, "h", FALSE)
         [] f = "03" -> two(0, 12, "h", TRUE)
         [] f = "PM" -> IF i + 1 <= Len(s) /\ SubSeq(s, i, i + 1) \in {"AM", "PM"}
                        THEN ParseT(toks, k + 1, s, i + 2, [t EXCEPT !.pm = SubSeq(s, i, i + 1)]) ELSE Bad
         [] f = "04" -> two(0, 59, "mi", TRUE)
         [] f = "05" ->
              LET n == NumLen(s, i, TRUE)
                  nextFrac == k < Len(toks) /\ Has(toks[k + 1], "f") /\ IsFrac(toks[k + 1].f)
                  j == i + n
                  fr == IF ~nextFrac /\ j <= Len(s) /\ Ch(s, j) \in {".", ","} THEN DigRun(s, j + 1) ELSE 0
              IN IF n = 0 \/ Num(s, i, n) > 59 THEN Bad
                 ELSE IF fr = 0 THEN ParseT(toks, k + 1, s, j, [t EXCEPT !.s = Num(s, i, n)])
                 ELSE ParseT(toks, k + 1, s, j + 1 + fr,
                             [t EXCEPT !.s = Num(s, i, n), !.ns = Nanos(SubSeq(s, j + 1, j + (IF fr > 9 THEN 9 ELSE fr)))])
         [] IsFrac(f) /\ Ch(f, 2) = "0" ->
              IF i <= Len(s) /\ Ch(s, i) \in {".", ","} /\ AllDig(s, i + 1, FracLen(f))
              THEN ParseT(toks, k + 1, s, i + 1 + FracLen(f), [t EXCEPT !.ns = Nanos(SubSeq(s, i + 1, i + FracLen(f)))]) ELSE Bad
         [] IsFrac(f) /\ Ch(f, 2) = "9" ->
              LET fr == IF i <= Len(s) /\ Ch(s, i) \in {".", ","} THEN DigRun(s, i + 1) ELSE 0 IN
              IF fr = 0 THEN ParseT(toks, k + 1, s, i, t)
              ELSE IF fr > 9 THEN Bad
              ELSE ParseT(toks, k + 1, s, i + 1 + fr, [t EXCEPT !.ns = Nanos(SubSeq(s, i + 1, i + fr))])
         [] f \in {"Z07:00", "-07:00", "-0700"} ->
              IF f = "Z07:00" /\ i <= Len(s) /\ Ch(s, i) = "Z" THEN ParseT(toks, k + 1, s, i + 1, [t EXCEPT !.z = TRUE, !.off = 0])
              ELSE LET colon == f # "-0700"
                       w == IF colon THEN 6 ELSE 5
                       mp == IF colon THEN i + 4 ELSE i + 3
                   IN IF /\ i + w - 1 <= Len(s) /\ Ch(s, i) \in {"+", "-"} /\ AllDig(s, i + 1, 2) /\ AllDig(s, mp, 2)
                         /\ (colon => Ch(s, i + 3) = ":") /\ Num(s, i + 1, 2) <= 24 /\ Num(s, mp, 2) <= 60
                      THEN LET o == Num(s, i + 1, 2) * 3600 + Num(s, mp, 2) * 60 IN
                           ParseT(toks, k + 1, s, i + w, [t EXCEPT !.z = TRUE, !.off = IF Ch(s, i) = "-" THEN -o ELSE o])
                      ELSE Bad

Parse(lay, s) ==
  LET t == ParseT(lay.toks, 1, s, 1, T0)
      h == IF t.pm = "PM" /\ t.h < 12 THEN t.h + 12 ELSE IF t.pm = "AM" /\ t.h = 12 THEN 0 ELSE t.h
  IN IF ~t.ok \/ t.d < 1 \/ t.d > MonthLen(t.y, t.m) THEN Bad ELSE [t EXCEPT !.h = h]

RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Pad(n, w) == LET s == ToString(n) IN Zeros(w - Len(s)) \o s
ZoneText(off, f) ==
  LET a == IF off < 0 THEN -off ELSE off IN
  IF f = "Z07:00" /\ off = 0 THEN "Z"
  ELSE (IF off < 0 THEN "-" ELSE "+") \o Pad(a \div 3600, 2) \o (IF f = "-0700" THEN "" ELSE ":") \o Pad((a % 3600) \div 60, 2)
FieldText(f, l, ns, off) ==
  LET c == CivilOf(l[1])
      h == l[2] \div 3600
      h12 == IF h % 12 = 0 THEN 12 ELSE h % 12 IN
  CASE f = "2006" -> Pad(c.y, 4) [] f = "01" -> Pad(c.m, 2) [] f = "1" -> ToString(c.m) [] f = "Jan" -> Months[c.m]
    [] f = "02" -> Pad(c.d, 2) [] f = "2" -> ToString(c.d) [] f = "15" -> Pad(h, 2) [] f = "03" -> Pad(h12, 2)
    [] f = "PM" -> IF h >= 12 THEN "PM" ELSE "AM" [] f = "04" -> Pad((l[2] % 3600) \div 60, 2) [] f = "05" -> Pad(l[2] % 60, 2)
    [] IsFrac(f) /\ Ch(f, 2) = "0" -> "." \o SubSeq(Pad(ns, 9), 1, FracLen(f))
    [] IsFrac(f) /\ Ch(f, 2) = "9" -> LET x == TrimRight(SubSeq(Pad(ns, 9), 1, FracLen(f)), {"0"}) IN IF x = "" THEN "" ELSE "." \o x
    [] OTHER -> ZoneText(off, f)
RECURSIVE FormatT(_, _, _, _, _)
FormatT(toks, k, l, ns, off) == IF k > Len(toks) THEN ""
  ELSE (IF Has(toks[k], "l") THEN toks[k].l ELSE FieldText(toks[k].f, l, ns, off)) \o FormatT(toks, k + 1, l, ns, off)

\* The value s of layout f, written in the configured output layout and zone.
Retime(s, f, cfg) ==
  LET t == Parse(f, s) IN
  IF ~t.ok THEN [ok |-> FALSE, s |-> ""]
  ELSE LET l == <<DaysOf(t.y, t.m, t.d), t.h * 3600 + t.mi * 60 + t.s>>
           u == IF t.z THEN Shift(l, -t.off) ELSE FromLocal(cfg.outtz, l)
           off == IF cfg.outtz # "" THEN OffsetAt(cfg.outtz, u) ELSE IF t.z THEN t.off ELSE 0
       IN [ok |-> TRUE, s |-> FormatT(cfg.outfmt.toks, 1, Shift(u, off), t.ns, off)]
=============================================================================

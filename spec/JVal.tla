-------------------------------- MODULE JVal --------------------------------
(* Decoded JSON values and what the traversal of a value contributes.        *)
(*                                                                            *)
(* A value is a record with tag t:                                            *)
(*   "s" string  s (text), and, where known, js / url: the value of the JSON  *)
(*               text or URL that the string holds                            *)
(*   "n" number  r (digits of the source)      "b" boolean b     "z" null     *)
(*   "a" array   e (sequence of values)                                       *)
(*   "o" object  m (sequence of <<name, value>>, source order)                *)
EXTENDS Regex, SequencesExt

Has(r, f) == f \in DOMAIN r
Upto(n) == [i \in 1..n |-> i]

\* Value without annotations and without order of properties, for comparison with a decoded cell.
RECURSIVE Plain(_)
Plain(v) == CASE v.t = "s" -> [t |-> "s", s |-> v.s]
              [] v.t = "n" -> [t |-> "n", r |-> v.r]
              [] v.t = "b" -> [t |-> "b", b |-> v.b]
              [] v.t = "z" -> [t |-> "z"]
              [] v.t = "a" -> [t |-> "a", e |-> FoldLeft(LAMBDA a, x : Append(a, Plain(x)), <<>>, v.e)]
              [] v.t = "o" -> [t |-> "o", m |-> {<<v.m[i][1], Plain(v.m[i][2])>> : i \in 1..Len(v.m)}]

----------------------------------------------------------------------------
\* Number literals.
MaxInt == "9223372036854775807"
MinInt == "9223372036854775808"
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE
  ELSE LET x == DigitVal[Ch(a, i)]  y == DigitVal[Ch(b, i)] IN x < y \/ (x = y /\ LexLeq(a, b, i + 1))
IntLit(r) == LET neg == StartsWith(r, "-")
                 d == IF neg THEN Drop(r, 1) ELSE r IN
  /\ d # "" /\ AllIn(d, Digits)
  /\ LET q == TrimLeft(d, {"0"}) IN
     \/ Len(q) < 19
     \/ Len(q) = 19 /\ LexLeq(q, IF neg THEN MinInt ELSE MaxInt, 1)
Mantissa(r) == LET e == Index(r, "e")  f == Index(r, "E")
                   k == IF e # 0 THEN e ELSE f IN IF k = 0 THEN r ELSE SubSeq(r, 1, k - 1)
ZeroLit(r) == AllIn(Mantissa(r), {"0", ".", "-"})

----------------------------------------------------------------------------
(* Events. E is the traversal environment:                                    *)
(*   keep  set of paths whose containers are kept as JSON text                *)
(*   ex    all strings are checked for JSON and URL                           *)
(*   xrx   sequence of <<pattern, "JSON"/"URL">>: keys with a value format    *)
(* An event has: p path, par path of the parent, k kind, v value, z zero.     *)
Evt(p, par, k, v, z) == [p |-> p, par |-> par, k |-> k, v |-> v, z |-> z]

Idx(i) == "[" \o ToString(i) \o "]"

Format(p, E) == LET m == SelectSeq(E.xrx, LAMBDA x : RxMatch(x[1], p)) IN IF m = <<>> THEN "" ELSE m[1][2]

RECURSIVE Ev(_, _, _, _)
Inner(v, f) == IF f = "JSON" THEN v.js ELSE v.url
Expand(v, p, E) ==
  LET named == IF E.xrx = <<>> THEN "" ELSE Format(p, E)
      viaName == \/ named = "JSON" /\ Has(v, "js")
                 \/ named = "URL" /\ Has(v, "url")
      long == ByteLen(v.s) > 2
      looksJSON == long /\ Ch(v.s, 1) \in {"{", "["}
      f == IF viaName THEN named
           ELSE IF ~E.ex THEN ""
           ELSE IF looksJSON /\ Has(v, "js") THEN "JSON"
           ELSE IF long /\ Has(v, "url") /\ HasText(v.s, "://") THEN "URL"
           ELSE ""
  IN IF f = "" THEN <<>> ELSE Ev(Inner(v, f), p \o "." \o f, p, E)

Ev(v, p, par, E) ==
  CASE v.t = "s" -> <<Evt(p, par, "str", v, v.s = "")>> \o (IF E.ex \/ E.xrx # <<>> THEN Expand(v, p, E) ELSE <<>>)
    [] v.t = "n" -> <<Evt(p, par, IF IntLit(v.r) THEN "int" ELSE "float", v, ZeroLit(v.r))>>
    [] v.t = "b" -> <<Evt(p, par, "bool", v, ~v.b)>>
    [] v.t = "z" -> <<Evt(p, par, "null", v, TRUE)>>
    [] v.t = "bad" -> <<Evt(p, par, "bad", v, FALSE)>>
    [] v.t = "a" -> (IF p = "" THEN <<>> ELSE <<Evt(p, par, "arr", v, FALSE)>>) \o
                    (IF p \in E.keep THEN <<Evt(p, par, "keep", v, FALSE)>>
                     ELSE FoldLeft(LAMBDA es, i : es \o Ev(v.e[i], p \o "." \o Idx(i - 1), p, E), <<>>, Upto(Len(v.e))))
    [] v.t = "o" -> (IF p = "" THEN <<>> ELSE <<Evt(p, par, "obj", v, FALSE)>>) \o
                    (IF p \in E.keep THEN <<Evt(p, par, "keep", v, FALSE)>>
                     ELSE FoldLeft(LAMBDA es, m : es \o Ev(m[2], p \o "." \o m[1], p, E), <<>>, v.m))

Scalar(e) == e.k \notin {"arr", "obj"}
=============================================================================

-------------------------------- MODULE Regex --------------------------------
(* Leftmost-first regular expressions over syntax trees.                      *)
(*   [o |-> "lit", c |-> "x"]           one character                         *)
(*   [o |-> "cls", s |-> "abc", n |-> FALSE]  class (n: negated)              *)
(*   [o |-> "any"]                      any character but newline             *)
(*   [o |-> "cat", a |-> <<...>>]  [o |-> "alt", a |-> <<...>>]               *)
(*   [o |-> "rep", lo, hi (-1: unbounded), z |-> lazy, a |-> node]            *)
(*   [o |-> "grp", i |-> number, a |-> node]   [o |-> "bol"]  [o |-> "eol"]   *)
EXTENDS Text

Fail == [ok |-> FALSE, end |-> 0, caps |-> <<>>]

\* st: nodes still to match at position i (1-based), caps: group -> <<from, to)>>.
RECURSIVE RM(_, _, _, _)
RECURSIVE RAlt(_, _, _, _, _)
RM(st, s, i, caps) ==
  IF st = <<>> THEN [ok |-> TRUE, end |-> i, caps |-> caps]
  ELSE LET n == Head(st)  rest == Tail(st) IN
  CASE n.o = "lit" -> IF i <= Len(s) /\ Ch(s, i) = n.c THEN RM(rest, s, i + 1, caps) ELSE Fail
    [] n.o = "cls" -> IF i <= Len(s) /\ (HasCh(n.s, Ch(s, i)) # n.n) THEN RM(rest, s, i + 1, caps) ELSE Fail
    [] n.o = "any" -> IF i <= Len(s) /\ Ch(s, i) # "\n" THEN RM(rest, s, i + 1, caps) ELSE Fail
    [] n.o = "bol" -> IF i = 1 THEN RM(rest, s, i, caps) ELSE Fail
    [] n.o = "eol" -> IF i = Len(s) + 1 THEN RM(rest, s, i, caps) ELSE Fail
    [] n.o = "cat" -> RM(n.a \o rest, s, i, caps)
    [] n.o = "alt" -> RAlt(n.a, rest, s, i, caps)
    [] n.o = "grp" -> RM(<<n.a, [o |-> "end", i |-> n.i, f |-> i]>> \o rest, s, i, caps)
    [] n.o = "end" -> RM(rest, s, i, (n.i :> <<n.f, i>>) @@ caps)
    [] n.o = "adv" -> IF i > n.f THEN RM(rest, s, i, caps) ELSE Fail
    [] n.o = "rep" ->
         IF n.lo > 0 THEN RM(<<n.a, [n EXCEPT !.lo = @ - 1, !.hi = IF @ < 0 THEN @ ELSE @ - 1]>> \o rest, s, i, caps)
         ELSE IF n.hi = 0 THEN RM(rest, s, i, caps)
         ELSE LET more == RM(<<n.a, [o |-> "adv", f |-> i], [n EXCEPT !.hi = IF @ < 0 THEN @ ELSE @ - 1]>> \o rest, s, i, caps)
                  less == RM(rest, s, i, caps) IN
              IF n.z THEN (IF less.ok THEN less ELSE more) ELSE (IF more.ok THEN more ELSE less)
RAlt(as, rest, s, i, caps) ==
  IF as = <<>> THEN Fail
  ELSE LET r == RM(<<Head(as)>> \o rest, s, i, caps) IN IF r.ok THEN r ELSE RAlt(Tail(as), rest, s, i, caps)

RECURSIVE RFind(_, _, _)
RFind(n, s, i) == IF i > Len(s) + 1 THEN [ok |-> FALSE, from |-> 0, end |-> 0, caps |-> <<>>]
  ELSE LET r == RM(<<n>>, s, i, <<>>) IN
       IF r.ok THEN [ok |-> TRUE, from |-> i, end |-> r.end, caps |-> r.caps] ELSE RFind(n, s, i + 1)

CapText(r, g, s) == IF g \in DOMAIN r.caps THEN SubSeq(s, r.caps[g][1], r.caps[g][2] - 1) ELSE ""

\* A pattern that starts with a dot is a key with stars, unless it is anchored.
IsStar(p) == p # "" /\ Ch(p, 1) = "." /\ ~EndsWith(p, "$")
NotDots == [o |-> "rep", lo |-> 1, hi |-> -1, z |-> FALSE, a |-> [o |-> "cls", s |-> ".", n |-> TRUE]]
RECURSIVE StarNodes(_, _, _)
StarNodes(p, i, g) == IF i > Len(p) THEN <<>>
  ELSE IF Ch(p, i) = "*" THEN <<[o |-> "grp", i |-> g, a |-> NotDots]>> \o StarNodes(p, i + 1, g + 1)
  ELSE <<[o |-> "lit", c |-> Ch(p, i)]>> \o StarNodes(p, i + 1, g)
StarAst(p) == [o |-> "cat", a |-> <<[o |-> "bol"]>> \o StarNodes(p, 1, 1) \o <<[o |-> "eol"]>>]
RECURSIVE CountCh(_, _, _)
CountCh(s, c, i) == IF i > Len(s) THEN 0 ELSE (IF Ch(s, i) = c THEN 1 ELSE 0) + CountCh(s, c, i + 1)

\* rx is [p |-> pattern text, ast |-> tree, g |-> number of groups].
Ast(rx) == IF IsStar(rx.p) THEN StarAst(rx.p) ELSE rx.ast
Groups(rx) == IF IsStar(rx.p) THEN CountCh(rx.p, "*", 1) ELSE rx.g
RxMatch(rx, s) == RFind(Ast(rx), s, 1).ok
RxCaps(rx, s) == LET r == RFind(Ast(rx), s, 1) IN [g \in 1..Groups(rx) |-> CapText(r, g, s)]

\* Captures of all successive matches.
RECURSIVE RxAll(_, _, _)
RxAll(rx, s, i) == LET r == RFind(Ast(rx), s, i) IN
  IF i > Len(s) \/ ~r.ok THEN <<>>
  ELSE <<[g \in 1..rx.g |-> CapText(r, g, s)]>> \o RxAll(rx, s, IF r.end > r.from THEN r.end ELSE r.end + 1)
=============================================================================

-------------------------------- MODULE Text --------------------------------
(* Strings at the level of characters, as far as key paths, column names and *)
(* cut values need them.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

UpperStr == "ABCDEFGHIJKLMNOPQRSTUVWXYZÄÉÑЖ"
LowerStr == "abcdefghijklmnopqrstuvwxyzäéñж"
LowerTab == [c \in {Ch(UpperStr, i) : i \in 1..Len(UpperStr)} |->
             LET i == CHOOSE i \in 1..Len(UpperStr) : Ch(UpperStr, i) = c IN Ch(LowerStr, i)]
Uppers == {Ch(UpperStr, i) : i \in 1..26}
Lowers == {Ch(LowerStr, i) : i \in 1..26}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [c \in Digits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Alnum == Uppers \cup Lowers \cup Digits
Spaces == {" ", "\t", "\n", "\r", "\f"}

LowerCh(c) == IF c \in DOMAIN LowerTab THEN LowerTab[c] ELSE c

RECURSIVE LowerIn(_, _, _)
LowerIn(s, a, b) == IF a > b THEN "" ELSE IF a = b THEN LowerCh(Ch(s, a))
                    ELSE LET m == (a + b) \div 2 IN LowerIn(s, a, m) \o LowerIn(s, m + 1, b)
Lower(s) == LowerIn(s, 1, Len(s))

\* Position of character c in s at or after i, 0 if there is none.
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE IndexFrom(s, c, i + 1)
Index(s, c) == IndexFrom(s, c, 1)
HasCh(s, c) == Index(s, c) # 0

RECURSIVE Find(_, _, _)
Find(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN 0
                 ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i ELSE Find(s, t, i + 1)
HasText(s, t) == Find(s, t, 1) # 0

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, i) == LET j == IndexFrom(s, c, i) IN
  IF j = 0 THEN <<SubSeq(s, i, Len(s))>> ELSE <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, c, j + 1)
Split(s, c) == SplitFrom(s, c, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, d, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o d \o JoinFrom(ss, d, i + 1)
Join(ss, d) == JoinFrom(ss, d, 1)

RECURSIVE SubstFrom(_, _, _, _)
SubstFrom(s, a, b, i) == LET j == Find(s, a, i) IN
  IF j = 0 THEN SubSeq(s, i, Len(s)) ELSE SubSeq(s, i, j - 1) \o b \o SubstFrom(s, a, b, j + Len(a))
Subst(s, a, b) == SubstFrom(s, a, b, 1)

RECURSIVE TrimLeft(_, _)
TrimLeft(s, S) == IF s # "" /\ Ch(s, 1) \in S THEN TrimLeft(Drop(s, 1), S) ELSE s
RECURSIVE TrimRight(_, _)
TrimRight(s, S) == IF s # "" /\ Ch(s, Len(s)) \in S THEN TrimRight(SubSeq(s, 1, Len(s) - 1), S) ELSE s
Trim(s, S) == TrimLeft(TrimRight(s, S), S)

AllIn(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S

\* Length in bytes of the characters that the generators use (UTF-8).
CtlStr == ""
ASCII == Alnum \cup Spaces \cup {"!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",":",";","<","=",">","?",
                                 "@","[","\\","]","^","_","`","{","|","}","~"} \cup {Ch(CtlStr, i) : i \in 1..Len(CtlStr)}
TwoByteStr == "٠١٢٣٤٥٦٧٨٩ÀÁÂÃÄÅÆÇÈÉÊËÌÍÎÏÐÑÒÓÔÕÖ×ØÙÚÛÜÝÞßàáâãäåæçèéêëìíîïðñòóôõö÷øùúûüýþÿΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩΪΫάέήίΰαβγδεζηθικλμνξοπρςστυφχψωАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯабвгдежзийклмнопрстуфхцчшщъыьэюя"
\* A character of another plane has two halves, here counted as two bytes each, and is not divided.
AstralStr == "😀🎉𝄞𐍈"
Highs == {Ch(AstralStr, 2 * i - 1) : i \in 1..4}
TwoByte == {Ch(TwoByteStr, i) : i \in 1..Len(TwoByteStr)} \cup {Ch(AstralStr, i) : i \in 1..8}
ChBytes(c) == IF c \in ASCII THEN 1 ELSE IF c \in TwoByte THEN 2 ELSE 3
RECURSIVE BytesIn(_, _, _)
BytesIn(s, a, b) == IF a > b THEN 0 ELSE IF a = b THEN ChBytes(Ch(s, a))
                    ELSE LET m == (a + b) \div 2 IN BytesIn(s, a, m) + BytesIn(s, m + 1, b)
ByteLen(s) == BytesIn(s, 1, Len(s))

\* Longest prefix of whole characters that fits n bytes.
RECURSIVE FitFrom(_, _, _)
FitFrom(s, n, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) \in Highs THEN (IF n < 4 THEN "" ELSE SubSeq(s, i, i + 1) \o FitFrom(s, n - 4, i + 2))
  ELSE IF ChBytes(Ch(s, i)) > n THEN "" ELSE Ch(s, i) \o FitFrom(s, n - ChBytes(Ch(s, i)), i + 1)
CutBytes(s, n) == IF n = 0 THEN s ELSE FitFrom(s, n, 1)

\* Decimal number of a string of digits.
RECURSIVE NatFrom(_, _, _)
NatFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NatFrom(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
ToNat(s) == NatFrom(s, 1, 0)

----------------------------------------------------------------------------
(* snake_case, as applied to automatic names.                                *)
RECURSIVE LowerRun(_, _)
LowerRun(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Lowers THEN 1 + LowerRun(s, i + 1) ELSE 0

RECURSIVE FirstCap(_, _)   \* (.)([A-Z][a-z]+) -> $1_$2
FirstCap(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF i + 2 <= Len(s) /\ Ch(s, i) # "\n" /\ Ch(s, i + 1) \in Uppers /\ Ch(s, i + 2) \in Lowers
       THEN LET n == LowerRun(s, i + 2) IN
            Ch(s, i) \o "_" \o SubSeq(s, i + 1, i + 1 + n) \o FirstCap(s, i + 2 + n)
       ELSE Ch(s, i) \o FirstCap(s, i + 1)

RECURSIVE AllCap(_, _)     \* ([a-z0-9])([A-Z]) -> $1_$2
AllCap(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF i + 1 <= Len(s) /\ Ch(s, i) \in (Lowers \cup Digits) /\ Ch(s, i + 1) \in Uppers
       THEN Ch(s, i) \o "_" \o Ch(s, i + 1) \o AllCap(s, i + 2)
       ELSE Ch(s, i) \o AllCap(s, i + 1)

Kept == Alnum \cup Spaces \cup {"(", ")"}
RECURSIVE Punct(_, _, _)   \* runs of other characters -> _
Punct(s, i, in) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) \in Kept THEN Ch(s, i) \o Punct(s, i + 1, FALSE)
  ELSE IF in THEN Punct(s, i + 1, TRUE) ELSE "_" \o Punct(s, i + 1, TRUE)

Snake(s) == LET p == Punct(AllCap(FirstCap(s, 1), 1), 1, FALSE) IN
            Lower(Trim(Subst(p, "_ ", " "), {"_"}))
=============================================================================

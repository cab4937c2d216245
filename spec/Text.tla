-------------------------------- MODULE Text --------------------------------
(* Text as TLC strings: the operations the flatland naming, parsing and       *)
(* rendering rules are written in.                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == "~"                      \* the absent name / absent key

Ch(s, i)          == SubSeq(s, i, i)
Take(s, n)        == SubSeq(s, 1, n)
Drop(s, n)        == SubSeq(s, n + 1, Len(s))
StartsWith(s, p)  == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)    == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Chars(s)          == [i \in 1..Len(s) |-> Ch(s, i)]
Contains(s, p)    == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
CountOf(s, c)     == Cardinality({i \in 1..Len(s) : Ch(s, i) = c})

RECURSIVE JoinFrom(_, _, _)
JoinFrom(parts, sep, i) ==
  IF i > Len(parts) THEN ""
  ELSE IF i = Len(parts) THEN parts[i]
  ELSE parts[i] \o sep \o JoinFrom(parts, sep, i + 1)
Join(parts, sep) == JoinFrom(parts, sep, 1)
Concat(parts)    == Join(parts, "")

(* index of the first occurrence of p in s at or after i, 0 when absent *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
  ELSE FindFrom(s, p, i + 1)
Find(s, p) == FindFrom(s, p, 1)

(* str.split(sep), sep # "" *)
RECURSIVE SplitBy(_, _)
SplitBy(s, sep) ==
  LET i == Find(s, sep) IN
  IF i = 0 THEN <<s>>
  ELSE <<Take(s, i - 1)>> \o SplitBy(Drop(s, i + Len(sep) - 1), sep)

RECURSIVE ReplaceChars(_, _, _)
(* map every character through the function f (domain: single characters) *)
ReplaceChars(s, f, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF Ch(s, i) \in DOMAIN f THEN f[Ch(s, i)] ELSE Ch(s, i)) \o ReplaceChars(s, f, i + 1)
Translate(s, f) == ReplaceChars(s, f, 1)

Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [c \in Digits |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
     [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits

(* length of the maximal prefix of s over the character set cs, from i *)
RECURSIVE SpanFrom(_, _, _)
SpanFrom(s, cs, i) == IF i <= Len(s) /\ Ch(s, i) \in cs THEN SpanFrom(s, cs, i + 1) ELSE i - 1
Span(s, cs) == SpanFrom(s, cs, 1)

Space == {" ", "\t", "\n", "\r", "\f"}
RECURSIVE LStripSet(_, _)
LStripSet(s, cs) == IF s # "" /\ Ch(s, 1) \in cs THEN LStripSet(Drop(s, 1), cs) ELSE s
RECURSIVE RStripSet(_, _)
RStripSet(s, cs) == IF s # "" /\ Ch(s, Len(s)) \in cs THEN RStripSet(Take(s, Len(s) - 1), cs) ELSE s
StripSet(s, cs) == RStripSet(LStripSet(s, cs), cs)
Strip(s) == StripSet(s, Space)

(* decimal numerals *)
StripZeros(s) == LET t == LStripSet(s, {"0"}) IN IF t = "" THEN "0" ELSE t
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(Take(s, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]
SmallInt(s) == IF StartsWith(s, "-") THEN 0 - NatOf(Drop(s, 1)) ELSE NatOf(s)
(* canonical integer text of a Python int() literal, "" when malformed *)
IntText(raw) ==
  LET s == raw
      sg == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN Ch(s, 1) ELSE ""
      d == IF sg = "" THEN s ELSE Drop(s, 1)
  IN IF ~AllDigits(d) THEN ""
     ELSE LET z == StripZeros(d) IN IF sg = "-" /\ z # "0" THEN "-" \o z ELSE z
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
(* "%0<w>i" % n for the canonical integer text n *)
PadInt(n, w) ==
  IF StartsWith(n, "-") THEN "-" \o Zeros(w - Len(n)) \o Drop(n, 1)
  ELSE Zeros(w - Len(n)) \o n

(* numeric order of canonical non-negative numerals of any length *)
RECURSIVE DigitsLess(_, _, _)
DigitsLess(a, b, i) ==
  IF i > Len(a) THEN FALSE
  ELSE IF Ch(a, i) = Ch(b, i) THEN DigitsLess(a, b, i + 1)
  ELSE DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)]
NumLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DigitsLess(a, b, 1))

(* generic sequence helpers *)
RECURSIVE FlattenSeq2(_, _)
FlattenSeq2(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlattenSeq2(ss, i + 1)
FlatSeq(ss) == FlattenSeq2(ss, 1)
Range2(s) == {s[i] : i \in 1..Len(s)}
IndexIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
                 ELSE 0
Filter(s, P(_)) == SelectSeq(s, P)
RemoveAtIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAtIdx(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================

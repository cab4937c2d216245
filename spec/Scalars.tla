------------------------------ MODULE Scalars ------------------------------
(* Adaptation of Python values by the scalar element types.                   *)
(*                                                                            *)
(* A Python value is [t |-> kind, s |-> unicode(value), tr |-> bool(value),   *)
(* ks |-> mapping keys, l |-> members, num |-> parse facts].  Native values   *)
(* are canonical text: "n:" None, "s:.." text, "i:.." integer, "b:0|1", ...   *)
EXTENDS Text

NoVal == "n:"

(* one adaptation outcome *)
Ok(v, u)  == [ok |-> TRUE, v |-> v, u |-> u]
Refused(pv) == [ok |-> FALSE, v |-> NoVal, u |-> IF pv.t = "n" THEN "" ELSE pv.s]

(* what unicode.strip() leaves; recorded where more than ASCII may be stripped *)
Stripped(pv) == IF "st" \in DOMAIN pv THEN pv.st ELSE Strip(pv.s)

(* pv.t = "y": bytes that do not decode to text *)
AdaptString(sc, pv) ==
  IF pv.t = "n" THEN Ok(NoVal, "")
  ELSE IF pv.t = "y" THEN Refused(pv)
  ELSE LET x == IF sc.strip THEN Stripped(pv) ELSE pv.s IN Ok("s:" \o x, x)

Negative(n) == StartsWith(n, "-")

IntOf(pv) ==
  CASE "ii" \in DOMAIN pv -> IF pv.ii.ok THEN pv.ii.v ELSE ""
    [] pv.t = "s" -> IntText(Strip(pv.s))
    [] pv.t = "i" -> pv.s
    [] pv.t = "b" -> IF pv.tr THEN "1" ELSE "0"
    [] OTHER      -> ""
AdaptInt(sc, pv) ==
  IF pv.t = "n" THEN Ok(NoVal, "")
  ELSE LET n == IntOf(pv) IN
       IF n = "" THEN Refused(pv)
       ELSE IF ~sc.signed /\ Negative(n) THEN Refused(pv)
       ELSE Ok("i:" \o n, PadInt(n, sc.w))

AdaptBool(sc, pv) ==
  IF pv.t \notin {"s", "y"}
  THEN IF pv.tr THEN Ok("b:1", sc.true) ELSE Ok("b:0", sc.false)
  ELSE IF pv.t = "y" THEN Refused(pv)
  ELSE IF pv.s = sc.true \/ pv.s \in Range2(sc.tsyn) THEN Ok("b:1", sc.true)
  ELSE IF pv.s = sc.false \/ pv.s \in Range2(sc.fsyn) THEN Ok("b:0", sc.false)
  ELSE Refused(pv)

(* calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
ValidDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
ValidTime(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
N(s, a, b) == NatOf(SubSeq(s, a, b))
DateShape(s) == /\ Len(s) = 10 /\ Ch(s, 5) = "-" /\ Ch(s, 8) = "-"
                /\ AllDigits(SubSeq(s,1,4)) /\ AllDigits(SubSeq(s,6,7)) /\ AllDigits(SubSeq(s,9,10))
TimeShape(s) == /\ Len(s) = 8 /\ Ch(s, 3) = ":" /\ Ch(s, 6) = ":"
                /\ AllDigits(SubSeq(s,1,2)) /\ AllDigits(SubSeq(s,4,5)) /\ AllDigits(SubSeq(s,7,8))
DateOk(s) == DateShape(s) /\ ValidDate(N(s,1,4), N(s,6,7), N(s,9,10))
TimeOk(s) == TimeShape(s) /\ ValidTime(N(s,1,2), N(s,4,5), N(s,7,8))
DateTimeOk(s) == /\ Len(s) = 19 /\ Ch(s, 11) = " " /\ DateOk(Take(s, 10)) /\ TimeOk(Drop(s, 11))

(* temporal Python values are passed with pv.s their ISO rendering to the     *)
(* precision of the type, pv.t their type                                     *)
AdaptTemporal(sc, pv) ==
  LET tag == sc.k
      mine == CASE tag = "date" -> pv.t \in {"date", "dt"}
                [] tag = "time" -> pv.t = "time"
                [] OTHER        -> pv.t = "dt"
      good(s) == CASE tag = "date" -> DateOk(s) [] tag = "time" -> TimeOk(s) [] OTHER -> DateTimeOk(s)
  IN IF pv.t = "n" THEN Ok(NoVal, "")
     ELSE IF mine THEN Ok(pv.t \o ":" \o pv.full,
                          IF tag = "date" THEN Take(pv.full, 10)
                          ELSE IF tag = "time" THEN Take(pv.full, 8) ELSE Take(pv.full, 19))
     ELSE IF pv.t = "s"
     THEN LET x == IF sc.strip THEN Stripped(pv) ELSE pv.s IN
          IF good(x) THEN Ok((IF tag = "datetime" THEN "dt" ELSE tag) \o ":" \o x, x) ELSE Refused(pv)
     ELSE Refused(pv)

(* Float and Decimal: which texts denote a number, and how it prints, are     *)
(* facts about Python recorded with the value (num = <<ok, value, negative,   *)
(* formatted>>); the element's own rules are stated here.                     *)
AdaptReal(sc, pv) ==
  IF pv.t = "n" THEN Ok(NoVal, "")
  ELSE LET f == IF sc.k = "float" THEN pv.fl ELSE pv.dec IN
       \* a number that Python itself cannot print is none
       IF ~f.ok \/ f.fmt = "?" THEN Refused(pv)
       ELSE IF ~sc.signed /\ f.neg THEN Refused(pv)
       ELSE Ok((IF sc.k = "float" THEN "f:" ELSE "c:") \o f.v, f.fmt)

Plain(sc, pv) ==
  CASE sc.k = "str"  -> AdaptString(sc, pv)
    [] sc.k = "int"  -> AdaptInt(sc, pv)
    [] sc.k = "long" -> AdaptInt(sc, pv)
    [] sc.k = "bool" -> AdaptBool(sc, pv)
    [] sc.k \in {"float", "dec"} -> AdaptReal(sc, pv)
    [] sc.k \in {"date", "time", "datetime"} -> AdaptTemporal(sc, pv)

(* Enum: the child type adapts, then the value must be a declared one *)
AdaptEnum(sc, pv) ==
  LET a == Plain(sc.kids[1], pv) IN
  IF a.ok /\ a.v \in Range2(sc.vals) THEN a ELSE Refused(pv)

(* Constrained: the same with a predicate in place of the declared values     *)
Admits(pred, v) ==
  CASE pred = "even"    -> StartsWith(v, "i:") /\ Ch(v, Len(v)) \in {"0", "2", "4", "6", "8"}
    [] pred = "short"   -> v # NoVal /\ Len(v) <= 5
    [] pred = "notnone" -> v # NoVal
    [] pred = "always"  -> TRUE
    [] OTHER            -> FALSE
AdaptConstrained(sc, pv) ==
  LET a == Plain(sc.kids[1], pv) IN
  IF a.ok /\ Admits(sc.pred, a.v) THEN a ELSE Refused(pv)

Adapt(sc, pv) == CASE sc.k = "enum" -> AdaptEnum(sc, pv)
                   [] sc.k = "constr" -> AdaptConstrained(sc, pv)
                   [] OTHER -> Plain(sc, pv)

(* serialize(): native values are formatted, any other value is unicode(value)*)
RECURSIVE Serialize(_, _)
Serialize(sc, pv) ==
  CASE sc.k = "str"  -> IF pv.t = "n" THEN "" ELSE IF sc.strip THEN Stripped(pv) ELSE pv.s
    [] sc.k \in {"int", "long"} -> IF pv.t = "i" THEN PadInt(pv.s, sc.w) ELSE pv.s
    [] sc.k = "bool" -> IF pv.tr THEN sc.true ELSE sc.false
    [] sc.k = "float" -> IF pv.t = "f" THEN pv.fl.fmt ELSE pv.s
    [] sc.k = "dec"  -> IF pv.t = "c" THEN pv.dec.fmt ELSE pv.s
    [] sc.k = "date" -> IF pv.t \in {"date", "dt"} THEN Take(pv.full, 10) ELSE pv.s
    [] sc.k = "time" -> IF pv.t = "time" THEN Take(pv.full, 8) ELSE pv.s
    [] sc.k = "datetime" -> IF pv.t = "dt" THEN Take(pv.full, 19) ELSE pv.s
    [] OTHER -> Serialize(sc.kids[1], pv)

ScalarKinds == {"str", "int", "long", "bool", "float", "dec", "date", "time", "datetime", "enum", "constr"}
TextPV(x) == [t |-> "s", s |-> x, tr |-> x # "", ks |-> <<>>, l |-> <<>>]
NonePV    == [t |-> "n", s |-> "None", tr |-> FALSE, ks |-> <<>>, l |-> <<>>]
=============================================================================

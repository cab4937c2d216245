------------------------------ MODULE MCNumbers ------------------------------
(* Card numbers made of a head, filling and a right or wrong check digit,     *)
(* written in many ways, and phone numbers put together from pieces.          *)
EXTENDS Formats, Json

CONSTANTS Heads, Fills, Lengths, Styles, Pieces, MostPieces
VARIABLES what, cf, pieces
vars == <<what, cf, pieces>>

Kinds == <<"Visa", "MasterCard", "American Express", "Discover">>
Accepts == {<<Kinds[i]>> : i \in 1..4} \cup {<<Kinds[i], Kinds[j]>> : i \in 1..2, j \in 3..4} \cup {<<"Visa", "MasterCard", "American Express">>, Kinds}
Init == \/ what = "card" /\ cf \in {[accepted |-> a, ext |-> ""] : a \in Accepts} /\ pieces = <<>>
        \/ what = "phone" /\ cf \in {[accepted |-> <<>>, ext |-> e] : e \in {"no", "yes", "strip"}} /\ pieces = <<>>
Repeat(d, n) == Concat([i \in 1..n |-> d])
CheckDigit(s) == CHOOSE d \in Digits : Luhn(s \o d)
Body(head, fill, n) == IF n - 1 > Len(head) THEN head \o Repeat(fill, n - 1 - Len(head)) ELSE head
Written(style, s) ==
  CASE style = "dashed" -> CardText(s)
    [] style = "blanks" -> Translate(CardText(s), [c \in {"-"} |-> " "])
    [] style = "newline" -> s \o "\n"
    [] style = "letter" -> s \o "x"
    [] style = "zero" -> "0" \o s
    [] style = "short" -> IF Len(s) < 14 THEN s ELSE Take(s, 14)
    [] OTHER -> s                    \* "text", "int"
(* a card's pieces: its number, how it is written                             *)
Next ==
  /\ UNCHANGED <<what, cf>>
  /\ IF what = "phone" THEN Len(pieces) < MostPieces /\ \E x \in Pieces : pieces' = Append(pieces, x)
     ELSE CASE pieces = <<>> -> \E h \in Heads, f \in Fills, n \in Lengths, ok \in BOOLEAN :
                 LET b == Body(h, f, n) d == CheckDigit(b) IN pieces' = <<b \o (IF ok THEN d ELSE IF d = "7" THEN "2" ELSE "7")>>
            [] Len(pieces) = 1 -> \E s \in Styles : pieces' = Append(pieces, s)
            [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars

Ready == IF what = "card" THEN Len(pieces) = 2 ELSE pieces # <<>>
IsInt == pieces[2] = "int"
Raw == IF what = "phone" THEN Concat(pieces) ELSE IF IsInt THEN StripZeros(pieces[1]) ELSE Written(pieces[2], pieces[1])
Adapts == IsInt \/ CardAdapts(Raw)
N == IF ~Adapts THEN Nil ELSE IF IsInt THEN Raw ELSE CardNumber(Raw)
U == IF Adapts THEN CardText(N) ELSE Raw
Judged(a, n) == CardRule(a, n, IF n = Nil THEN Raw ELSE CardText(n))
C == Ready /\ what = "card"
(* a number written out is read back as itself                                *)
WrittenOut == (C /\ Adapts /\ Len(N) >= 15) => CardAdapts(U) /\ CardNumber(U) = N /\ CardText(CardNumber(U)) = U
(* an accepted number with one digit wrong is refused                         *)
With(s, i, d) == Take(s, i - 1) \o d \o Drop(s, i)
OneWrong == (C /\ N # Nil /\ Judged(cf.accepted, N) = "") => \A i \in 1..Len(N) : \A d \in Digits \ {Ch(N, i)} : CardRule(cf.accepted, With(N, i, d), U) # ""
(* a right number of a known kind is accepted by exactly those who take it    *)
Kind == (C /\ N # Nil /\ Luhn(N)) => (Judged(cf.accepted, N) = "" <=> CardType(N) \in Range2(cf.accepted))
WidestKind == (C /\ Judged(cf.accepted, N) = "") => Judged(Kinds, N) = ""
(* a phone number put in its form is accepted again as it is                  *)
Ph == Ready /\ what = "phone" /\ PhoneRule(cf.ext, Raw) = ""
D == DigitsOf(Raw)
Settled == (Ph /\ Ch(Drop(D, 10) \o " ", 1) # "0") =>
  LET p == Phone(cf.ext, Raw) IN PhoneRule(cf.ext, p) = "" /\ Phone(cf.ext, p) = p
Kept10 == Ph => LET p == DigitsOf(Phone(cf.ext, Raw)) IN StartsWith(p, Take(D, 10)) /\ (cf.ext # "yes" => Len(p) = 10)
TenDigits == (Ready /\ what = "phone") => (Ph <=> Len(D) = 10 \/ (Len(D) > 10 /\ cf.ext # "no"))
Emitted == Ready => PrintT("RUN " \o ToJson(
  IF what = "card" THEN [o |-> "card", kind |-> IF IsInt THEN "int" ELSE "text", raw |-> Raw, accepted |-> cf.accepted]
  ELSE [o |-> "check", v |-> "NANPphone", cf |-> [ext |-> cf.ext], value |-> Raw, msgs |-> <<"invalid", "noext">>]))
=============================================================================

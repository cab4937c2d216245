------------------------------ MODULE MCFormats ------------------------------
(* URLs and e-mail addresses put together from parts, and checksummed numbers *)
(* digit by digit, under every small configuration of their validators.       *)
EXTENDS Formats, Json

CONSTANTS Schemes, Nets, Paths, Params, Queries, Fragments, Soup, SoupLen,
          Locals, Ats, Labels, MaxLabels, LuhnLen
VARIABLES name, cf, pieces
vars == <<name, cf, pieces>>

Base == [allowed |-> <<"*">>, parts |-> Six, all |-> DefaultHTTP.all, required |-> <<>>, forbidden |-> <<>>, default |-> FALSE, discard |-> <<>>,
         localpat |-> "", domainpat |-> "", nonlocal |-> TRUE, ext |-> "no"]
Wanted == [any |-> TRUE, of |-> <<>>]
Of(s) == [any |-> FALSE, of |-> s]
All == DefaultHTTP.all
Without(i) == SubSeq(Six, 1, i - 1) \o SubSeq(Six, i + 1, 6)
URLSetups ==
  {<<"URLValidator", [Base EXCEPT !.allowed = a, !.parts = p]>> :
      a \in {<<"*">>, <<"http">>, <<"http", "ftp">>, <<>>}, p \in {Six, <<"scheme", "netloc">>} \cup {Without(i) : i \in 1..6}}
  \cup {<<"HTTPURLValidator", [Base EXCEPT !.default = TRUE]>>, <<"HTTPURLValidator", Base>>}
  \cup {<<"HTTPURLValidator", [Base EXCEPT !.required = << <<All[i], Wanted>> >>]>> : i \in 1..9}
  \cup {<<"HTTPURLValidator", [Base EXCEPT !.forbidden = << <<All[i], Wanted>> >>]>> : i \in 1..9}
  \cup {<<"HTTPURLValidator", [Base EXCEPT !.required = << <<"port", Of(<<"80">>)>> >>, !.forbidden = << <<"path", Of(<<"/p">>)>> >>]>>}
  \cup {<<"URLCanonicalizer", [Base EXCEPT !.discard = d]>> : d \in {<<>>, <<"fragment", "query">>, <<"fragment", "netloc">>, Six} \cup {<<Six[i]>> : i \in 1..6}}
SoupSetups == {<<"URLValidator", Base>>, <<"HTTPURLValidator", [Base EXCEPT !.default = TRUE]>>, <<"HTTPURLValidator", Base>>,
               <<"URLCanonicalizer", [Base EXCEPT !.discard = <<"fragment">>]>>, <<"URLCanonicalizer", [Base EXCEPT !.discard = <<"netloc">>]>>}
EmailSetups == {<<"IsEmail", [Base EXCEPT !.localpat = a, !.domainpat = b, !.nonlocal = c]>> : a \in {"", "bob", "letters", "prefix"}, b \in {"", "tld"}, c \in BOOLEAN}

Stages == <<Schemes, Nets, Paths, Params, Queries, Fragments>>
(* cut into parts, or a soup of pieces: the first piece tells which           *)
Init == \/ \E s \in URLSetups : name = s[1] /\ cf = s[2] /\ pieces = <<>>
        \/ \E s \in SoupSetups : name = s[1] /\ cf = s[2] /\ pieces = <<"~soup">>
        \/ \E s \in EmailSetups : name = s[1] /\ cf = s[2] /\ pieces = <<>>
        \/ name = "Luhn10" /\ cf = Base /\ pieces = <<>>
Souped == pieces # <<>> /\ pieces[1] = "~soup"
Put(s) == \E x \in s : pieces' = Append(pieces, x)
Next ==
  /\ UNCHANGED <<name, cf>>
  /\ CASE Souped -> Len(pieces) <= SoupLen /\ Put(Soup)
       [] name = "IsEmail" -> IF pieces = <<>> THEN Put(Locals) ELSE IF Len(pieces) = 1 THEN Put(Ats)
                              ELSE Len(pieces) < 2 + MaxLabels /\ Put(Labels)
       [] name = "Luhn10" -> Len(pieces) < LuhnLen /\ Put(Digits)
       [] OTHER -> Len(pieces) < 6 /\ Put(Stages[Len(pieces) + 1])
Spec == Init /\ [][Next]_vars

Ready == CASE Souped -> Len(pieces) > 1 [] name = "IsEmail" -> Len(pieces) > 2 [] name = "Luhn10" -> Len(pieces) > 0 [] OTHER -> Len(pieces) = 6
Text == IF Souped THEN Concat(SubSeq(pieces, 1 + 1, Len(pieces)))
        ELSE IF name = "IsEmail" THEN pieces[1] \o pieces[2] \o Join(SubSeq(pieces, 2 + 1, Len(pieces)), ".") ELSE Concat(pieces)
V == IF name = "URLValidator" THEN Strip(Text) ELSE Text
P == Parse(V)
URLs == {"URLValidator", "HTTPURLValidator", "URLCanonicalizer"}
Domain == LET d == Cut(Text, "@")[2] ls == SplitBy(d, ".") IN
  [ok |-> d = "" \/ \A i \in 1..Len(ls) : Len(ls[i]) < 64 /\ (ls[i] # "" \/ (i = Len(ls) /\ i > 1)), t |-> d]
Verdict(n, c) == CASE n = "URLValidator" -> URLRule(c, V, P)
                   [] n = "HTTPURLValidator" -> HTTPRule(IF c.default THEN DefaultHTTP ELSE c, V, P)
                   [] n = "URLCanonicalizer" -> CanonRule(c, V, P)
                   [] n = "IsEmail" -> EmailRule(c, V, Domain)
                   [] OTHER -> LuhnRule(V)
OK(c) == Verdict(name, c) = ""

(* what has a host and an absolute path is read back as it was written        *)
Plain(p) == p.ok /\ p.netloc # "" /\ (p.path = "" \/ StartsWith(p.path, "/")) /\ (p.params # "" => p.path # "")
ReadBack == (Ready /\ name \in URLs) => (Plain(P) => Parse(Unparse(P)) = P)
(* exactly the parts told of are gone                                         *)
Discards == (Ready /\ name = "URLCanonicalizer" /\ OK(cf)) =>
  LET k == Kept(cf, P) IN
  /\ Plain(k) => Parse(Canonical(cf, V, P)) = k
  /\ \A i \in 1..6 : k[Six[i]] = IF Six[i] \in Range2(cf.discard) THEN "" ELSE P[Six[i]]
(* the standard configuration: web addresses with a host and no password      *)
Web == (Ready /\ name = "HTTPURLValidator" /\ cf.default /\ OK(cf)) =>
  /\ P.scheme \in {"http", "https"} /\ P.netloc # "" /\ Absent(Username(P.netloc)) /\ Absent(Password(P.netloc)) /\ ~Absent(Hostname(P.netloc)) /\ PortOf(P.netloc) # "bad"
(* a part demanded and the same part forbidden: one of them accepts           *)
OneOf == (Ready /\ name = "HTTPURLValidator" /\ ~cf.default /\ Len(cf.required) = 1 /\ cf.forbidden = <<>>) =>
  LET turned == [cf EXCEPT !.required = <<>>, !.forbidden = cf.required] IN
  Verdict(name, cf) = "bad_format" \/ PortOf(P.netloc) = "bad" \/ (Verdict(name, cf) = "" <=> Verdict(name, turned) # "")
(* allowing more refuses no more                                              *)
Allows == (Ready /\ name = "URLValidator" /\ OK(cf)) => OK(Base) /\ OK([cf EXCEPT !.allowed = <<"*">>]) /\ OK([cf EXCEPT !.parts = Six])
Addresses == (Ready /\ name = "IsEmail" /\ OK(cf)) =>
  /\ OK(Base) \/ ~cf.nonlocal
  /\ OK([cf EXCEPT !.nonlocal = FALSE]) /\ OK([cf EXCEPT !.localpat = ""]) /\ OK([cf EXCEPT !.domainpat = ""])
  /\ CountOf(Text, "@") = 1 /\ ~StartsWith(Text, "@") /\ ~EndsWith(Text, "@") /\ ~EndsWith(Text, ".") /\ ~Contains(Text, "..") /\ ~Contains(Text, "@.")
(* one check digit is right; a wrong digit and a swapped pair are noticed     *)
With(s, i, d) == Take(s, i - 1) \o d \o Drop(s, i)
Swapped(s, i) == Take(s, i - 1) \o Ch(s, i + 1) \o Ch(s, i) \o Drop(s, i + 1)
Checksum == (Ready /\ name = "Luhn10") =>
  /\ Cardinality({d \in Digits : Luhn(Text \o d)}) = 1
  /\ Luhn(Text) <=> Luhn("0" \o Text)
  /\ Luhn(Text) => \A i \in 1..Len(Text) : \A d \in Digits \ {Ch(Text, i)} : ~Luhn(With(Text, i, d))
  /\ Luhn(Text) => \A i \in 1..(Len(Text) - 1) :
        Luhn(Swapped(Text, i)) <=> (Ch(Text, i) = Ch(Text, i + 1) \/ {Ch(Text, i), Ch(Text, i + 1)} = {"0", "9"})

Names == CASE name = "URLValidator" -> <<"bad_format", "blocked_scheme", "blocked_part">>
           [] name = "HTTPURLValidator" -> <<"bad_format", "required_part", "forbidden_part">>
           [] name = "URLCanonicalizer" -> <<"bad_format">> [] OTHER -> <<"invalid">>
Emitted == Ready => PrintT("RUN " \o ToJson([o |-> "check", v |-> name, cf |-> cf, value |-> Text, msgs |-> Names]))
=============================================================================

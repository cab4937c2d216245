------------------------------- MODULE Formats -------------------------------
(* The formats of e-mail addresses, URLs, checksummed numbers, card numbers   *)
(* and phone numbers, and what their validators record.                       *)
EXTENDS Messages

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerLetters == "abcdefghijklmnopqrstuvwxyz"
UpperSet == {Ch(Upper, i) : i \in 1..26}
LowerSet == {Ch(LowerLetters, i) : i \in 1..26}
LowerOf == [c \in UpperSet |-> Ch(LowerLetters, Find(Upper, c))]
Lower(s) == Translate(s, LowerOf)
Only(s, cs) == \A i \in 1..Len(s) : Ch(s, i) \in cs
Nil == "~none"

(* ---------------------------------------------------------------- URLs *)
SchemeChars == LowerSet \cup UpperSet \cup Digits \cup {"+", "-", "."}
UsesParams == {"", "ftp", "hdl", "prospero", "http", "imap", "https", "shttp", "rtsp", "rtspu", "sip", "sips", "mms", "sftp", "tel"}
UsesNetloc == {"ftp", "http", "gopher", "nntp", "telnet", "imap", "wais", "file", "mms", "https", "shttp", "snews", "prospero",
               "rtsp", "rtspu", "rsync", "svn", "svn+ssh", "sftp", "nfs", "git", "git+ssh"}
FirstOf(s, cs) == LET h == {i \in 1..Len(s) : Ch(s, i) \in cs} IN IF h = {} THEN Len(s) + 1 ELSE CHOOSE i \in h : \A j \in h : i <= j
LastOf(s, c) == LET h == {i \in 1..Len(s) : Ch(s, i) = c} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : j <= i
Cut(s, c) == LET i == Find(s, c) IN IF i = 0 THEN <<s, "">> ELSE <<Take(s, i - 1), Drop(s, i)>>

(* what is before the first ":" is a scheme unless it has other characters or *)
(* all that follows is a port number                                          *)
SchemeOf(s) == LET i == Find(s, ":") head == Take(s, i - 1) rest == Drop(s, i) IN
  IF i > 1 /\ head = "http" THEN <<"http", rest>>
  ELSE IF i > 1 /\ Only(head, SchemeChars) /\ ~AllDigits(rest) THEN <<Lower(head), rest>>
  ELSE <<"", s>>
ParamsOf(scheme, path) ==
  IF scheme \notin UsesParams THEN <<path, "">>
  ELSE LET slash == LastOf(path, "/") i == FindFrom(path, ";", IF slash = 0 THEN 1 ELSE slash) IN
       IF i = 0 THEN <<path, "">> ELSE <<Take(path, i - 1), Drop(path, i)>>
Parse(s) ==
  LET a == SchemeOf(s)
      host == StartsWith(a[2], "//")
      end == IF host THEN FirstOf(Drop(a[2], 2), {"/", "?", "#"}) ELSE 0
      netloc == IF host THEN Take(Drop(a[2], 2), end - 1) ELSE ""
      tail == IF host THEN Drop(Drop(a[2], 2), end - 1) ELSE a[2]
      f == Cut(tail, "#") q == Cut(f[1], "?") p == ParamsOf(a[1], q[1])
  IN [ok |-> Contains(netloc, "[") = Contains(netloc, "]"),
      scheme |-> a[1], netloc |-> netloc, path |-> p[1], params |-> p[2], query |-> q[2], fragment |-> f[2]]
Unparse(p) ==
  LET a == IF p.params = "" THEN p.path ELSE p.path \o ";" \o p.params
      b == IF p.netloc # "" \/ (p.scheme \in UsesNetloc /\ ~StartsWith(a, "//"))
           THEN "//" \o p.netloc \o (IF a # "" /\ ~StartsWith(a, "/") THEN "/" ELSE "") \o a ELSE a
      c == IF p.scheme = "" THEN b ELSE p.scheme \o ":" \o b
      d == IF p.query = "" THEN c ELSE c \o "?" \o p.query
  IN IF p.fragment = "" THEN d ELSE d \o "#" \o p.fragment
(* the parts of a network location                                            *)
UserInfo(n) == IF Contains(n, "@") THEN Take(n, LastOf(n, "@") - 1) ELSE Nil
HostPort(n) == Drop(n, LastOf(n, "@"))
Username(n) == IF UserInfo(n) = Nil THEN Nil ELSE Cut(UserInfo(n), ":")[1]
Password(n) == IF UserInfo(n) = Nil \/ ~Contains(UserInfo(n), ":") THEN Nil ELSE Cut(UserInfo(n), ":")[2]
Hostname(n) == LET h == HostPort(n) IN
  IF Contains(h, "[") /\ Contains(h, "]") THEN Lower(Drop(Cut(h, "]")[1], 1))
  ELSE IF Contains(h, ":") THEN Lower(Cut(h, ":")[1])
  ELSE IF h = "" THEN Nil ELSE Lower(h)
PortOf(n) ==
  LET h == Drop(HostPort(n), LastOf(HostPort(n), "]"))
      t == IntText(Strip(SplitBy(h, ":")[2]))
  IN IF ~Contains(h, ":") THEN Nil
     ELSE IF t = "" THEN "bad"
     ELSE IF StartsWith(t, "-") \/ NumLess("65535", t) THEN Nil ELSE t
Part(p, name) ==
  CASE name = "username" -> Username(p.netloc) [] name = "password" -> Password(p.netloc)
    [] name = "hostname" -> Hostname(p.netloc) [] name = "port" -> PortOf(p.netloc)
    [] OTHER -> p[name]
Six == <<"scheme", "netloc", "path", "params", "query", "fragment">>
Absent(v) == v \in {Nil, ""}

(* v is the value, p what the validator's parser makes of it: Parse(v), for   *)
(* URLValidator Parse(Strip(v)), or what a parser of the user's says          *)
(* cf.allowed: schemes, <<"*">> for all; cf.parts: allowed parts              *)
URLRule(cf, v, p) ==
  IF v = Nil THEN "bad_format"
  ELSE IF ~p.ok THEN "bad_format"
  ELSE IF p.scheme = "" THEN "blocked_scheme"
  ELSE IF cf.allowed # <<"*">> /\ p.scheme \notin Range2(cf.allowed) THEN "blocked_scheme"
  ELSE IF \E i \in 1..6 : Six[i] \notin Range2(cf.parts) /\ p[Six[i]] # "" THEN "blocked_part"
  ELSE ""
(* cf.all: the parts in the order they are looked at; cf.required and         *)
(* cf.forbidden: pairs <<part, [any |-> TRUE] or [any |-> FALSE, of |-> ..]>> *)
PartRule(cf, p, part) ==
  LET v == Part(p, part) IN
  IF part = "port" /\ v = "bad" THEN "bad_format"
  ELSE IF Has(cf.required, part) /\ LET q == Get(cf.required, part) IN (IF q.any THEN Absent(v) ELSE v \notin Range2(q.of)) THEN "required_part"
  ELSE IF Has(cf.forbidden, part) /\ LET q == Get(cf.forbidden, part) IN (IF q.any THEN ~Absent(v) ELSE v \in Range2(q.of)) THEN "forbidden_part"
  ELSE ""
HTTPRule(cf, v, p) ==
  IF v = Nil THEN ""
  ELSE LET off == {i \in 1..Len(cf.all) : PartRule(cf, p, cf.all[i]) # ""}
       IN IF ~p.ok THEN "bad_format"
          ELSE IF off = {} THEN "" ELSE PartRule(cf, p, cf.all[CHOOSE i \in off : \A j \in off : i <= j])
DefaultHTTP == [all |-> <<"scheme", "username", "password", "hostname", "port", "path", "params", "query", "fragment">>,
                required |-> << <<"scheme", [any |-> FALSE, of |-> <<"http", "https">>]>>, <<"hostname", [any |-> TRUE, of |-> <<>>]>> >>,
                forbidden |-> << <<"username", [any |-> TRUE, of |-> <<>>]>>, <<"password", [any |-> TRUE, of |-> <<>>]>> >>]
CanonRule(cf, v, p) == IF cf.discard = <<>> THEN "" ELSE IF v = Nil \/ ~p.ok THEN "bad_format" ELSE ""
Kept(cf, p) == [q \in DOMAIN p |-> IF q \in Range2(cf.discard) THEN "" ELSE p[q]]
Canonical(cf, v, p) == IF cf.discard = <<>> \/ CanonRule(cf, v, p) # "" THEN v ELSE Unparse(Kept(cf, p))

(* -------------------------------------------------------------- e-mail *)
(* domain: [ok, t] its IDNA form                                              *)
Blank(s) == Only(s, Space)
LabelChars == LowerSet \cup UpperSet \cup Digits \cup {"-"}
LocalFits(pat, s) == CASE pat = "" -> TRUE [] pat = "bob" -> s = "bob" [] pat = "letters" -> s # "" /\ Only(s, LowerSet) [] OTHER -> StartsWith(s, "b")
DomainFits(pat, labels) == /\ \A i \in 1..Len(labels) : labels[i] # "" /\ Only(labels[i], LabelChars)
                           /\ pat = "tld" => labels[Len(labels)] \in {"com", "org"}
EmailRule(cf, u, domain) ==
  IF CountOf(u, "@") # 1 THEN "invalid"
  ELSE LET local == Cut(u, "@")[1] labels == SplitBy(domain.t, ".") IN
       IF /\ local # "" /\ ~Blank(local) /\ LocalFits(cf.localpat, local)
          /\ domain.ok /\ Len(domain.t) <= 253
          /\ DomainFits(cf.domainpat, labels)
          /\ (Len(labels) > 1 \/ ~cf.nonlocal)
          /\ \A i \in 1..Len(labels) : Len(labels[i]) < 64
       THEN "" ELSE "invalid"

(* ------------------------------------------------------------- numbers *)
Doubled(d) == IF 2 * d > 9 THEN 2 * d - 9 ELSE 2 * d
RECURSIVE LuhnFrom(_, _)
LuhnFrom(s, second) == IF s = "" THEN 0
  ELSE LET d == DigitVal[Ch(s, Len(s))] IN (IF second THEN Doubled(d) ELSE d) + LuhnFrom(Take(s, Len(s) - 1), ~second)
Luhn(t) == ~StartsWith(t, "-") /\ LuhnFrom(t, FALSE) % 10 = 0
LuhnRule(t) == IF t = Nil THEN "invalid" ELSE IF Luhn(t) THEN "" ELSE "invalid"

(* card numbers: fifteen characters or more, of digits, blanks and dashes     *)
DigitsOf(s) == Concat([i \in 1..Len(s) |-> IF Ch(s, i) \in Digits THEN Ch(s, i) ELSE ""])
CardAdapts(s) == Len(s) >= 15 /\ Only(s, Digits \cup Space \cup {"-"}) /\ DigitsOf(s) # ""
CardNumber(s) == StripZeros(DigitsOf(s))
Dashed(n, cuts) == Concat([i \in 1..Len(cuts) |-> (IF i = 1 THEN "" ELSE "-") \o SubSeq(n, cuts[i][1], cuts[i][2])])
CardText(n) == CASE Len(n) = 16 -> Dashed(n, << <<1, 4>>, <<5, 8>>, <<9, 12>>, <<13, 16>> >>)
                 [] Len(n) = 15 -> Dashed(n, << <<1, 4>>, <<5, 10>>, <<11, 15>> >>)
                 [] Len(n) = 13 -> Dashed(n, << <<1, 4>>, <<5, 7>>, <<8, 10>>, <<11, 13>> >>)
                 [] OTHER -> n
CardType(n) ==
  CASE StartsWith(n, "4") /\ Len(n) \in {13, 16} -> "Visa"
    [] Len(n) = 16 /\ StartsWith(n, "5") /\ Ch(n, 2) \in {"1", "2", "3", "4", "5"} -> "MasterCard"
    [] Len(n) = 15 /\ StartsWith(n, "3") /\ Ch(n, 2) \in {"4", "7"} -> "American Express"
    [] Len(n) = 16 /\ StartsWith(n, "6011") -> "Discover"
    [] OTHER -> "other"
Listed(names) == CASE Len(names) = 1 -> names[1] [] Len(names) = 2 -> names[1] \o " and " \o names[2]
                   [] OTHER -> Join(SubSeq(names, 1, Len(names) - 1), ", ") \o ", and " \o names[Len(names)]
(* a number, or Nil when the text was none, and the text                      *)
CardRule(accepted, n, u) ==
  IF u = "" THEN "missing" ELSE IF n = Nil THEN "incorrect" ELSE IF ~Luhn(n) THEN "invalid"
  ELSE IF CardType(n) \notin Range2(accepted) THEN "not_accepted" ELSE ""

(* phone numbers                                                              *)
PhoneRule(ext, s) ==
  LET d == DigitsOf(s) IN
  IF Len(d) < 10 THEN "invalid" ELSE IF Len(d) > 10 /\ ext = "no" THEN "noext" ELSE ""
Phone(ext, s) ==
  LET d == DigitsOf(s) line == "(" \o SubSeq(d, 1, 3) \o ") " \o SubSeq(d, 4, 6) \o "-" \o SubSeq(d, 7, 10) IN
  IF Len(d) = 10 \/ ext = "strip" THEN line ELSE line \o " x" \o StripZeros(Drop(d, 10))

(* -------------------------------------------------------- the messages *)
S(t) == [f |-> "s", a |-> t, b |-> "", key |-> ""]
NotURL == S("%(label)s is not a valid URL.")
Defaults == [
  URLValidator |-> [bad_format |-> NotURL, blocked_scheme |-> NotURL, blocked_part |-> NotURL],
  HTTPURLValidator |-> [bad_format |-> NotURL, required_part |-> NotURL, forbidden_part |-> NotURL],
  URLCanonicalizer |-> [bad_format |-> NotURL],
  IsEmail |-> [invalid |-> S("%(label)s is not a valid email address.")],
  Luhn10 |-> [invalid |-> S("The %(label)s was not entered correctly.")],
  NANPphone |-> [invalid |-> S("The %(label)s is not valid."), noext |-> S("%(label)s must be a ten-digit phone number without extension.")],
  Card |-> [missing |-> S("%(label)s may not be blank."), incorrect |-> S("%(label)s is not correct."),
            invalid |-> S("The %(label)s was not entered correctly.")] ]
NoTranslator == [sa |-> "", si |-> "", el |-> <<>>, b |-> ""]
Said(name, label, msgs, m, accepted) ==
  IF name = "Card" /\ m = "not_accepted" THEN "We accept " \o Listed(accepted)
  ELSE Expand([kw |-> <<>>, vattrs |-> <<>>, state |-> [k |-> "none", items |-> <<>>, attrs |-> <<>>],
               eattrs |-> << <<"label", [s |-> label, k |-> "t"]>> >>, ug |-> NoTranslator, ung |-> NoTranslator],
              IF Has(msgs, m) THEN Get(msgs, m) ELSE Defaults[name][m]).t
=============================================================================

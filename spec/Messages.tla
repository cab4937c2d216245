------------------------------ MODULE Messages ------------------------------
(* How a validator's message becomes the text recorded on an element.         *)
(*                                                                            *)
(* A context c has                                                            *)
(*   kw, vattrs      pairs <<name, value>>: keywords, validator attributes    *)
(*   state           [k, items, attrs]: what state[name], state.name give     *)
(*   eattrs          pairs: attributes of the element                         *)
(*   ug, ung         where translators are: [sa, si, el, b] the tag of the    *)
(*                   one found as state attribute, state item, on the element *)
(*                   and each of its parents, in the builtins; "" is none and *)
(*                   "nil" an attribute that is there and None                *)
(* A value is [s |-> its text, k |-> "t" (text), "n" (a number) or "o"].      *)
EXTENDS Text

Has(ps, n) == \E i \in 1..Len(ps) : ps[i][1] = n
Get(ps, n) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n /\ \A j \in 1..(i - 1) : ps[j][1] # n][2]
NoValue == [s |-> "", k |-> "none"]

(* who answers for a name: the first that has it                              *)
Providers(c) == << c.kw, c.state.items, c.state.attrs, c.vattrs, c.eattrs >>
Asked(c, n) ==
  LET ps == Providers(c) h == {i \in 1..Len(ps) : Has(ps[i], n)}
  IN IF h = {} THEN NoValue ELSE Get(ps[CHOOSE i \in h : \A j \in h : i <= j], n)

(* which translator is used                                                   *)
Ancestral(ts) == LET h == {i \in 1..Len(ts) : ts[i] \notin {"", "nil"}}
                 IN IF h = {} THEN "" ELSE ts[CHOOSE i \in h : \A j \in h : i <= j]
Translator(w) == IF w.sa # "" THEN w.sa
                 ELSE IF w.si # "" THEN w.si
                 ELSE IF Ancestral(w.el) # "" THEN Ancestral(w.el)
                 ELSE w.b
(* the translators that stand for gettext here: they leave numerals alone and *)
(* mark everything else; plural ones also tell which number they were given   *)
Tr(tag, s) == IF tag = "" \/ AllDigits(s) THEN s ELSE tag \o ":" \o s
TrN(tag, single, plural, n) == tag \o "[" \o n \o "]" \o (IF n = "1" THEN single ELSE plural)
Shown(c, n) == LET v == Asked(c, n) IN IF v.k = "t" THEN [v EXCEPT !.s = Tr(Translator(c.ug), v.s)] ELSE v

(* the % operator: %(name)s, %(name)d, %(name)i and %%                        *)
Bad(e) == [ok |-> FALSE, t |-> e]
Fine(s) == [ok |-> TRUE, t |-> s]
RECURSIVE Format(_, _)
Format(c, s) ==
  LET i == Find(s, "%") IN
  IF i = 0 THEN Fine(s)
  ELSE LET head == Take(s, i - 1) rest == Drop(s, i) IN
    IF StartsWith(rest, "%") THEN LET r == Format(c, Drop(rest, 1)) IN IF r.ok THEN Fine(head \o "%" \o r.t) ELSE r
    ELSE LET j == Find(rest, ")") IN
      IF ~StartsWith(rest, "(") \/ j = 0 \/ j = Len(rest) THEN Bad("exc:ValueError")
      ELSE LET v == Shown(c, SubSeq(rest, 2, j - 1)) conv == Ch(rest, j + 1) IN
        IF v.k = "none" THEN Bad("exc:KeyError")
        ELSE IF conv \in {"d", "i"} /\ v.k # "n" THEN Bad("exc:TypeError")
        ELSE LET r == Format(c, Drop(rest, j + 1)) IN IF r.ok THEN Fine(head \o v.s \o r.t) ELSE r

(* the count of a plural message; a name nobody has stands for itself         *)
Count(c, key) == LET v == Shown(c, key) IN
  IF v.k = "none" THEN key ELSE IF v.k = "t" /\ IntText(v.s) # "" THEN IntText(v.s) ELSE v.s

(* m: [f |-> "s", a |-> text] or [f |-> "t", a |-> singular, b |-> plural,    *)
(* key |-> name of the count]                                                 *)
Expand(c, m) ==
  LET u == Translator(c.ug) n == Translator(c.ung) k == Count(c, m.key) IN
  Format(c, IF m.f = "s" THEN Tr(u, m.a)
            ELSE IF n # "" THEN TrN(n, m.a, m.b, k)
            ELSE Tr(u, IF k = "1" THEN m.a ELSE m.b))

(* note_error and note_warning: each message is recorded once                 *)
Record(had, s) == IF \E i \in 1..Len(had) : had[i] = s THEN had ELSE Append(had, s)
=============================================================================

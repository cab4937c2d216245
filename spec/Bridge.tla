-------------------------------- MODULE Bridge --------------------------------
(* Moving values between a mapping element and plain objects (C11).           *)
(*                                                                            *)
(* el:  set of <<field, value>> present in the element; fields: all names the *)
(* schema knows; obj: set of <<attribute, value>>.                            *)
(* sel: [inc, om |-> lists of names (empty: not limited), ren |-> list of     *)
(*       <<from, to>>, key |-> list of <<name, its comparison key>>]          *)
EXTENDS Text

RECURSIVE DictOf(_)
DictOf(ps) == IF ps = <<>> THEN {} ELSE LET p == ps[Len(ps)] IN {p} \cup {q \in DictOf(SubSeq(ps, 1, Len(ps) - 1)) : q[1] # p[1]}
Keys2(m) == {p[1] : p \in m}
At2(m, k) == (CHOOSE p \in m : p[1] = k)[2]
KeyOf(sel, n) == IF \E p \in Range2(sel.key) : p[1] = n THEN At2(Range2(sel.key), n) ELSE n

Refused(sel) == sel.inc # <<>> /\ sel.om # <<>>
Picks(sel, k) == IF sel.inc # <<>> THEN k \in Range2(sel.inc) ELSE k \notin Range2(sel.om)

(* the pairs a selection of some pairs emits; several may compete for a name  *)
Emits(pairs, sel) ==
  LET ren == DictOf(sel.ren) IN
  {<<At2(ren, KeyOf(sel, p[1])), p[2]>> : p \in {q \in pairs : KeyOf(sel, q[1]) \in Keys2(ren)}}
  \cup {<<KeyOf(sel, p[1]), p[2]>> : p \in {q \in pairs : KeyOf(sel, q[1]) \notin Keys2(ren) /\ Picks(sel, KeyOf(sel, q[1]))}}

(* m is a mapping made of the emitted pairs: every name, with one of its values *)
Made(emits, m) == Keys2(m) = Keys2(emits) /\ m \subseteq emits
Over2(m, old) == m \cup {p \in old : p[1] \notin Keys2(m)}

(* the attributes read for the fields: own names, and names renamed to a field *)
Pulls(obj, fields, sel) == {p \in Emits(obj, sel) : p[1] \in fields}
(* attributes that could never count are not even candidates                  *)

(* element after set_by_object: got are its pairs; every selected field has   *)
(* one of its values, every other is reset                                    *)
SetTo(obj, fields, sel, blank, got) ==
  LET ps == Pulls(obj, fields, sel) IN
  /\ \A p \in got : IF p[1] \in Keys2(ps) THEN p \in ps ELSE p \in blank
  /\ Keys2(got) = Keys2(ps) \cup Keys2(blank)
  /\ Cardinality(got) = Cardinality(Keys2(got))
=============================================================================

-------------------------------- MODULE Props --------------------------------
(* Properties: settings that inherit like class attributes (C08).             *)
(*                                                                            *)
(* A class is [mro |-> its linearisation (indices, itself first),             *)
(*             own |-> it starts a lineage of its own].                       *)
(* Every class has a frame and every instance an overlay: total functions     *)
(* over the keys in play, to a value, Unset or Deleted.                       *)
EXTENDS Text

CONSTANT Keys
Unset == "--unset"
Deleted == "--deleted"
Blank == [k \in Keys |-> Unset]
Real(v) == v \notin {Unset, Deleted}

(* pairs <<key, value>> laid over frame f, later ones winning                 *)
RECURSIVE Lay(_, _)
Lay(f, pairs) == IF pairs = <<>> THEN f ELSE Lay([f EXCEPT ![pairs[1][1]] = pairs[1][2]], Tail(pairs))

(* the class that started c's lineage; the classes whose frames c sees        *)
Owners(cls, c) == {i \in 1..Len(cls[c].mro) : cls[cls[c].mro[i]].own}
OwnerAt(cls, c) == CHOOSE i \in Owners(cls, c) : \A j \in Owners(cls, c) : i <= j
Owner(cls, c) == cls[c].mro[OwnerAt(cls, c)]
SameLineage(cls, c, d) == Owner(cls, c) = Owner(cls, d)
Seen(cls, c) == LET m == SubSeq(cls[c].mro, 1, OwnerAt(cls, c)) IN SelectSeq(m, LAMBDA d : SameLineage(cls, c, d))

RECURSIVE FirstSet(_, _, _)
FirstSet(frames, ds, k) ==
  IF ds = <<>> THEN Unset
  ELSE IF frames[ds[1]][k] # Unset THEN frames[ds[1]][k]
  ELSE FirstSet(frames, Tail(ds), k)
Shown(v) == IF v = Deleted THEN Unset ELSE v

ClassView(cls, frames, c) ==
  LET ds == Seen(cls, c) IN [k \in Keys |-> Shown(FirstSet(frames, ds, k))]
(* an instance: [cls, det |-> assigned wholesale, local |-> overlay]          *)
InstView(cls, frames, o) ==
  IF o.det THEN o.local
  ELSE LET v == ClassView(cls, frames, o.cls) IN
       [k \in Keys |-> IF o.local[k] # Unset THEN Shown(o.local[k]) ELSE v[k]]

PairsOf(v) == {<<k, v[k]>> : k \in {x \in Keys : v[x] # Unset}}

(* One operation on an overlay `f` that currently shows `view`.               *)
(* kind: "class", "inst" or "plain" (a plain dict assigned wholesale).        *)
(* -> [f |-> new overlay, res |-> result text]                                *)
Gone(kind) == IF kind = "plain" THEN Unset ELSE Deleted
Same(f, res) == [f |-> f, res |-> res]
Apply(kind, f, view, base, op) ==
  CASE op.o = "set" -> [f |-> [f EXCEPT ![op.k] = op.v], res |-> "None"]
    [] op.o = "update" -> [f |-> Lay(f, op.ps), res |-> "None"]
    [] op.o = "del" -> IF view[op.k] = Unset THEN Same(f, "exc:KeyError")
                       ELSE [f |-> [f EXCEPT ![op.k] = Gone(kind)], res |-> "None"]
    [] op.o = "pop" -> IF view[op.k] = Unset THEN Same(f, "exc:KeyError")
                       ELSE [f |-> [f EXCEPT ![op.k] = Gone(kind)], res |-> view[op.k]]
    [] op.o = "pop2" -> IF view[op.k] = Unset THEN Same(f, op.v)
                        ELSE [f |-> [f EXCEPT ![op.k] = Gone(kind)], res |-> view[op.k]]
    [] op.o = "setdefault" -> IF view[op.k] # Unset THEN Same(f, view[op.k])
                              ELSE [f |-> [f EXCEPT ![op.k] = op.v], res |-> op.v]
    [] op.o = "clear" ->
         [f |-> CASE kind = "plain" -> Blank
                  [] kind = "class" -> [k \in Keys |-> IF view[k] # Unset THEN Deleted ELSE f[k]]
                  [] OTHER -> [k \in Keys |-> IF base[k] # Unset THEN Deleted ELSE Unset],
          res |-> "None"]
    [] op.o = "popitem" -> Same(f, "exc:NotImplementedError")
    [] op.o = "get" -> Same(f, IF view[op.k] = Unset THEN "None" ELSE view[op.k])
    [] op.o = "get2" -> Same(f, IF view[op.k] = Unset THEN op.v ELSE view[op.k])
    [] op.o = "item" -> Same(f, IF view[op.k] = Unset THEN "exc:KeyError" ELSE view[op.k])

(* The whole system: st = [cls, frames, objs]; op.t = "class" | "inst", op.i  *)
Play(st, op) ==
  CASE op.o = "class" ->       \* a new class; op.own: it starts a lineage
         [st |-> [st EXCEPT !.cls = Append(@, [mro |-> op.mro, own |-> op.own]),
                            !.frames = Append(@, Lay(Blank, op.ps))],
          res |-> "None"]
    [] op.o = "inst" ->
         [st |-> [st EXCEPT !.objs = Append(@, [cls |-> op.i, det |-> op.det, local |-> Lay(Blank, op.ps)])],
          res |-> "None"]
    [] op.o = "assign" ->
         [st |-> [st EXCEPT !.objs[op.i] = [@ EXCEPT !.det = TRUE, !.local = Lay(Blank, op.ps)]], res |-> "None"]
    [] op.t = "class" ->
         LET v == ClassView(st.cls, st.frames, op.i)
             r == Apply("class", st.frames[op.i], v, v, op)
         IN [st |-> [st EXCEPT !.frames[op.i] = r.f], res |-> r.res]
    [] OTHER ->
         LET o == st.objs[op.i]
             r == Apply(IF o.det THEN "plain" ELSE "inst", o.local, InstView(st.cls, st.frames, o),
                        ClassView(st.cls, st.frames, o.cls), op)
         IN [st |-> [st EXCEPT !.objs[op.i].local = r.f], res |-> r.res]
=============================================================================

------------------------------ MODULE Handles ------------------------------
(***************************************************************************)
(* Handles: default and mutable ones of concrete types, and interface      *)
(* types.  What a handle refers to decides what it is equal to, what it    *)
(* hashes to and where it comes in an order, never how one has got it.     *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Types, MaxH, MaxObj, MaxVal

Ifaces == {"E", "T"}
Interfaced(i) == (IF i = "E" THEN {"Hit", "Item"} ELSE IF i = "T" THEN {"Hit", "Node", "Item"} ELSE {}) \cap Types
FirstOf(i) == "Hit"   \* what an empty interface handle holds

\* w.o: the objects, tr: part of a collection, at this position (0: of none);
\* w.h: the handles, cls: d, m, E or T; o: the object, 0 for none
Dead == [live |-> FALSE, cls |-> "d", ty |-> "-", o |-> 0]
Hd(c, t, o) == [live |-> TRUE, cls |-> c, ty |-> t, o |-> o]
H == {h \in 1..MaxH : w.h[h].live}
Concrete(x) == x.cls \in {"d", "m"}
Comparable(a, b) ==
  \/ Concrete(a) /\ Concrete(b) /\ a.ty = b.ty
  \/ a.cls = b.cls /\ a.cls \in Ifaces
  \/ Concrete(a) /\ b.cls \in Ifaces /\ a.ty \in Interfaced(b.cls)
  \/ Concrete(b) /\ a.cls \in Ifaces /\ b.ty \in Interfaced(a.cls)
Equal(a, b) == a.ty = b.ty /\ a.o = b.o
ObsH(v, x) == IF ~x.live THEN [live |-> FALSE]
              ELSE [live |-> TRUE, cls |-> x.cls, isA |-> x.ty, avail |-> x.o # 0,
                    id |-> IF x.o = 0 THEN 0 ELSE v.o[x.o].tr, val |-> IF x.o = 0 THEN -1 ELSE v.o[x.o].val]
ObsOf(v) == [h |-> [i \in 1..MaxH |-> ObsH(v, v.h[i])],
             eq |-> [i \in 1..MaxH |-> [j \in 1..MaxH |->
                      IF ~v.h[i].live \/ ~v.h[j].live \/ ~Comparable(v.h[i], v.h[j]) THEN "." ELSE
                      IF Equal(v.h[i], v.h[j]) THEN "=" ELSE "#"]]]
Do(v, a) == Step(v, a, ObsOf(v))
Slot == CHOOSE i \in 1..MaxH : ~w.h[i].live /\ \A j \in 1..(i - 1) : w.h[j].live
Room == H # 1..MaxH
Add(v, x) == [v EXCEPT !.h[Slot] = x]
NewObj(t, x) == [w EXCEPT !.o = Append(@, [ty |-> t, val |-> x, tr |-> 0])]
RoomO == Len(w.o) < MaxObj
CanBecome(c, t, x) == \* a handle of class c (and type t) can be made from handle x
  \/ c = "m" /\ x.cls = "m" /\ x.ty = t
  \/ c = "d" /\ Concrete(x) /\ x.ty = t
  \/ c \in Ifaces /\ (x.cls = c \/ (Concrete(x) /\ x.ty \in Interfaced(c)))
\* a free object that no handle refers to is gone for good; its number is not used again
Tracked == {o \in 1..Len(w.o) : w.o[o].tr > 0}
Count(t) == Cardinality({o \in Tracked : w.o[o].ty = t})

Take == /\ "Take" \in Ops /\ Room
        /\ \E o \in Pick(Tracked), c \in Pick({"d", "m"}) : Do(Add(w, Hd(c, w.o[o].ty, o)), [op |-> "Take", o |-> o, c |-> c, res |-> Ok])
\* its own object, with default or given values
New == /\ "New" \in Ops /\ Room /\ RoomO
       /\ \E t \in Pick(Types), c \in Pick({"d", "m"}), x \in Pick({0} \cup 1..MaxVal) :
            Do(Add(NewObj(t, x), Hd(c, t, Len(w.o) + 1)), [op |-> "New", t |-> t, c |-> c, x |-> x, res |-> Ok])
Create == /\ "Create" \in Ops /\ Room /\ RoomO
          /\ \E t \in Pick(Types), x \in Pick(0..MaxVal) :
               LET v == NewObj(t, x) IN
               Do(Add([v EXCEPT !.o[Len(v.o)].tr = Count(t) + 1], Hd("m", t, Len(w.o) + 1)), [op |-> "Create", t |-> t, x |-> x, res |-> Ok])
Empty == /\ "Empty" \in Ops /\ Room
         /\ \E t \in Pick(Types), c \in Pick({"d"} \cup {i \in Ifaces : Interfaced(i) # {}}) :
              Do(Add(w, Hd(c, IF c = "d" THEN t ELSE FirstOf(c), 0)), [op |-> "Empty", t |-> t, c |-> c, res |-> Ok])
Convert == /\ "Convert" \in Ops /\ Room
           /\ \E h \in Pick(H), c \in Pick({"d", "m", "E", "T"}) :
                /\ CanBecome(c, w.h[h].ty, w.h[h])
                /\ Do(Add(w, Hd(c, w.h[h].ty, w.h[h].o)), [op |-> "Convert", h |-> h, c |-> c, res |-> Ok])
As == /\ "As" \in Ops /\ Room
      /\ \E h \in Pick({h \in H : w.h[h].cls \in Ifaces}) : \E t \in Pick(Interfaced(w.h[h].cls)) :
           IF w.h[h].ty = t THEN Do(Add(w, Hd("d", t, w.h[h].o)), [op |-> "As", h |-> h, t |-> t, res |-> Ok])
           ELSE Do(w, [op |-> "As", h |-> h, t |-> t, res |-> "runtime_error"])
Assign == /\ "Assign" \in Ops
          /\ \E h \in Pick(H), g \in Pick(H) :
               /\ CanBecome(w.h[h].cls, w.h[h].ty, w.h[g])
               /\ Do([w EXCEPT !.h[h] = [@ EXCEPT !.ty = w.h[g].ty, !.o = w.h[g].o]], [op |-> "Assign", h |-> h, g |-> g, res |-> Ok])
MoveTo == /\ "MoveTo" \in Ops
          /\ \E h \in Pick(H), g \in Pick(H) :
               /\ h # g /\ w.h[h].cls = w.h[g].cls /\ (Concrete(w.h[h]) => w.h[h].ty = w.h[g].ty)
               /\ Do([w EXCEPT !.h[h] = w.h[g], !.h[g] = Dead], [op |-> "MoveTo", h |-> h, g |-> g, res |-> Ok])
Swap == /\ "Swap" \in Ops
        /\ \E h \in Pick(H), g \in Pick(H) :
             /\ w.h[h].cls = w.h[g].cls /\ (Concrete(w.h[h]) => w.h[h].ty = w.h[g].ty)
             /\ Do([w EXCEPT !.h[h] = w.h[g], !.h[g] = w.h[h]], [op |-> "Swap", h |-> h, g |-> g, res |-> Ok])
Unlink == /\ "Unlink" \in Ops
          /\ \E h \in Pick(H) : Do([w EXCEPT !.h[h].o = 0], [op |-> "Unlink", h |-> h, res |-> Ok])
Clone == /\ "Clone" \in Ops /\ Room /\ RoomO
         /\ \E h \in Pick({h \in H : Concrete(w.h[h]) /\ w.h[h].o # 0}), rel \in Pick({TRUE, FALSE}) :
              LET x == w.h[h] IN
              Do(Add(NewObj(x.ty, w.o[x.o].val), Hd("m", x.ty, Len(w.o) + 1)), [op |-> "Clone", h |-> h, rel |-> rel, res |-> Ok])
Set == /\ "Set" \in Ops
       /\ \E h \in Pick({h \in H : w.h[h].cls = "m" /\ w.h[h].o # 0}), x \in Pick(0..MaxVal) :
            Do([w EXCEPT !.o[w.h[h].o].val = x], [op |-> "Set", h |-> h, x |-> x, res |-> Ok])
Push == /\ "Push" \in Ops
        /\ \E h \in Pick({h \in H : w.h[h].cls = "m" /\ w.h[h].o # 0}) :
             IF w.o[w.h[h].o].tr = 0
             THEN Do([w EXCEPT !.o[w.h[h].o].tr = Count(w.h[h].ty) + 1], [op |-> "Push", h |-> h, res |-> Ok])
             ELSE Do(w, [op |-> "Push", h |-> h, res |-> "invalid_argument"])
Drop == /\ "Drop" \in Ops
        /\ \E h \in Pick(H) : Do([w EXCEPT !.h[h] = Dead], [op |-> "Drop", h |-> h, res |-> Ok])

Init == Start([o |-> << >>, h |-> [i \in 1..MaxH |-> Dead]])
Next == Take \/ New \/ Create \/ Empty \/ Convert \/ As \/ Assign \/ MoveTo \/ Swap \/ Unlink \/ Clone \/ Set \/ Push \/ Drop
Spec == Init /\ [][Next]_vars
EmitState == EmitObs(ObsOf(w))
Inv == \A i \in H : LET x == w.h[i] IN
         /\ x.o # 0 => w.o[x.o].ty = x.ty
         /\ x.cls \in Ifaces => x.ty \in Interfaced(x.cls)
EqualIsEquivalence == \A i, j, k \in H :
  LET a == w.h[i] b == w.h[j] c == w.h[k] IN
  /\ Comparable(a, b) <=> Comparable(b, a)
  /\ Comparable(a, b) /\ Comparable(b, c) /\ Comparable(a, c) /\ Equal(a, b) /\ Equal(b, c) => Equal(a, c)
\* changing a handle changes no other one and no object
Independent == [][\A i \in H : \A j \in 1..MaxH : act'.op \in {"Assign", "Unlink", "Drop"} /\ act'.h = i /\ j # i =>
                    w'.h[j] = w.h[j] /\ w'.o = w.o]_vars
TrackedStay == [][\A o \in Tracked : w'.o[o].tr = w.o[o].tr]_vars
=============================================================================

------------------------------ MODULE UserData ------------------------------
(***************************************************************************)
(* podio::UserDataCollection of all its types, on its own, in frames and   *)
(* through its buffers.                                                    *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Types, MaxVal, MaxLen, MaxColl, Names

\* w.c: the collections; fr: the frame it is in; w.f: the frames, names to collections
Coll(t, el) == [live |-> TRUE, t |-> t, el |-> el, id |-> "none", fr |-> FALSE]
Gone == [live |-> FALSE, t |-> "-", el |-> << >>, id |-> "none", fr |-> FALSE]
Live == {c \in 1..Len(w.c) : w.c[c].live}
Free == {c \in Live : ~w.c[c].fr}
ObsColl(c) == IF ~c.live THEN [live |-> FALSE]
              ELSE [live |-> TRUE, t |-> c.t, el |-> c.el, size |-> Len(c.el), empty |-> c.el = << >>, id |-> c.id,
                    subset |-> FALSE, names |-> TRUE]
ObsOf(v) == [c |-> [i \in 1..Len(v.c) |-> ObsColl(v.c[i])], set_frame |-> SetToSeq(DOMAIN v.f)]
Do(v, a) == Step(v, a, ObsOf(v))

RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<< >>} ELSE LET s == SeqsUpTo(n - 1) IN
                 s \cup {Append(e, x) : e \in {y \in s : Len(y) = n - 1}, x \in 0..MaxVal}
RECURSIVE RandomSeq(_)
RandomSeq(n) == IF n = 0 THEN << >> ELSE Append(RandomSeq(n - 1), RandomElement(0..MaxVal))
SomeSeq == IF Sim THEN {RandomSeq(RandomElement(0..MaxLen))} ELSE SeqsUpTo(MaxLen)
With(c, x) == [w EXCEPT !.c[c] = x]
AddColl(v, x) == [v EXCEPT !.c = Append(@, x)]
Room == Len(w.c) < MaxColl

New == /\ "New" \in Ops /\ Room
       /\ \E t \in Pick(Types) : Do(AddColl(w, Coll(t, << >>)), [op |-> "New", t |-> t, res |-> Ok])
From == /\ "From" \in Ops /\ Room
        /\ \E t \in Pick(Types), s \in SomeSeq, how \in Pick({"vector", "range", "view"}) :
             Do(AddColl(w, Coll(t, s)), [op |-> "From", t |-> t, s |-> s, how |-> how, res |-> Ok])
Push == /\ "Push" \in Ops
        /\ \E c \in Pick({c \in Free : Len(w.c[c].el) < MaxLen}), x \in Pick(0..MaxVal), how \in Pick({"push", "create", "vec"}) :
             Do(With(c, [w.c[c] EXCEPT !.el = Append(@, x)]), [op |-> "Push", c |-> c, x |-> x, how |-> how, res |-> Ok])
\* new elements are zero
Resize == /\ "Resize" \in Ops
          /\ \E c \in Pick(Free), n \in Pick(0..MaxLen) :
               Do(With(c, [w.c[c] EXCEPT !.el = [i \in 1..n |-> IF i <= Len(@) THEN @[i] ELSE 0]]),
                  [op |-> "Resize", c |-> c, n |-> n, res |-> Ok])
Set == /\ "Set" \in Ops
       /\ \E c \in Pick({c \in Free : w.c[c].el # << >>}) :
          \E i \in Pick(1..Len(w.c[c].el)), x \in Pick(0..MaxVal), how \in Pick({"at", "index", "iterator", "reverse", "vec"}) :
            Do(With(c, [w.c[c] EXCEPT !.el[i] = x]), [op |-> "Set", c |-> c, i |-> i, x |-> x, how |-> how, res |-> Ok])
AtBad == /\ "AtBad" \in Ops
         /\ \E c \in Pick(Live) : \E i \in Pick({Len(w.c[c].el), Len(w.c[c].el) + 1}), con \in Pick({TRUE, FALSE}) :
              /\ w.c[c].fr => con
              /\ Do(w, [op |-> "AtBad", c |-> c, i |-> i, con |-> con, res |-> "out_of_range"])
Clear == /\ "Clear" \in Ops
         /\ \E c \in Pick(Free) : Do(With(c, [w.c[c] EXCEPT !.el = << >>]), [op |-> "Clear", c |-> c, res |-> Ok])
\* no effect
Subset == /\ "Subset" \in Ops
          /\ \E c \in Pick(Free), b \in Pick({TRUE, FALSE}) : Do(w, [op |-> "Subset", c |-> c, b |-> b, res |-> Ok])
SetID == /\ "SetID" \in Ops
         /\ \E c \in Pick(Free), x \in Pick({"a", "b"}) : Do(With(c, [w.c[c] EXCEPT !.id = x]), [op |-> "SetID", c |-> c, x |-> x, res |-> Ok])
\* the moved from collection is not looked at any more
Move == /\ "Move" \in Ops /\ Room
        /\ \E c \in Pick(Free) : Do(AddColl(With(c, Gone), w.c[c]), [op |-> "Move", c |-> c, res |-> Ok])
MoveInto == /\ "MoveInto" \in Ops
            /\ \E c \in Pick(Free) : \E d \in Pick({d \in Free \ {c} : w.c[d].t = w.c[c].t}) :
                 Do([w EXCEPT !.c[d] = w.c[c], !.c[c] = Gone], [op |-> "MoveInto", c |-> c, d |-> d, res |-> Ok])
Drop == /\ "Drop" \in Ops
        /\ \E c \in Pick(Free) : Do(With(c, Gone), [op |-> "Drop", c |-> c, res |-> Ok])
\* what the buffers hold is what a collection made from such buffers has
Copy == /\ "Copy" \in Ops /\ Room
        /\ \E c \in Pick(Live) :
             Do(AddColl(w, Coll(w.c[c].t, w.c[c].el)), [op |-> "Copy", c |-> c, res |-> Ok])
Put == /\ "Put" \in Ops
       /\ \E c \in Pick(Free), n \in Pick(Names), how \in Pick({"move", "ptr"}) :
            IF n \in DOMAIN w.f
            THEN Do(IF how = "ptr" THEN With(c, Gone) ELSE With(c, Gone),
                    [op |-> "Put", c |-> c, n |-> n, how |-> how, res |-> "invalid_argument"])
            ELSE Do([w EXCEPT !.c[c].fr = TRUE, !.c[c].id = "h" \o n, !.f = (n :> c) @@ @],
                    [op |-> "Put", c |-> c, n |-> n, how |-> how, res |-> Ok])
\* asking for another type
Get == /\ "Get" \in Ops
       /\ \E n \in Pick(Names), t \in Pick(Types) :
            Do(w, [op |-> "Get", n |-> n, t |-> t,
                   res |-> IF n \in DOMAIN w.f THEN (IF w.c[w.f[n]].t = t THEN w.f[n] ELSE -1) ELSE 0])
Show == /\ "Print" \in Ops
         /\ \E c \in Pick(Live) : Do(w, [op |-> "Print", c |-> c, res |-> w.c[c].el])

Init == Start([c |-> << >>, f |-> << >>])
Next == New \/ From \/ Push \/ Resize \/ Set \/ AtBad \/ Clear \/ Subset \/ SetID \/ Move \/ MoveInto \/ Drop \/ Copy
        \/ Put \/ Get \/ Show
Spec == Init /\ [][Next]_vars
EmitState == EmitObs(ObsOf(w))
Inv == \A n \in DOMAIN w.f : w.c[w.f[n]].live /\ w.c[w.f[n]].fr
FramedStays == [][\A c \in 1..Len(w.c) : w.c[c].fr => w'.c[c] = w.c[c]]_vars
=============================================================================

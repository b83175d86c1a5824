----------------------------- MODULE Navigator -----------------------------
(***************************************************************************)
(* Links, the ways to get at their ends, and podio::LinkNavigator: what a  *)
(* navigator answers is what the links were when it was made.              *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Kinds, MaxObj, MaxLinks, MaxNav, MaxW

None == "-"
Names(t) == {t \o ToString(i) : i \in 1..MaxObj}
Froms(k) == IF k = "HitNode" THEN Names("h") ELSE Names("n")
Tos(k) == IF k = "NodeEnergetic" THEN Names("h") \cup Names("i") ELSE Names("n")
Froms0(k) == Froms(k) \cup {None}
Tos0(k) == Tos(k) \cup {None}

\* w.links: the links of the collection, fixed: it is part of a frame,
\* w.navs: the links every navigator has seen
Open == w.k # None
Free == Open /\ ~w.fixed
LinkedTo(ls, f) == LET s == SelectSeq(ls, LAMBDA l : l.from = f) IN [i \in 1..Len(s) |-> <<s[i].to, s[i].w>>]
LinkedFrom(ls, t) == LET s == SelectSeq(ls, LAMBDA l : l.to = t) IN [i \in 1..Len(s) |-> <<s[i].from, s[i].w>>]
Key(x) == "set_" \o x
Answers(S, G(_)) == [x \in {Key(y) : y \in S} |-> G(CHOOSE y \in S : Key(y) = x)]
ObsNav(k, n) == IF ~n.live THEN [live |-> FALSE]
                ELSE [live |-> TRUE, to |-> Answers(Froms0(k), LAMBDA f : LinkedTo(n.links, f)),
                      from |-> Answers(Tos0(k), LAMBDA t : LinkedFrom(n.links, t))]
ObsOf(v) == [links |-> v.links, navs |-> [i \in 1..Len(v.navs) |-> ObsNav(v.k, v.navs[i])]]
Do(v, a) == Step(v, a, ObsOf(v))
Live == {n \in 1..Len(w.navs) : w.navs[n].live}
Dead == [live |-> FALSE, links |-> << >>]
RoomN == Len(w.navs) < MaxNav

Begin == /\ w.k = None
         /\ \E k \in Pick(Kinds) : Do([w EXCEPT !.k = k], [op |-> "Open", k |-> k, res |-> Ok])
\* how: through setFrom and setTo, through set by type, or made by hand and added
Create == /\ "Create" \in Ops /\ Free /\ Len(w.links) < MaxLinks
          /\ \E f \in Pick(Froms0(w.k)), t \in Pick(Tos0(w.k)), x \in Pick(0..MaxW), how \in Pick({"set", "typed", "push"}) :
               Do([w EXCEPT !.links = Append(@, [from |-> f, to |-> t, w |-> x])],
                  [op |-> "Create", f |-> f, t |-> t, x |-> x, how |-> how, res |-> Ok])
SetFrom == /\ "SetFrom" \in Ops /\ Free
           /\ \E l \in Pick(1..Len(w.links)), f \in Pick(Froms0(w.k)), how \in Pick({"set", "typed"}) :
                Do([w EXCEPT !.links[l].from = f], [op |-> "SetFrom", l |-> l, f |-> f, how |-> how, res |-> Ok])
SetTo == /\ "SetTo" \in Ops /\ Free
         /\ \E l \in Pick(1..Len(w.links)), t \in Pick(Tos0(w.k)), how \in Pick({"set", "typed"}) :
              Do([w EXCEPT !.links[l].to = t], [op |-> "SetTo", l |-> l, t |-> t, how |-> how, res |-> Ok])
SetWeight == /\ "SetWeight" \in Ops /\ Free
             /\ \E l \in Pick(1..Len(w.links)), x \in Pick(0..MaxW) :
                  Do([w EXCEPT !.links[l].w = x], [op |-> "SetWeight", l |-> l, x |-> x, res |-> Ok])
\* a clone is independent of what it is a clone of
Clone == /\ "Clone" \in Ops /\ Free /\ Len(w.links) < MaxLinks
         /\ \E l \in Pick(1..Len(w.links)), rel \in Pick({TRUE, FALSE}) :
              Do([w EXCEPT !.links = Append(@, [from |-> IF rel THEN @[l].from ELSE None,
                                                to |-> IF rel THEN @[l].to ELSE None, w |-> @[l].w])],
                 [op |-> "Clone", l |-> l, rel |-> rel, res |-> Ok])
Clear == /\ "Clear" \in Ops /\ Free
         /\ Do([w EXCEPT !.links = << >>], [op |-> "Clear", res |-> Ok])
Freeze == /\ "Freeze" \in Ops /\ Free
          /\ Do([w EXCEPT !.fixed = TRUE], [op |-> "Freeze", res |-> Ok])
Navigate == /\ "Navigate" \in Ops /\ Open /\ RoomN
            /\ Do([w EXCEPT !.navs = Append(@, [live |-> TRUE, links |-> w.links])], [op |-> "Navigate", res |-> Ok])
\* over a subset collection with some of the links, possibly several times
Some == /\ "Some" \in Ops /\ Open /\ RoomN /\ w.links # << >>
        /\ \E n \in Pick(0..2) : \E s \in (IF Sim THEN {[i \in 1..n |-> RandomElement(1..Len(w.links))]} ELSE [1..n -> 1..Len(w.links)]) :
             Do([w EXCEPT !.navs = Append(@, [live |-> TRUE, links |-> [i \in 1..n |-> w.links[s[i]]]])],
                [op |-> "Some", s |-> s, res |-> Ok])
CopyNav == /\ "CopyNav" \in Ops /\ RoomN
           /\ \E n \in Pick(Live) : Do([w EXCEPT !.navs = Append(@, @[n])], [op |-> "CopyNav", n |-> n, res |-> Ok])
MoveNav == /\ "MoveNav" \in Ops /\ RoomN
           /\ \E n \in Pick(Live) : Do([w EXCEPT !.navs = Append([@ EXCEPT ![n] = Dead], @[n])], [op |-> "MoveNav", n |-> n, res |-> Ok])
AssignNav == /\ "AssignNav" \in Ops
             /\ \E n, m \in Pick(Live) : Do([w EXCEPT !.navs[n] = w.navs[m]], [op |-> "AssignNav", n |-> n, m |-> m, res |-> Ok])
DropNav == /\ "DropNav" \in Ops
           /\ \E n \in Pick(Live) : Do([w EXCEPT !.navs[n] = Dead], [op |-> "DropNav", n |-> n, res |-> Ok])

Look == w.fixed /\ Do(w, [op |-> "Look", res |-> Ok])

Init == Start([k |-> None, links |-> << >>, fixed |-> FALSE, navs |-> << >>])
Next == Begin \/ Create \/ SetFrom \/ SetTo \/ SetWeight \/ Clone \/ Clear \/ Freeze \/ Navigate \/ Some \/ CopyNav
        \/ MoveNav \/ AssignNav \/ DropNav \/ Look
Spec == Init /\ [][Next]_vars
EmitState == EmitObs(ObsOf(w))
\* what is found from one end is what is found from the other one
Mirrored == \A n \in Live : \A f \in Froms0(w.k), t \in Tos0(w.k) :
              LET ls == w.navs[n].links
                  a == SelectSeq(LinkedTo(ls, f), LAMBDA p : p[1] = t)
                  b == SelectSeq(LinkedFrom(ls, t), LAMBDA p : p[1] = f) IN
              [i \in 1..Len(a) |-> a[i][2]] = [i \in 1..Len(b) |-> b[i][2]]
Complete == \A n \in Live :
              /\ Len(w.navs[n].links) = MapThenSumSet(LAMBDA f : Len(LinkedTo(w.navs[n].links, f)), Froms0(w.k))
Inv == (Open => Mirrored /\ Complete) /\ (w.fixed => Open)
\* nothing done to links changes a navigator
Snapshot == [][\A n \in 1..Len(w.navs) : w'.links # w.links => w'.navs[n] = w.navs[n]]_vars
FixedStays == [][w.fixed => w'.links = w.links]_vars
=============================================================================

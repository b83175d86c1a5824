------------------------------ MODULE IdTable ------------------------------
(***************************************************************************)
(* podio::CollectionIDTable: names and the collection IDs they stand for.  *)
(* An ID is either the one every table gives a name ("h" and the name) or  *)
(* one a table has been made with.                                         *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Names, Explicit, MaxTab, MaxLen

Ids == {"h" \o n : n \in Names} \cup Explicit
Hash(n) == "h" \o n
Live == {t \in 1..Len(w) : w[t].live}
NamesOf(t) == {w[t].ent[i].n : i \in 1..Len(w[t].ent)}

IdOf(ent, n) == LET m == {i \in 1..Len(ent) : ent[i].n = n}
                IN IF m = {} THEN "-" ELSE ent[Min(m)].id
NameOf(ent, x) == LET m == {i \in 1..Len(ent) : ent[i].id = x}
                  IN IF m = {} THEN "-" ELSE ent[Min(m)].n
ObsOf(v) == [tabs |-> [t \in 1..Len(v) |->
  IF ~v[t].live THEN [live |-> FALSE]
  ELSE [live |-> TRUE,
        names |-> [i \in 1..Len(v[t].ent) |-> v[t].ent[i].n],
        ids |-> [i \in 1..Len(v[t].ent) |-> v[t].ent[i].id],
        empty |-> v[t].ent = << >>,
        look |-> [n \in Names |-> IdOf(v[t].ent, n)],
        back |-> [x \in Ids |-> NameOf(v[t].ent, x)]]]]
Do(v, a) == Step(v, a, ObsOf(v))
Tab(e) == [live |-> TRUE, ent |-> e]
Gone == [live |-> FALSE, ent |-> << >>]

New == "New" \in Ops /\ Len(w) < MaxTab /\ Do(Append(w, Tab(<< >>)), [op |-> "New", res |-> Ok])
\* a table as it is read from a file: the names and the IDs they had
RECURSIVE Lists(_)
Lists(k) == IF k = 0 THEN {<< >>}
            ELSE LET s == Lists(k - 1) IN
                 s \cup {Append(e, [n |-> n, id |-> x]) : e \in {x \in s : Len(x) = k - 1}, n \in Names, x \in Ids}
Proper(e) == \A i, j \in 1..Len(e) : i # j => e[i].n # e[j].n /\ e[i].id # e[j].id
NotOthers(e) == \A i \in 1..Len(e) : e[i].id \in Explicit \cup {Hash(e[i].n)}
RECURSIVE RandomList(_)
RandomList(k) ==
  IF k = 0 THEN << >>
  ELSE LET e == RandomList(k - 1)
           n == RandomElement(Names)
           x == RandomElement(Explicit \cup {Hash(n)})
       IN IF Proper(Append(e, [n |-> n, id |-> x])) THEN Append(e, [n |-> n, id |-> x]) ELSE e
Given == IF Sim THEN {RandomList(MaxLen)} ELSE {e \in Lists(MaxLen) : Proper(e) /\ NotOthers(e)}
FromLists ==
  /\ "FromLists" \in Ops /\ Len(w) < MaxTab
  /\ \E e \in Given, how \in Pick({"copy", "move"}) :
       Do(Append(w, Tab(e)), [op |-> "FromLists", how |-> how, e |-> e, res |-> Ok])
Add ==
  /\ "Add" \in Ops
  /\ \E t \in Pick(Live), n \in Pick(Names) :
       LET known == n \in NamesOf(t)
           id == IF known THEN IdOf(w[t].ent, n) ELSE Hash(n)
       IN Do(IF known THEN w ELSE [w EXCEPT ![t].ent = Append(@, [n |-> n, id |-> id])],
             [op |-> "Add", t |-> t, n |-> n, res |-> id])
Move ==
  /\ "Move" \in Ops /\ Len(w) < MaxTab
  /\ \E t \in Pick(Live) : Do(Append([w EXCEPT ![t] = Gone], w[t]), [op |-> "Move", t |-> t, res |-> Ok])
MoveInto ==
  /\ "MoveInto" \in Ops
  /\ \E t \in Pick(Live) : \E u \in Pick(Live \ {t}) :
       Do([w EXCEPT ![u] = w[t], ![t] = Gone], [op |-> "MoveInto", t |-> t, u |-> u, res |-> Ok])
Show ==
  /\ "Print" \in Ops
  /\ \E t \in Pick(Live) : Do(w, [op |-> "Print", t |-> t, res |-> w[t].ent])

Init == Start(<< >>)
Next == New \/ FromLists \/ Add \/ Move \/ MoveInto \/ Show
Spec == Init /\ [][Next]_vars
EmitState == EmitObs(ObsOf(w))

\* names and IDs of a table are in one to one correspondence, and stay
OneToOne == \A t \in Live : Proper(w[t].ent)
Inv == OneToOne
Stays == [][\A t \in 1..Len(w) : w[t].live /\ w'[t].live /\ w'[t].ent # w[t].ent =>
              act'.op = "MoveInto" \/ IsPrefix(w[t].ent, w'[t].ent)]_vars
\* what has been given a name by the table itself is the same everywhere
SameHash == [][act'.op = "Add" => act'.res = IdOf(w'[act'.t].ent, act'.n)]_vars
=============================================================================

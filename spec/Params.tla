------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* podio::GenericParameters: four maps, one per type, from keys to lists   *)
(* of values.                                                              *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Types, Keys, MaxVal, MaxLen, MaxGp

Live == {g \in 1..Len(w) : w[g].live}
None == [k \in Keys |-> <<-1>>]        \* <<-1>>: no such key
Fresh == [live |-> TRUE, m |-> [t \in Types |-> None]]
Gone == [live |-> FALSE, m |-> [t \in Types |-> None]]
Known(m) == {k \in Keys : m[k] # <<-1>>}

ObsMap(m) == [set_keys |-> SetToSeq(Known(m)),
              val |-> [k \in Keys |-> IF k \in Known(m) THEN m[k] ELSE <<-1>>],
              n |-> [k \in Keys |-> IF k \in Known(m) THEN Len(m[k]) ELSE 0],
              first |-> [k \in Keys |-> IF k \in Known(m) /\ m[k] # << >> THEN m[k][1] ELSE -1],
              set_kv |-> SetToSeq({[k |-> k, v |-> m[k]] : k \in Known(m)})]
ObsOf(v) == [gps |-> [g \in 1..Len(v) |->
  IF ~v[g].live THEN [live |-> FALSE]
  ELSE [live |-> TRUE, empty |-> \A t \in Types : Known(v[g].m[t]) = {},
        m |-> [t \in Types |-> ObsMap(v[g].m[t])]]]]
Do(v, a) == Step(v, a, ObsOf(v))

RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<< >>} ELSE LET s == SeqsUpTo(n - 1) IN
                 s \cup {Append(e, x) : e \in {y \in s : Len(y) = n - 1}, x \in 1..MaxVal}
RECURSIVE RandomSeq(_)
RandomSeq(n) == IF n = 0 THEN << >> ELSE Append(RandomSeq(n - 1), RandomElement(1..MaxVal))
SomeSeq == IF Sim THEN {RandomSeq(RandomElement(0..MaxLen))} ELSE SeqsUpTo(MaxLen)

New == "New" \in Ops /\ Len(w) < MaxGp /\ Do(Append(w, Fresh), [op |-> "New", res |-> Ok])
\* a single value is a list of one; what was there under that key is replaced
Set1 ==
  /\ "Set1" \in Ops
  /\ \E g \in Pick(Live), t \in Pick(Types), k \in Pick(Keys), x \in Pick(1..MaxVal) :
     \E how \in Pick(IF t = "string" THEN {"value", "chars"} ELSE {"value"}) :
       Do([w EXCEPT ![g].m[t][k] = <<x>>], [op |-> "Set1", g |-> g, t |-> t, k |-> k, x |-> x, how |-> how, res |-> Ok])
SetV ==
  /\ "SetV" \in Ops
  /\ \E g \in Pick(Live), t \in Pick(Types), k \in Pick(Keys), v \in SomeSeq, how \in Pick({"copy", "move", "list"}) :
       Do([w EXCEPT ![g].m[t][k] = v], [op |-> "SetV", g |-> g, t |-> t, k |-> k, v |-> v, how |-> how, res |-> Ok])
\* loading keeps what is there already
Load ==
  /\ "Load" \in Ops
  /\ \E g \in Pick(Live), t \in Pick(Types), k1 \in Pick(Keys), k2 \in Pick(Keys), v1 \in SomeSeq, v2 \in SomeSeq :
       LET m == w[g].m[t]
           a == IF m[k1] = <<-1>> THEN [m EXCEPT ![k1] = v1] ELSE m
           b == IF a[k2] = <<-1>> THEN [a EXCEPT ![k2] = v2] ELSE a
       IN Do([w EXCEPT ![g].m[t] = b],
             [op |-> "Load", g |-> g, t |-> t, kv |-> <<[k |-> k1, v |-> v1], [k |-> k2, v |-> v2]>>, res |-> Ok])
Clear == "Clear" \in Ops /\ \E g \in Pick(Live) :
           Do([w EXCEPT ![g] = Fresh], [op |-> "Clear", g |-> g, res |-> Ok])
Copy == /\ "Copy" \in Ops /\ Len(w) < MaxGp
        /\ \E g \in Pick(Live) : Do(Append(w, w[g]), [op |-> "Copy", g |-> g, res |-> Ok])
Move == /\ "Move" \in Ops /\ Len(w) < MaxGp
        /\ \E g \in Pick(Live) : Do(Append([w EXCEPT ![g] = Gone], w[g]), [op |-> "Move", g |-> g, res |-> Ok])
MoveInto == /\ "MoveInto" \in Ops
            /\ \E g \in Pick(Live) : \E h \in Pick(Live \ {g}) :
                 Do([w EXCEPT ![h] = w[g], ![g] = Gone], [op |-> "MoveInto", g |-> g, h |-> h, res |-> Ok])
\* what is printed: every key with its list, under the heading of its type
Show ==
  /\ "Print" \in Ops
  /\ \E g \in Pick(Live) :
       Do(w, [op |-> "Print", g |-> g,
              res |-> [t \in Types |-> [set_lines |-> SetToSeq({[k |-> k, v |-> w[g].m[t][k]] : k \in Known(w[g].m[t])})]]])

Init == Start(<< >>)
Next == New \/ Set1 \/ SetV \/ Load \/ Clear \/ Copy \/ Move \/ MoveInto \/ Show
Spec == Init /\ [][Next]_vars
EmitState == EmitObs(ObsOf(w))

\* setting something changes nothing but that key of that type of that object
Frugal ==
  [][act'.op \in {"Set1", "SetV"} =>
       \A g \in 1..Len(w), t \in Types, k \in Keys :
          w'[g].m[t][k] # w[g].m[t][k] => g = act'.g /\ t = act'.t /\ k = act'.k]_vars
\* loading never replaces
Keeps == [][act'.op = "Load" => \A t \in Types, k \in Keys :
             k \in Known(w[act'.g].m[t]) => w'[act'.g].m[t][k] = w[act'.g].m[t][k]]_vars
Inv == \A g \in 1..Len(w) : \A t \in Types, k \in Keys : w[g].m[t][k] = <<-1>> \/ \A i \in 1..Len(w[g].m[t][k]) : w[g].m[t][k][i] \in 1..MaxVal
=============================================================================

------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* podio::DatamodelRegistry, and what collects the definitions that have   *)
(* to be written and gives back those that have been read.                 *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Models, Defs, Versions, MaxHold, MaxColl

\* w.m: the models in the order of registration; w.ver: versions; w.col: per
\* collector the models it has been told of; w.hold: what files have been read with
Init == Start([m |-> << >>, ver |-> [n \in Models |-> "-"], col |-> << >>, hold |-> << >>])
Index(n) == LET s == {i \in 1..Len(w.m) : w.m[i].n = n} IN IF s = {} THEN 0 ELSE Min(s)
IndexIn(v, n) == LET s == {i \in 1..Len(v.m) : v.m[i].n = n} IN IF s = {} THEN 0 ELSE Min(s)
Def(v, n) == IF IndexIn(v, n) = 0 THEN "{}" ELSE v.m[IndexIn(v, n)].def
Rel(v, n) == IF IndexIn(v, n) = 0 THEN "none" ELSE v.m[IndexIn(v, n)].rel
ObsOf(v) ==
  [models |-> [i \in 1..Len(v.m) |-> [n |-> v.m[i].n, def |-> v.m[i].def]],
   defs |-> [n \in Models |-> Def(v, n)],
   vers |-> v.ver,
   rels |-> [n \in Models |-> Rel(v, n)],
   unknown |-> [def |-> "{}", name |-> ""],
   user |-> "none", link |-> "fromto",
   towrite |-> [c \in 1..Len(v.col) |-> [set_d |-> SetToSeq({[n |-> n, def |-> Def(v, n)] : n \in v.col[c]})]],
   hold |-> [h \in 1..Len(v.hold) |->
               [set_avail |-> SetToSeq({x.n : x \in v.hold[h].d}),
                def |-> [n \in Models |-> LET s == {x \in v.hold[h].d : x.n = n} IN
                           IF s = {} THEN "{}" ELSE (CHOOSE x \in s : TRUE).def],
                ver |-> v.hold[h].ver]]]
Do(v, a) == Step(v, a, ObsOf(v))

\* the first one counts, whatever a second one with that name brings along
Reg ==
  /\ "Reg" \in Ops
  /\ \E n \in Pick(Models), d \in Pick(Defs), r \in Pick({"r1", "r2"}), x \in Pick(Versions \cup {"-"}) :
       LET i == Index(n)
           m == IF i = 0 THEN Append(w.m, [n |-> n, def |-> d, rel |-> r]) ELSE w.m
       IN Do([w EXCEPT !.m = m, !.ver[n] = IF @ = "-" THEN x ELSE @],
             [op |-> "Reg", n |-> n, def |-> d, rel |-> r, ver |-> x, res |-> IF i = 0 THEN Len(w.m) + 1 ELSE i])
NewCollector == "NewCollector" \in Ops /\ Len(w.col) < MaxColl
  /\ Do([w EXCEPT !.col = Append(@, {})], [op |-> "NewCollector", res |-> Ok])
\* what: a collection of that model, one that needs no definition, one that has none
Collect ==
  /\ "Collect" \in Ops
  /\ \E c \in Pick(1..Len(w.col)), n \in Pick({w.m[i].n : i \in 1..Len(w.m)} \cup {"user", "lost"}) :
       Do(IF n \in Models THEN [w EXCEPT !.col[c] = @ \cup {n}] ELSE w, [op |-> "Collect", c |-> c, n |-> n, res |-> Ok])
\* a file is read that has been written with a collector
Hold ==
  /\ "Hold" \in Ops /\ Len(w.hold) < MaxHold
  /\ \E c \in Pick(1..Len(w.col)) :
       Do([w EXCEPT !.hold = Append(@, [d |-> {[n |-> n, def |-> Def(w, n)] : n \in w.col[c]},
                                        ver |-> [n \in Models |-> IF n \in w.col[c] THEN w.ver[n] ELSE "-"]])],
          [op |-> "Hold", c |-> c, res |-> Ok])
Next == Reg \/ NewCollector \/ Collect \/ Hold
Spec == Init /\ [][Next]_vars
EmitState == EmitObs(ObsOf(w))
Inv == \A i, j \in 1..Len(w.m) : i # j => w.m[i].n # w.m[j].n
\* indices given out stay good, and so do definitions, relations and versions
Stable == [][/\ IsPrefix(w.m, w'.m)
             /\ \A n \in Models : w.ver[n] # "-" => w'.ver[n] = w.ver[n]]_vars
=============================================================================

----------------------------- MODULE Evolution -----------------------------
(***************************************************************************)
(* podio::SchemaEvolution and podio::CollectionBufferFactory: what is      *)
(* registered while libraries are loaded, and what is made of it when      *)
(* buffers are read.                                                       *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Types, MaxVer, MaxFn

\* w.cur: current version of a type (0: unknown); w.ev: per version the auto
\* generated (1) and the user defined (2) function; w.mk: per version the
\* creation function; w.n: functions so far
Init == Start([cur |-> [t \in Types |-> 0],
               ev |-> [t \in Types |-> [v \in 1..MaxVer |-> <<0, 0>>]],
               mk |-> [t \in Types |-> << >>], n |-> 0])
Prio == [auto |-> 1, user |-> 2]
Fn(t, v) == LET e == w.ev[t][v] IN IF e[2] # 0 THEN e[2] ELSE e[1]
\* all versions below the current one have to be registered
Ready(t) == w.cur[t] # 0 => \A v \in 1..(w.cur[t] - 1) : Fn(t, v) # 0
Which(t, v) == IF w.cur[t] = 0 \/ v = 0 \/ v >= w.cur[t] THEN 0 ELSE Fn(t, v)
Made(t, v) == IF v = 0 \/ v > Len(w.mk[t]) THEN 0 ELSE w.mk[t][v]

ObsOf(x) == [nothing |-> 0]
Do(v, a) == Step(v, a, ObsOf(v))

\* N: the current version, the same for all registrations of a type
RegEv ==
  /\ "RegEv" \in Ops /\ w.n < MaxFn
  /\ \E t \in Pick(Types), p \in Pick({"auto", "user"}) :
     \E N \in Pick(IF w.cur[t] = 0 THEN 1..MaxVer ELSE {w.cur[t]}) :
     \E v \in Pick({v \in 1..N : w.ev[t][v][Prio[p]] = 0}) :
       Do([w EXCEPT !.n = @ + 1, !.cur[t] = N, !.ev[t][v][Prio[p]] = w.n + 1],
          [op |-> "RegEv", t |-> t, p |-> p, N |-> N, v |-> v, fn |-> w.n + 1, res |-> Ok])
\* as the generated code does it: something for every version
RegAll ==
  /\ "RegAll" \in Ops /\ w.n < MaxFn
  /\ \E t \in Pick(Types) :
     \E N \in Pick(IF w.cur[t] = 0 THEN 1..MaxVer ELSE {w.cur[t]}) :
       /\ \A v \in 1..N : w.ev[t][v][1] = 0
       /\ Do([w EXCEPT !.n = @ + 1, !.cur[t] = N,
                       !.ev[t] = [v \in 1..MaxVer |-> IF v <= N THEN <<w.n + 1, @[v][2]>> ELSE @[v]]],
             [op |-> "RegAll", t |-> t, N |-> N, fn |-> w.n + 1, res |-> Ok])
\* fn: the function that has been applied, 0: none, to buffers of which version; the rest is as it was
Evolve ==
  /\ "Evolve" \in Ops
  /\ \E t \in Pick({t \in Types : Ready(t)}), v \in Pick(0..(MaxVer + 1)) :
       Do(w, [op |-> "Evolve", t |-> t, v |-> v, res |-> [fn |-> Which(t, v), same |-> TRUE]])
\* a frame evolves what it reads, once; not the references of a subset collection
Unpack ==
  /\ "Unpack" \in Ops
  /\ \E t \in Pick({t \in Types : Ready(t)}), v \in Pick(0..(MaxVer + 1)), sub \in Pick({TRUE, FALSE}) :
       Do(w, [op |-> "Unpack", t |-> t, v |-> v, sub |-> sub,
              res |-> [fns |-> IF sub \/ Which(t, v) = 0 THEN << >> ELSE <<Which(t, v)>>, sub |-> sub, made |-> 1, deleted |-> 1]])
RegMk ==
  /\ "RegMk" \in Ops /\ w.n < MaxFn
  /\ \E t \in Pick(Types), v \in Pick(1..MaxVer) :
       LET m == w.mk[t]  f == w.n + 1 IN
       Do([w EXCEPT !.n = f,
             !.mk[t] = IF Len(m) < v THEN [i \in 1..v |-> IF i <= Len(m) THEN m[i] ELSE f]
                       ELSE [m EXCEPT ![v] = f]],
          [op |-> "RegMk", t |-> t, v |-> v, fn |-> f, res |-> Ok])
Make ==
  /\ "Make" \in Ops
  /\ \E t \in Pick(Types), v \in Pick(0..(MaxVer + 1)), sub \in Pick({TRUE, FALSE}) :
       Do(w, [op |-> "Make", t |-> t, v |-> v, sub |-> sub,
              res |-> [fn |-> Made(t, v), sub |-> IF Made(t, v) = 0 THEN FALSE ELSE sub]])
Next == RegEv \/ RegAll \/ Evolve \/ Unpack \/ RegMk \/ Make
Spec == Init /\ [][Next]_vars
EmitState == EmitObs(ObsOf(w))

\* a user's function is never lost, in whichever order libraries are loaded
UserWins == \A t \in Types, v \in 1..MaxVer : w.ev[t][v][2] # 0 => Fn(t, v) = w.ev[t][v][2]
Inv == UserWins
UserStays == [][\A t \in Types, v \in 1..MaxVer : w.ev[t][v][2] # 0 => w'.ev[t][v][2] = w.ev[t][v][2]]_vars
\* once a type can be made, all lower versions can
Downward == \A t \in Types : \A v \in 1..Len(w.mk[t]) : w.mk[t][v] # 0
=============================================================================

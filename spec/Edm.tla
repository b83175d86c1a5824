-------------------------------- MODULE Edm --------------------------------
(***************************************************************************)
(* The event data model world of podio as its user sees it: objects and    *)
(* handles, collections, frames, the persistent form of a frame, and       *)
(* frames read back from it.                                               *)
(*                                                                         *)
(* Every action records what was called and what the call has to return in *)
(* `act`.  The conformance driver (cpp/edm_driver.cc) performs `act` on    *)
(* the real code and compares the outcome and everything observable with   *)
(* the state this module says it has to be in.                             *)
(*                                                                         *)
(* Object id 0 stands for "no object" (an empty handle).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt, Functions

CONSTANTS
  Types,      \* the types in use, a subset of DOMAIN TI
  Names,      \* collection names
  Keys,       \* parameter keys
  Ops,        \* the enabled operations
  MaxObj, MaxColl, MaxFrame, MaxStore,   \* how many may ever be created
  MaxVal,     \* largest abstract field value
  MaxRel,     \* longest relation / vector member
  MaxEl,      \* longest collection
  MaxLevel,   \* length of the behaviours explored exhaustively (0: no limit)
  Script,     \* the operations such behaviours start with
  Sim,        \* TRUE: choose arguments at random (simulation)
  Depth       \* length of the emitted behaviours (0: none)

VARIABLES objs, colls, frames, stores, act, hist
vars == <<objs, colls, frames, stores, act, hist>>
world == <<objs, colls, frames, stores>>

(***************************************************************************)
(* The data model, mirrors model/vm.yaml.  nf: number of scalar slots, dom *)
(* largest value of slots that cannot hold arbitrary values, one / many:   *)
(* target types of the relations, nv: number of vector members.            *)
(***************************************************************************)
TI == [
  Hit    |-> [nf |-> 3,  nv |-> 0, one |-> << >>, many |-> << >>, lnk |-> FALSE],
  Node   |-> [nf |-> 11, nv |-> 3, one |-> <<{"Node"}, {"Hit"}, {"Item"}>>,
              many |-> <<{"Node"}, {"Hit"}, {"Node"}>>, lnk |-> FALSE],
  Item   |-> [nf |-> 7,  nv |-> 1, one |-> <<{"Node"}>>, many |-> << >>, lnk |-> FALSE],
  Holder |-> [nf |-> 1,  nv |-> 0, one |-> <<{"Hit", "Item"}, {"Hit", "Node", "Item"}>>,
              many |-> <<{"Hit", "Item"}, {"Hit", "Node", "Item"}>>, lnk |-> FALSE],
  One    |-> [nf |-> 0,  nv |-> 0, one |-> <<{"Many"}>>, many |-> << >>, lnk |-> FALSE],
  Many   |-> [nf |-> 0,  nv |-> 0, one |-> << >>, many |-> <<{"One"}>>, lnk |-> FALSE],
  Vec    |-> [nf |-> 1,  nv |-> 2, one |-> << >>, many |-> << >>, lnk |-> FALSE],
  HNLink |-> [nf |-> 1,  nv |-> 0, one |-> <<{"Hit"}, {"Node"}>>, many |-> << >>, lnk |-> TRUE],
  NNLink |-> [nf |-> 1,  nv |-> 0, one |-> <<{"Node"}, {"Node"}>>, many |-> << >>, lnk |-> TRUE],
  NELink |-> [nf |-> 1,  nv |-> 0, one |-> <<{"Node"}, {"Hit", "Item"}>>, many |-> << >>, lnk |-> TRUE]
]
AllTypes == DOMAIN TI
\* the slot holding a bool
Dom(t, i) == IF t = "Node" /\ i = 11 THEN 1 ELSE MaxVal

(***************************************************************************)
(* Choosing: all possibilities when model checking, one at random when     *)
(* simulating.                                                             *)
(***************************************************************************)
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

Blank(t) == [f |-> [i \in 1..TI[t].nf |-> 0],
             v |-> [i \in 1..TI[t].nv |-> << >>],
             one |-> [i \in 1..Len(TI[t].one) |-> 0],
             many |-> [i \in 1..Len(TI[t].many) |-> << >>]]

MkObj(t, b, col, ix, h) ==
  [t |-> t, f |-> b.f, v |-> b.v, one |-> b.one, many |-> b.many,
   col |-> col, ix |-> ix, h |-> h, live |-> TRUE]
Dead == [t |-> "-", f |-> << >>, v |-> << >>, one |-> << >>, many |-> << >>,
         col |-> 0, ix |-> 0, h |-> 0, live |-> FALSE]

Range1(s) == {s[i] : i \in 1..Len(s)}

(***************************************************************************)
(* Lifetime.  An object in a collection lives as long as the collection    *)
(* keeps it, any other object as long as a handle refers to it: a user's   *)
(* (h > 0) or one kept by a relation of a live object.                     *)
(***************************************************************************)
TargetsOf(o) == Range1(o.one) \cup UNION {Range1(o.many[k]) : k \in 1..Len(o.many)}
Referenced(os) == UNION {IF os[i].live THEN TargetsOf(os[i]) ELSE {} : i \in 1..Len(os)}
RECURSIVE Reap(_)
Reap(os) ==
  LET loose == {i \in 1..Len(os) : os[i].live /\ os[i].col = 0 /\ os[i].h = 0}
  IN IF loose = {} THEN os
     ELSE LET dead == loose \ Referenced(os)
          IN IF dead = {} THEN os
             ELSE Reap([i \in 1..Len(os) |-> IF i \in dead THEN Dead ELSE os[i]])
Kill(os, S) == Reap([i \in 1..Len(os) |-> IF i \in S THEN Dead ELSE os[i]])

Live == {o \in 1..Len(objs) : objs[o].live}
LiveColls == {c \in 1..Len(colls) : colls[c].live}
LiveFrames == {f \in 1..Len(frames) : frames[f].live}
LocalColls == {c \in LiveColls : colls[c].fr = 0}

\* owned elements of a collection
OwnedBy(c) == {o \in Live : objs[o].col = c}
\* does anything observable of object o depend on a dead object?
HasDead(o) == \E p \in TargetsOf(objs[o]) \ {0} : ~objs[p].live
IsMutable(o) == objs[o].live /\ objs[o].h = 2
                /\ (objs[o].col = 0 \/ colls[objs[o].col].fr = 0)

NilStored == [t |-> "-", sub |-> FALSE, data |-> << >>, refs |-> << >>]
\* el: the elements, fr: the frame it belongs to (0: none), nm: its name there,
\* rb: it has been read back and st is what it has been read from, wr: it has been written
MkColl(t, sub, el, fr, nm, rb, st) ==
  [t |-> t, sub |-> sub, el |-> el, fr |-> fr, nm |-> nm, rb |-> rb, wr |-> FALSE, st |-> st, live |-> TRUE]
DeadColl == [t |-> "-", sub |-> FALSE, el |-> << >>, fr |-> 0, nm |-> "", rb |-> FALSE, wr |-> FALSE,
             st |-> NilStored, live |-> FALSE]

(***************************************************************************)
(* What a written collection refers to has been written with the identity  *)
(* it had then.  Whether giving such objects (another) identity afterwards *)
(* shows when the collection is written again is left open: the behaviours *)
(* here do not do that.                                                    *)
(***************************************************************************)
Settled == UNION {IF colls[c].sub THEN Range1(colls[c].el)
                  ELSE UNION {TargetsOf(objs[o]) : o \in {p \in Range1(colls[c].el) : objs[p].live}}
                    : c \in {d \in LiveColls : colls[d].wr}}

(***************************************************************************)
(* Reachability among objects that nobody but handles keeps alive.  Cycles *)
(* of those are never freed (handles are reference counted), the behaviours*)
(* here avoid creating them.                                               *)
(***************************************************************************)
RECURSIVE ReachLoose(_, _)
ReachLoose(S, seen) ==
  LET new == (UNION {TargetsOf(objs[p]) : p \in S} \ {0}) \ seen
      nl == {p \in new : objs[p].live /\ objs[p].col = 0}
  IN IF nl = {} THEN seen ELSE ReachLoose(nl, seen \cup nl)
WouldCycle(o, p) ==
  /\ p # 0 /\ objs[p].live /\ objs[p].col = 0 /\ objs[o].col = 0
  /\ (p = o \/ o \in ReachLoose({p}, {p}))

----------------------------------------------------------------------------
\* recording the step
Step(a) ==
  /\ act' = a
  /\ IF Depth > 0
     THEN hist' = Append(hist, [act |-> a, objs |-> objs', colls |-> colls',
                                frames |-> frames', stores |-> stores'])
     ELSE hist' = hist

Ok == "ok"

----------------------------------------------------------------------------
\* Objects and handles

\* the values an object made from value x gets
Fill(t, x) == [i \in 1..TI[t].nf |-> (x + i) % (Dom(t, i) + 1)]

\* a new object, default constructed or given values
\* in random behaviours the first operations may be given
On(op) ==
  /\ op \in Ops
  /\ IF Sim THEN IF Len(hist) < Len(Script) THEN Script[Len(hist) + 1] = op ELSE Len(hist) < Depth
     ELSE /\ IF MaxLevel = 0 THEN TRUE ELSE TLCGet("level") < MaxLevel
          /\ IF TLCGet("level") > Len(Script) THEN TRUE ELSE op = Script[TLCGet("level")]
\* ... and are tried with other arguments if these are no good
Again == Sim /\ Len(hist) < Len(Script) /\ UNCHANGED vars

NewObj ==
  /\ On("NewObj") /\ Len(objs) < MaxObj
  /\ \E t \in Pick(Types) : \E x \in Pick({-1} \cup (IF TI[t].nf > 0 THEN 0..MaxVal ELSE {})) :
       LET b == IF x < 0 THEN Blank(t) ELSE [Blank(t) EXCEPT !.f = Fill(t, x)]
       IN /\ objs' = Append(objs, MkObj(t, b, 0, -1, 2))
          /\ UNCHANGED <<colls, frames, stores>>
          /\ Step([op |-> "NewObj", o |-> Len(objs) + 1, t |-> t, x |-> x, f |-> b.f, res |-> Ok])

SetField ==
  /\ On("SetField")
  /\ \E o \in Pick({p \in Live : IsMutable(p) /\ TI[objs[p].t].nf > 0}) :
     \E i \in Pick(1..TI[objs[o].t].nf) : \E x \in Pick(0..Dom(objs[o].t, i)) :
       /\ objs' = [objs EXCEPT ![o].f[i] = x]
       /\ UNCHANGED <<colls, frames, stores>>
       /\ Step([op |-> "SetField", o |-> o, i |-> i, x |-> x, res |-> Ok])

AddVec ==
  /\ On("AddVec")
  /\ \E o \in Pick({p \in Live : IsMutable(p) /\ TI[objs[p].t].nv > 0}) :
     \E i \in Pick({j \in 1..TI[objs[o].t].nv : Len(objs[o].v[j]) < MaxRel}) :
     \E x \in Pick(0..MaxVal) :
       /\ objs' = [objs EXCEPT ![o].v[i] = Append(@, x)]
       /\ UNCHANGED <<colls, frames, stores>>
       /\ Step([op |-> "AddVec", o |-> o, i |-> i, x |-> x, res |-> Ok])

\* Candidates for relation targets the user has a handle of; 0 is an empty handle
Targets(ts) == {p \in Live : objs[p].h > 0 /\ objs[p].t \in ts} \cup {0}

SetOne ==
  /\ On("SetOne")
  /\ \E o \in Pick({q \in Live : IsMutable(q) /\ Len(TI[objs[q].t].one) > 0}) :
     \E k \in Pick(1..Len(TI[objs[o].t].one)) :
     \E p \in Pick({q \in Targets(TI[objs[o].t].one[k]) : ~WouldCycle(o, q)}) :
       /\ objs' = Reap([objs EXCEPT ![o].one[k] = p])
       /\ UNCHANGED <<colls, frames, stores>>
       /\ Step([op |-> "SetOne", o |-> o, k |-> k, p |-> p, res |-> Ok])

AddMany ==
  /\ On("AddMany")
  /\ \E o \in Pick({q \in Live : IsMutable(q) /\ Len(TI[objs[q].t].many) > 0}) :
     \E k \in Pick({j \in 1..Len(TI[objs[o].t].many) : Len(objs[o].many[j]) < MaxRel}) :
     \E p \in Pick({q \in Targets(TI[objs[o].t].many[k]) \ {0} : ~WouldCycle(o, q)}) :
       /\ objs' = [objs EXCEPT ![o].many[k] = Append(@, p)]
       /\ UNCHANGED <<colls, frames, stores>>
       /\ Step([op |-> "AddMany", o |-> o, k |-> k, p |-> p, res |-> Ok])

\* A clone is a new object, not in any collection, with the same values and,
\* if asked for, the same vector members and relations
Clone ==
  /\ On("Clone") /\ Len(objs) < MaxObj
  /\ \E o \in Pick({q \in Live : objs[q].h > 0}) : \E rel \in Pick(BOOLEAN) :
       LET src == objs[o]
           cpy == IF rel THEN src ELSE [Blank(src.t) EXCEPT !.f = src.f]
       IN /\ objs' = Append(objs, MkObj(src.t, cpy, 0, -1, 2))
          /\ UNCHANGED <<colls, frames, stores>>
          /\ Step([op |-> "Clone", o |-> o, rel |-> rel, n |-> Len(objs) + 1, res |-> Ok])

DropHandle ==
  /\ On("DropHandle")
  /\ \E o \in Pick({q \in Live : objs[q].h > 0}) :
       /\ objs' = Reap([objs EXCEPT ![o].h = 0])
       /\ UNCHANGED <<colls, frames, stores>>
       /\ Step([op |-> "DropHandle", o |-> o, res |-> Ok])

\* A mutable handle converts to an immutable one, never the other way round
ToConst ==
  /\ On("ToConst")
  /\ \E o \in Pick({q \in Live : objs[q].h = 2}) :
       /\ objs' = [objs EXCEPT ![o].h = 1]
       /\ UNCHANGED <<colls, frames, stores>>
       /\ Step([op |-> "ToConst", o |-> o, res |-> Ok])

\* Copying, moving, swapping and assigning handles does nothing to the object
HandleOps ==
  /\ On("HandleOps")
  /\ \E o \in Pick({q \in Live : objs[q].h > 0}) :
       /\ UNCHANGED world
       /\ Step([op |-> "HandleOps", o |-> o, res |-> Ok])

\* A handle obtained through a relation is immutable
GetRel ==
  /\ On("GetRel")
  /\ \E o \in Pick({q \in Live : objs[q].h > 0 /\
                    \E p \in TargetsOf(objs[q]) \ {0} : objs[p].live /\ objs[p].h = 0}) :
     \E p \in Pick({q \in TargetsOf(objs[o]) \ {0} : objs[q].live /\ objs[q].h = 0}) :
       LET k1 == {k \in 1..Len(objs[o].one) : objs[o].one[k] = p}
           k2 == {<<k, j>> \in (1..Len(objs[o].many)) \X (1..MaxRel) :
                    j <= Len(objs[o].many[k]) /\ objs[o].many[k][j] = p}
       IN /\ objs' = [objs EXCEPT ![p].h = 1]
          /\ UNCHANGED <<colls, frames, stores>>
          /\ IF k1 # {}
             THEN Step([op |-> "GetOne", o |-> o, k |-> CHOOSE k \in k1 : TRUE, p |-> p, res |-> Ok])
             ELSE LET kj == CHOOSE kj \in k2 : TRUE
                  IN Step([op |-> "GetMany", o |-> o, k |-> kj[1], j |-> kj[2], p |-> p, res |-> Ok])

\* An element of a collection: mutable as long as the collection is the user's
GetElem ==
  /\ On("GetElem")
  /\ \E c \in Pick({d \in LiveColls : \E i \in 1..Len(colls[d].el) :
                    colls[d].el[i] # 0 /\ objs[colls[d].el[i]].live /\ objs[colls[d].el[i]].h = 0}) :
     \E i \in Pick({j \in 1..Len(colls[c].el) : colls[c].el[j] # 0 /\
                    objs[colls[c].el[j]].live /\ objs[colls[c].el[j]].h = 0}) :
       LET o == colls[c].el[i]
           m == IF colls[c].fr = 0 THEN 2 ELSE 1
       IN /\ objs' = [objs EXCEPT ![o].h = m]
          /\ UNCHANGED <<colls, frames, stores>>
          /\ Step([op |-> "GetElem", c |-> c, i |-> i, o |-> o, res |-> Ok])

\* Access past the end through at() is refused
AtBad ==
  /\ On("AtBad")
  /\ \E c \in Pick(LiveColls) :
       /\ UNCHANGED world
       /\ Step([op |-> "AtBad", c |-> c, res |-> "out_of_range"])
\* ... and so is access past the end of a relation or vector member
RelBad ==
  /\ On("RelBad")
  /\ \E o \in Pick({q \in Live : objs[q].h > 0 /\ (TI[objs[q].t].nv > 0 \/ Len(TI[objs[q].t].many) > 0)}) :
       /\ UNCHANGED world
       /\ Step([op |-> "RelBad", o |-> o, res |-> "out_of_range"])

----------------------------------------------------------------------------
\* Collections

NewColl ==
  /\ On("NewColl") /\ Len(colls) < MaxColl
  /\ \E t \in Pick(Types) : \E s \in Pick(IF "Subset" \in Ops THEN BOOLEAN ELSE {FALSE}) :
       /\ colls' = Append(colls, MkColl(t, s, << >>, 0, "", FALSE, NilStored))
       /\ UNCHANGED <<objs, frames, stores>>
       /\ Step([op |-> "NewColl", c |-> Len(colls) + 1, t |-> t, sub |-> s, res |-> Ok])

Create ==
  /\ On("Create")
  /\ \E c \in Pick({d \in LocalColls : Len(colls[d].el) < MaxEl}) :
     \E args \in Pick({FALSE, TRUE}) : \E x \in Pick(0..MaxVal) :
       LET t == colls[c].t
           wa == args /\ TI[t].nf > 0 /\ ~TI[t].lnk
           b == IF wa THEN [Blank(t) EXCEPT !.f = Fill(t, x)] ELSE Blank(t)
           a == [op |-> "Create", c |-> c, args |-> wa, f |-> b.f, o |-> Len(objs) + 1]
       IN IF colls[c].sub
          THEN /\ UNCHANGED world
               /\ Step(a @@ [res |-> "logic_error"])
          ELSE /\ Len(objs) < MaxObj
               /\ objs' = Append(objs, MkObj(t, b, c, Len(colls[c].el), 2))
               /\ colls' = [colls EXCEPT ![c].el = Append(@, Len(objs) + 1)]
               /\ UNCHANGED <<frames, stores>>
               /\ Step(a @@ [res |-> Ok])

Push ==
  /\ On("Push")
  /\ \E c \in Pick({d \in LocalColls : Len(colls[d].el) < MaxEl}) :
     \E o \in Pick({q \in Live : objs[q].h > 0 /\ objs[q].t = colls[c].t}) :
       LET a == [op |-> "Push", c |-> c, o |-> o]
           sub == colls[c].sub
           ok == IF sub THEN objs[o].col # 0 ELSE objs[o].col = 0 /\ objs[o].h = 2
       IN IF ok
          THEN /\ sub \/ o \notin Settled
               /\ colls' = [colls EXCEPT ![c].el = Append(@, o)]
               /\ objs' = IF sub THEN objs
                          ELSE [objs EXCEPT ![o].col = c, ![o].ix = Len(colls[c].el)]
               /\ UNCHANGED <<frames, stores>>
               /\ Step(a @@ [res |-> Ok])
          ELSE /\ UNCHANGED world
               /\ Step(a @@ [res |-> "invalid_argument"])

\* Build a collection from a range of mutable (owning) or immutable (subset) handles
FromRange ==
  /\ On("FromRange") /\ Len(colls) < MaxColl
  /\ \E m \in Pick(BOOLEAN) : \E t \in Pick(Types) :
     LET cand == IF m THEN {q \in Live : objs[q].t = t /\ objs[q].col = 0 /\ objs[q].h = 2} \ Settled
                 ELSE {q \in Live : objs[q].t = t /\ objs[q].col # 0 /\ objs[q].h > 0}
     IN \E S \in Pick(SUBSET cand \ {{}}) :
          LET s == SetToSortSeq(S, LAMBDA a, b : IF m THEN a < b ELSE a > b)
              c == Len(colls) + 1
          IN /\ Len(s) <= MaxEl
             /\ colls' = Append(colls, MkColl(t, ~m, s, 0, "", FALSE, NilStored))
             /\ objs' = IF ~m THEN objs
                        ELSE [o \in 1..Len(objs) |->
                               IF o \in S THEN [objs[o] EXCEPT !.col = c,
                                                !.ix = (CHOOSE i \in 1..Len(s) : s[i] = o) - 1]
                               ELSE objs[o]]
             /\ UNCHANGED <<frames, stores>>
             /\ Step([op |-> "FromRange", c |-> c, t |-> t, m |-> m, s |-> s, res |-> Ok])

\* elements a collection refers to that are gone can only be forgotten
SubsetDangling(c) == colls[c].sub /\ \E i \in 1..Len(colls[c].el) :
                       colls[c].el[i] # 0 /\ ~objs[colls[c].el[i]].live

SetSubset ==
  /\ On("SetSubset")
  /\ \E c \in Pick(LocalColls) : \E s \in Pick(BOOLEAN) :
       LET a == [op |-> "SetSubset", c |-> c, sub |-> s]
       IN IF Len(colls[c].el) > 0 /\ s # colls[c].sub
          THEN UNCHANGED world /\ Step(a @@ [res |-> "logic_error"])
          ELSE /\ colls' = [colls EXCEPT ![c].sub = s]
               /\ UNCHANGED <<objs, frames, stores>>
               /\ Step(a @@ [res |-> Ok])

ClearColl ==
  /\ On("Clear")
  /\ \E c \in Pick(LocalColls) :
       /\ objs' = Kill(objs, OwnedBy(c))
       /\ colls' = [colls EXCEPT ![c].el = << >>]
       /\ UNCHANGED <<frames, stores>>
       /\ Step([op |-> "Clear", c |-> c, res |-> Ok])

DropColl ==
  /\ On("DropColl")
  /\ \E c \in Pick(LocalColls) :
       /\ objs' = Kill(objs, OwnedBy(c))
       /\ colls' = [colls EXCEPT ![c] = DeadColl]
       /\ UNCHANGED <<frames, stores>>
       /\ Step([op |-> "DropColl", c |-> c, res |-> Ok])

\* moving out and back in again changes nothing
MoveColl ==
  /\ On("MoveColl")
  /\ \E c \in Pick(LocalColls) :
       /\ UNCHANGED world
       /\ Step([op |-> "MoveColl", c |-> c, res |-> Ok])

\* c = std::move(d): the former elements of c are gone, those of d now belong to c
MoveInto ==
  /\ On("MoveInto")
  /\ \E c \in Pick(LocalColls) : \E d \in Pick({e \in LocalColls \ {c} : colls[e].t = colls[c].t}) :
       LET gone == OwnedBy(c)
           moved == [o \in 1..Len(objs) |-> IF objs[o].col = d THEN [objs[o] EXCEPT !.col = c] ELSE objs[o]]
       IN /\ objs' = Kill(moved, gone)
          /\ colls' = [colls EXCEPT ![c].el = colls[d].el, ![c].sub = colls[d].sub, ![d] = DeadColl]
          /\ UNCHANGED <<frames, stores>>
          /\ Step([op |-> "MoveInto", c |-> c, d |-> d, res |-> Ok])

----------------------------------------------------------------------------
\* Frames

NewFrame ==
  /\ On("NewFrame") /\ Len(frames) < MaxFrame
  /\ frames' = Append(frames, [live |-> TRUE, st |-> 0, map |-> << >>, avail |-> {}, ids |-> {},
                               par |-> [k \in Keys |-> 0]])
  /\ UNCHANGED <<objs, colls, stores>>
  /\ Step([op |-> "NewFrame", f |-> Len(frames) + 1, res |-> Ok])

\* the names a stored collection refers to
RefsOfStored(s) ==
  {r.n : r \in Range1(s.refs) \cup
     UNION {Range1(s.data[i].one) \cup UNION {Range1(s.data[i].many[k]) : k \in 1..Len(s.data[i].many)}
              : i \in 1..Len(s.data)}}

DomMap(f) == DOMAIN frames[f].map
Available(f) == DomMap(f) \cup frames[f].avail
\* names that what the frame has been read from refers to, without the frame having
\* such a collection. Nothing else is put under these names.
Missing(f) == frames[f].ids \cup
  (IF frames[f].st = 0 THEN {}
   ELSE UNION {RefsOfStored(stores[frames[f].st].colls[n]) : n \in DOMAIN stores[frames[f].st].colls})

\* Putting hands the collection over, unless the name is in use: then nothing changes
\* in the frame and the collection is lost with the call
Put ==
  /\ On("Put")
  /\ \E f \in Pick(LiveFrames) : \E c \in Pick({d \in LocalColls : OwnedBy(d) \cap Settled = {}}) :
     \E n \in Pick(Names \ (Missing(f) \ Available(f))) :
     \E how \in Pick({"move", "unique"}) :
       LET a == [op |-> "Put", f |-> f, c |-> c, n |-> n, how |-> how]
       IN IF n \in Available(f)
          THEN /\ objs' = Kill(objs, OwnedBy(c))
               /\ colls' = [colls EXCEPT ![c] = DeadColl]
               /\ UNCHANGED <<frames, stores>>
               /\ Step(a @@ [res |-> "invalid_argument"])
          ELSE /\ colls' = [colls EXCEPT ![c].fr = f, ![c].nm = n]
               /\ frames' = [frames EXCEPT ![f].map = (n :> c) @@ @, ![f].ids = @ \cup {n}]
               /\ UNCHANGED <<objs, stores>>
               /\ Step(a @@ [res |-> Ok])

(***************************************************************************)
(* Unpacking: getting a collection that is still in the raw data of the    *)
(* frame brings in everything it refers to, directly or indirectly, that   *)
(* is available.                                                           *)
(***************************************************************************)
RECURSIVE Closure(_, _, _)
Closure(st, avail, S) ==
  LET more == (UNION {RefsOfStored(stores[st].colls[n]) : n \in S} \cap avail) \ S
  IN IF more = {} THEN S ELSE Closure(st, avail, S \cup more)

SortNames(S) == SetToSortSeq(S, LAMBDA a, b : \* any fixed order will do
                  LET s == SetToSeq(Names) IN
                  (CHOOSE i \in 1..Len(s) : s[i] = a) < (CHOOSE i \in 1..Len(s) : s[i] = b))

\* the world after the collections ns of frame f have been unpacked
Unpacked(f, ns) ==
  LET st == frames[f].st
      seq == SortNames(ns)
      no == Len(objs)
      nc == Len(colls)
      stc(i) == stores[st].colls[seq[i]]
      \* number of own objects of the first i collections
      cnt[i \in 0..Len(seq)] == IF i = 0 THEN 0 ELSE cnt[i-1] + Len(stc(i).data)
      newmap == [n \in ns |-> nc + (CHOOSE i \in 1..Len(seq) : seq[i] = n)] @@ frames[f].map
      pos(n) == CHOOSE i \in 1..Len(seq) : seq[i] = n
      \* element i (from 0) of collection n of this frame
      elem(n, i) == IF n \in ns
                    THEN IF stores[st].colls[n].sub THEN 0 ELSE no + cnt[pos(n)-1] + i + 1
                    ELSE colls[newmap[n]].el[i + 1]
      res(r) == IF r.i >= 0 /\ r.n \in DOMAIN newmap THEN elem(r.n, r.i) ELSE 0
      obj(i, j) == LET d == stc(i).data[j] IN
         MkObj(stc(i).t, [f |-> d.f, v |-> d.v, one |-> [k \in 1..Len(d.one) |-> res(d.one[k])],
                 many |-> [k \in 1..Len(d.many) |-> [m \in 1..Len(d.many[k]) |-> res(d.many[k][m])]]],
               nc + i, j - 1, 0)
      own(i) == [j \in 1..Len(stc(i).data) |-> obj(i, j)]
      coll(i) == LET s == stc(i) IN
         MkColl(s.t, s.sub, IF s.sub THEN [j \in 1..Len(s.refs) |-> res(s.refs[j])]
                            ELSE [j \in 1..Len(s.data) |-> no + cnt[i-1] + j],
                f, seq[i], TRUE, s)
  IN [objs |-> objs \o FlattenSeq([i \in 1..Len(seq) |-> own(i)]),
      colls |-> colls \o [i \in 1..Len(seq) |-> coll(i)],
      frames |-> [frames EXCEPT ![f].map = newmap, ![f].avail = @ \ ns]]

Fits(w) == Len(w.objs) <= MaxObj /\ Len(w.colls) <= MaxColl

Get ==
  /\ On("Get")
  /\ \E f \in Pick(LiveFrames) : \E n \in Pick(Names) : \E how \in Pick({"ptr", "typed", "wrong"}) :
       LET a == [op |-> "Get", f |-> f, n |-> n, how |-> how]
       IN IF n \in frames[f].avail
          THEN LET w == Unpacked(f, Closure(frames[f].st, frames[f].avail, {n}))
               IN /\ Fits(w)
                  /\ objs' = w.objs /\ colls' = w.colls /\ frames' = w.frames
                  /\ UNCHANGED stores
                  /\ Step(a @@ [res |-> IF how = "wrong" THEN "runtime_error" ELSE Ok,
                                c |-> w.frames[f].map[n]])
          ELSE /\ UNCHANGED world
               /\ IF n \in DomMap(f)
                  THEN Step(a @@ [res |-> IF how = "wrong" THEN "runtime_error" ELSE Ok,
                                  c |-> frames[f].map[n]])
                  ELSE Step(a @@ [res |-> IF how = "ptr" THEN "null" ELSE "runtime_error", c |-> 0])

PutParam ==
  /\ On("PutParam")
  /\ \E f \in Pick(LiveFrames) : \E k \in Pick(Keys) : \E x \in Pick(1..3) :
       /\ frames' = [frames EXCEPT ![f].par[k] = x]
       /\ UNCHANGED <<objs, colls, stores>>
       /\ Step([op |-> "PutParam", f |-> f, k |-> k, x |-> x, res |-> Ok])

DropFrame ==
  /\ On("DropFrame")
  /\ \E f \in Pick(LiveFrames) :
       LET cs == {c \in LiveColls : colls[c].fr = f}
       IN /\ objs' = Kill(objs, UNION {OwnedBy(c) : c \in cs})
          /\ colls' = [c \in 1..Len(colls) |-> IF c \in cs THEN DeadColl ELSE colls[c]]
          /\ frames' = [frames EXCEPT ![f] = [live |-> FALSE, st |-> 0, map |-> << >>, avail |-> {},
                                              ids |-> {}, par |-> [k \in Keys |-> 0]]]
          /\ UNCHANGED stores
          /\ Step([op |-> "DropFrame", f |-> f, res |-> Ok])

MoveFrame ==
  /\ On("MoveFrame")
  /\ \E f \in Pick(LiveFrames) :
       /\ UNCHANGED world
       /\ Step([op |-> "MoveFrame", f |-> f, res |-> Ok])

----------------------------------------------------------------------------
(***************************************************************************)
(* Writing.  A reference is stored as collection (name standing for its ID)*)
(* and index.  Objects in collections that never got an ID, and objects in *)
(* no collection, have no resolvable reference.                            *)
(***************************************************************************)
NoRef == [n |-> "", i |-> -1]
NullRef == [n |-> "", i |-> -2]
RefOf(os, cs, p) == IF p = 0 THEN NoRef
                    ELSE IF os[p].col = 0 THEN NoRef
                    ELSE [n |-> cs[os[p].col].nm, i |-> os[p].ix]
Stored(w, c) ==
  LET col == w.colls[c] IN
  IF col.rb THEN col.st
  ELSE IF col.sub THEN [t |-> col.t, sub |-> TRUE, data |-> << >>,
                        refs |-> [i \in 1..Len(col.el) |-> RefOf(w.objs, w.colls, col.el[i])]]
  ELSE [t |-> col.t, sub |-> FALSE, refs |-> << >>,
        data |-> [i \in 1..Len(col.el) |->
          LET o == w.objs[col.el[i]] IN
          [f |-> o.f, v |-> o.v,
           one |-> [k \in 1..Len(o.one) |-> RefOf(w.objs, w.colls, o.one[k])],
           many |-> [k \in 1..Len(o.many) |->
                      [m \in 1..Len(o.many[k]) |-> RefOf(w.objs, w.colls, o.many[k][m])]]]]]

\* a one-to-many relation to an object without ObjectID cannot be stored
Unstorable(w, c) ==
  LET col == w.colls[c] IN
  ~col.rb /\ ~col.sub /\ \E i \in 1..Len(col.el) : \E k \in 1..Len(w.objs[col.el[i]].many) :
     \E p \in Range1(w.objs[col.el[i]].many[k]) : p = 0 \/ w.objs[p].col = 0

\* everything collection c refers to still exists, and is either in the same
\* frame or nowhere that could be confused with something in it
Writable(w, f, c) ==
  LET col == w.colls[c]
      tgts == IF col.sub THEN Range1(col.el)
              ELSE UNION {TargetsOf(w.objs[o]) : o \in Range1(col.el)}
  IN IF col.rb THEN TRUE
     ELSE \A p \in tgts \ {0} :
            IF ~w.objs[p].live THEN FALSE
            ELSE IF w.objs[p].col = 0 THEN TRUE
            ELSE LET d == w.colls[w.objs[p].col] IN d.fr \in {0, f} \/ d.nm \notin frames[f].ids

Write ==
  /\ On("Write")
  /\ \E f \in Pick(LiveFrames) :
     \E sel \in Pick(IF "WriteSome" \in Ops THEN SUBSET Available(f) ELSE {Available(f)}) :
       /\ Available(f) # {}
       /\ LET raw == sel \cap frames[f].avail
              w == IF raw = {} THEN [objs |-> objs, colls |-> colls, frames |-> frames]
                   ELSE Unpacked(f, Closure(frames[f].st, frames[f].avail, raw))
              mp == w.frames[f].map
              a == [op |-> "Write", f |-> f, sel |-> SortNames(sel), s |-> Len(stores) + 1]
          IN /\ Fits(w)
             /\ \A n \in sel : Writable(w, f, mp[n])
             /\ objs' = w.objs /\ frames' = w.frames
             /\ colls' = [c \in 1..Len(w.colls) |->
                            IF \E n \in sel : mp[n] = c THEN [w.colls[c] EXCEPT !.wr = ~Unstorable(w, c)]
                            ELSE w.colls[c]]
             /\ IF \E n \in sel : Unstorable(w, mp[n])
                THEN UNCHANGED stores /\ Step(a @@ [res |-> "runtime_error"])
                ELSE /\ Len(stores) < MaxStore
                     /\ stores' = Append(stores,
                          [colls |-> [n \in sel |-> Stored(w, mp[n])],
                           ids |-> frames[f].ids, par |-> frames[f].par])
                     /\ Step(a @@ [res |-> Ok])

\* reading gives a new frame that has everything, or the collections asked for
Read ==
  /\ On("Read") /\ Len(frames) < MaxFrame
  /\ \E s \in Pick(1..Len(stores)) :
     \E lim \in Pick(IF "ReadSome" \in Ops THEN SUBSET DOMAIN stores[s].colls \ {{}}
                     ELSE {DOMAIN stores[s].colls}) :
       /\ frames' = Append(frames, [live |-> TRUE, st |-> s, map |-> << >>, avail |-> lim,
                                    ids |-> stores[s].ids, par |-> stores[s].par])
       /\ UNCHANGED <<objs, colls, stores>>
       /\ Step([op |-> "Read", f |-> Len(frames) + 1, s |-> s, lim |-> SortNames(lim),
                all |-> lim = DOMAIN stores[s].colls, res |-> Ok])

----------------------------------------------------------------------------
Init ==
  /\ objs = << >> /\ colls = << >> /\ frames = << >> /\ stores = << >>
  /\ act = [op |-> "Init", res |-> Ok]
  /\ hist = << >>

Next ==
  \/ NewObj \/ SetField \/ AddVec \/ SetOne \/ AddMany \/ Clone \/ DropHandle \/ ToConst \/ HandleOps
  \/ GetRel \/ GetElem \/ AtBad \/ RelBad
  \/ NewColl \/ Create \/ Push \/ FromRange \/ SetSubset \/ ClearColl \/ DropColl \/ MoveColl \/ MoveInto
  \/ NewFrame \/ Put \/ Get \/ PutParam \/ DropFrame \/ MoveFrame \/ Write \/ Read \/ Again

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(***************************************************************************)
(* What this is all for.                                                   *)
(***************************************************************************)

\* an object belongs to at most one collection, which lists it exactly where
\* its index says
Ownership ==
  \A o \in Live : objs[o].col # 0 =>
     LET c == colls[objs[o].col] IN
       /\ c.live /\ ~c.sub /\ c.t = objs[o].t
       /\ objs[o].ix + 1 \in 1..Len(c.el) /\ c.el[objs[o].ix + 1] = o
OwningIndices ==
  \A c \in LiveColls : ~colls[c].sub =>
     \A i \in 1..Len(colls[c].el) :
        LET o == colls[c].el[i] IN objs[o].live /\ objs[o].col = c /\ objs[o].ix = i - 1
\* a subset collection owns nothing and refers only to objects others own
SubsetsOwnNothing ==
  \A c \in LiveColls : colls[c].sub => OwnedBy(c) = {} /\
     \A i \in 1..Len(colls[c].el) : LET o == colls[c].el[i] IN
        o # 0 /\ objs[o].live => objs[o].col # 0
\* no garbage and no dangling user handle
Lifetimes ==
  \A o \in 1..Len(objs) :
     (objs[o].live <=> objs[o].t # "-") /\
     (objs[o].live /\ objs[o].col = 0 => objs[o].h > 0 \/ o \in Referenced(objs))
RelationTypes ==
  \A o \in Live : LET t == TI[objs[o].t] IN
     /\ \A k \in 1..Len(t.one) : LET p == objs[o].one[k] IN p # 0 /\ objs[p].live => objs[p].t \in t.one[k]
     /\ \A k \in 1..Len(t.many) : \A p \in Range1(objs[o].many[k]) :
           p # 0 /\ objs[p].live => objs[p].t \in t.many[k]
\* a frame owns each of its collections once, under one name
FrameMaps ==
  \A f \in LiveFrames :
     /\ \A n \in DomMap(f) : LET c == colls[frames[f].map[n]] IN c.live /\ c.fr = f /\ c.nm = n
     /\ DomMap(f) \cap frames[f].avail = {}
     /\ Available(f) \subseteq frames[f].ids

(***************************************************************************)
(* Reading back gives the same thing: every collection read back has the   *)
(* values that were stored, and its references lead to the element of the  *)
(* collection of the same name in the same frame, or nowhere if there is   *)
(* no such collection.                                                     *)
(***************************************************************************)
SameRef(f, r, p) ==
  IF r.i >= 0 /\ r.n \in DomMap(f)
  THEN LET c == colls[frames[f].map[r.n]] IN
       IF c.sub THEN FALSE ELSE p = c.el[r.i + 1]
  ELSE p = 0
ReadBack ==
  \A c \in LiveColls : colls[c].rb =>
    LET col == colls[c]  s == col.st  f == col.fr IN
    /\ col.t = s.t /\ col.sub = s.sub
    /\ IF s.sub
       THEN Len(col.el) = Len(s.refs) /\ \A i \in 1..Len(s.refs) : SameRef(f, s.refs[i], col.el[i])
       ELSE /\ Len(col.el) = Len(s.data)
            /\ \A i \in 1..Len(s.data) :
                 LET o == objs[col.el[i]]  d == s.data[i] IN
                 /\ o.f = d.f /\ o.v = d.v
                 /\ \A k \in 1..Len(d.one) : SameRef(f, d.one[k], o.one[k])
                 /\ \A k \in 1..Len(d.many) :
                      /\ Len(o.many[k]) = Len(d.many[k])
                      /\ \A m \in 1..Len(d.many[k]) : SameRef(f, d.many[k][m], o.many[k][m])
\* whatever is reachable from an unpacked collection is unpacked as well
Closed ==
  \A c \in LiveColls : colls[c].rb =>
     RefsOfStored(colls[c].st) \cap frames[colls[c].fr].avail = {}

Inv == Ownership /\ OwningIndices /\ SubsetsOwnNothing /\ Lifetimes /\ RelationTypes
       /\ FrameMaps /\ ReadBack /\ Closed

\* what is in a frame does not change any more
FramedStays ==
  [][\A c \in 1..Len(colls) :
       (colls[c].live /\ colls[c].fr # 0 /\ c <= Len(colls')) =>
         \/ ~colls'[c].live
         \/ /\ [colls'[c] EXCEPT !.wr = FALSE] = [colls[c] EXCEPT !.wr = FALSE]
            /\ \A o \in OwnedBy(c) :
                 [objs'[o] EXCEPT !.h = 0] = [objs[o] EXCEPT !.h = 0]]_vars

----------------------------------------------------------------------------
\* Emission of behaviours and of the transition graph
EmitHist == Depth = 0 \/ Len(hist) # Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
W == [objs |-> objs, colls |-> colls, frames |-> frames, stores |-> stores]
EmitState == PrintT(<<"ST", TLCFP(world), TLCFP(<<world>>), ToJson(W)>>)
Scripted == TLCGet("level") > Len(Script) \/ act'.op = Script[TLCGet("level")]
EmitEdge == Scripted /\ PrintT(<<"ED", TLCFP(world), TLCFP(<<world>>), TLCFP(world'), TLCFP(<<world'>>), ToJson(act')>>)
View == world
Short == MaxLevel = 0 \/ TLCGet("level") <= MaxLevel
=============================================================================

------------------------------ MODULE FrameConc ------------------------------
(***************************************************************************)
(* How a Frame that is used by several threads unpacks collections, at the *)
(* level of detail that can be observed and controlled from outside: a     *)
(* thread passes a gate whenever it calls the frame, whenever the frame    *)
(* calls back (the raw data for buffers or for what is left, a collection  *)
(* for preparing itself or for resolving its references) and whenever a    *)
(* call returns.                                                           *)
(*                                                                         *)
(* With Locked = TRUE this is the protocol of podio::Frame (one recursive  *)
(* lock around everything that concerns collections) and the invariants    *)
(* have to hold.  With Locked = FALSE threads interleave freely; TLC then  *)
(* finds violations, and all the schedules which a wrong implementation    *)
(* might take.  cpp/conc_driver.cc makes the real code follow them as far  *)
(* as it lets itself; what comes out is judged by FrameLin.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
  Names,     \* collection names
  MaxRaw,    \* so many of them may be in the raw data
  Threads,   \* 1..n
  OpNames,   \* operations in use
  Keys,      \* parameter keys
  NOps,      \* length of the programs
  Locked,    \* follow the locking protocol
  Sim        \* choose at random

VARIABLES
  graph,   \* what refers to what
  rawset,  \* what is in the raw data in the beginning
  progs,   \* the programs of the threads
  raw,     \* what still is in the raw data
  insts,   \* the collections created so far
  map,     \* name -> number of collection, 0 if there is none
  asked,   \* the references asked for already (m_retrievedIDs)
  th,      \* the threads
  lock,    \* the thread holding the lock, or 0
  bad,     \* what has gone wrong
  sched,   \* the threads that passed a gate, in order
  ready    \* the scenario has been chosen
vars == <<graph, rawset, progs, raw, insts, map, asked, th, lock, bad, sched, ready>>
scenario == <<graph, rawset, progs, ready>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Sorted(S) == SetToSeq(S)

AllOps == UNION {
  {[op |-> o, n |-> n] : o \in OpNames \cap {"get", "put", "write", "use"}, n \in Names},
  {[op |-> o, n |-> ""] : o \in OpNames \cap {"avail", "ids", "hand"}},
  {[op |-> o, n |-> k] : o \in OpNames \cap {"setp", "getp", "keys", "print"}, k \in Keys}}

Idle == [i |-> 0, st |-> "idle", stk |-> << >>, ret |-> 0]

Init ==
  /\ graph = << >> /\ rawset = {} /\ progs = << >> /\ raw = {} /\ insts = << >> /\ map = << >>
  /\ asked = {} /\ th = [t \in Threads |-> Idle] /\ lock = 0 /\ bad = {} /\ sched = << >> /\ ready = FALSE

Subs == {R \in SUBSET Names : R # {} /\ Cardinality(R) <= MaxRaw}
Setup ==
  /\ ~ready /\ ready' = TRUE
  /\ \E R \in Pick(Subs) :
     /\ rawset' = R /\ raw' = R
     /\ IF Sim THEN graph' = [n \in R |-> RandomElement(SUBSET (R \cup {"nz"}))]
        ELSE \E g \in [R -> SUBSET R] : graph' = g
  /\ IF Sim THEN progs' = [t \in Threads |-> [i \in 1..NOps |-> RandomElement(AllOps)]]
     ELSE \E p \in [Threads -> [1..NOps -> AllOps]] : progs' = p
  /\ map' = [n \in Names \cup {"nz"} |-> 0]
  /\ UNCHANGED <<insts, asked, th, lock, bad, sched>>

Op(t) == progs[t][th[t].i]
Top(t) == th[t].stk[Len(th[t].stk)]
Below(t) == SubSeq(th[t].stk, 1, Len(th[t].stk) - 1)
Gate(t) == sched' = Append(sched, t)

\* an activation of doGet: n is the name, pc where it is, todo the references still
\* to be resolved, refs whether to resolve any
Act(n, refs) == [n |-> n, refs |-> refs, inst |-> 0, todo |-> << >>,
                 pc |-> IF map[n] # 0 THEN "done" ELSE "take"]
Found(a) == IF map[a.n] # 0 THEN [a EXCEPT !.inst = map[a.n]] ELSE a

Call(t) ==
  /\ th[t].st = "idle" /\ th[t].i < NOps
  /\ LET op == progs[t][th[t].i + 1]
         locks == op.op \in {"get", "put", "avail", "write", "use", "ids"}
     IN /\ Locked /\ locks => lock = 0
        /\ lock' = IF Locked /\ locks THEN t ELSE lock
        /\ th' = [th EXCEPT ![t] = [i |-> @.i + 1, ret |-> 0, stk |->
                    IF op.op \in {"get", "write", "use"} THEN <<Found(Act(op.n, TRUE))>> ELSE << >>,
                    st |-> CASE op.op \in {"get", "write", "use"} -> "get"
                             [] op.op \in {"put", "avail"} -> "peek"
                             [] OTHER -> "ret"]]
  /\ Gate(t)
  /\ UNCHANGED <<scenario, raw, insts, map, asked, bad>>

\* the raw data is asked for the buffers
Take(t) ==
  /\ th[t].st = "get" /\ th[t].stk # << >> /\ Top(t).pc = "take"
  /\ LET a == Top(t) IN
     IF a.n \in raw
     THEN /\ raw' = raw \ {a.n}
          /\ insts' = Append(insts, [n |-> a.n, tgt |-> [m \in graph[a.n] |-> 0], done |-> FALSE])
          /\ th' = [th EXCEPT ![t].stk = Append(Below(t), [a EXCEPT !.pc = "prep", !.inst = Len(insts) + 1])]
     ELSE /\ th' = [th EXCEPT ![t].stk = Append(Below(t), [a EXCEPT !.pc = "done"])]
          /\ UNCHANGED <<raw, insts>>
  /\ Gate(t)
  /\ UNCHANGED <<scenario, map, asked, lock, bad>>

\* the collection is prepared and goes to the map
Prep(t) ==
  /\ th[t].st = "get" /\ th[t].stk # << >> /\ Top(t).pc = "prep"
  /\ LET a == Top(t) IN
     /\ map' = IF map[a.n] = 0 THEN [map EXCEPT ![a.n] = a.inst] ELSE map
     /\ th' = [th EXCEPT ![t].stk = Append(Below(t), [a EXCEPT !.pc = IF a.refs THEN "refs" ELSE "done",
                                                               !.todo = Sorted(graph[a.n])])]
  /\ Gate(t)
  /\ UNCHANGED <<scenario, raw, insts, asked, lock, bad>>

\* it is told to resolve its references
Refs(t) ==
  /\ th[t].st = "get" /\ th[t].stk # << >> /\ Top(t).pc = "refs"
  /\ th' = [th EXCEPT ![t].stk = Append(Below(t), [Top(t) EXCEPT !.pc = "req"])]
  /\ Gate(t)
  /\ UNCHANGED <<scenario, raw, insts, map, asked, lock, bad>>

\* and asks for the next one
Req(t) ==
  /\ th[t].st = "get" /\ th[t].stk # << >> /\ Top(t).pc = "req" /\ Top(t).todo # << >>
  /\ LET m == Head(Top(t).todo)
         b == Act(m, m \notin asked)
     IN /\ asked' = asked \cup {m}
        /\ th' = [th EXCEPT ![t].stk = Append(@, Found(b))]
  /\ Gate(t)
  /\ UNCHANGED <<scenario, raw, insts, map, lock, bad>>

\* no gate: an activation comes to its end
AllDone(t) ==
  /\ th[t].st = "get" /\ th[t].stk # << >> /\ Top(t).pc = "req" /\ Top(t).todo = << >>
  /\ insts' = [insts EXCEPT ![Top(t).inst].done = TRUE]
  /\ th' = [th EXCEPT ![t].stk = Append(Below(t), [Top(t) EXCEPT !.pc = "done"])]
  /\ UNCHANGED <<scenario, raw, map, asked, lock, bad, sched>>
RECURSIVE Reach(_)
Reach(S) == LET more == UNION {{insts[i].tgt[m] : m \in DOMAIN insts[i].tgt} : i \in S} \ ({0} \cup S)
            IN IF more = {} THEN S ELSE Reach(S \cup more)
Pop(t) ==
  /\ th[t].st = "get" /\ th[t].stk # << >> /\ Top(t).pc = "done"
  /\ IF Len(th[t].stk) > 1
     THEN LET q == Below(t)[Len(th[t].stk) - 1] IN
          /\ insts' = [insts EXCEPT ![q.inst].tgt[Top(t).n] = Top(t).inst]
          /\ th' = [th EXCEPT ![t].stk = Append(SubSeq(Below(t), 1, Len(th[t].stk) - 2),
                                                [q EXCEPT !.todo = Tail(@)])]
     ELSE /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.st = "ret", !.stk = << >>, !.ret = Top(t).inst]]
          /\ UNCHANGED insts
  /\ UNCHANGED <<scenario, raw, map, asked, lock, bad, sched>>

\* the raw data is asked what is left
Peek(t) ==
  /\ th[t].st = "peek"
  /\ IF Op(t).op = "put"
     THEN IF Op(t).n \in raw \/ map[Op(t).n] # 0
          THEN UNCHANGED <<insts, map>>
          ELSE /\ insts' = Append(insts, [n |-> Op(t).n, tgt |-> << >>, done |-> TRUE])
               /\ map' = [map EXCEPT ![Op(t).n] = Len(insts) + 1]
     ELSE UNCHANGED <<insts, map>>
  /\ bad' = IF Op(t).op = "avail" /\ \E n \in rawset : n \notin raw /\ map[n] = 0
            THEN bad \cup {"missed"} ELSE bad
  /\ th' = [th EXCEPT ![t].st = "ret"]
  /\ Gate(t)
  /\ UNCHANGED <<scenario, raw, asked, lock>>

Ret(t) ==
  /\ th[t].st = "ret"
  /\ th' = [th EXCEPT ![t].st = "idle"]
  /\ lock' = IF lock = t THEN 0 ELSE lock
  /\ bad' = bad
       \cup (IF th[t].ret # 0 /\ \E i \in Reach({th[t].ret}) :
                  ~insts[i].done \/ \E m \in DOMAIN insts[i].tgt : insts[i].tgt[m] = 0 /\ m \in rawset
             THEN {"unresolved"} ELSE {})
       \cup (IF Op(t).op \in {"get", "write", "use"} /\ th[t].ret = 0 /\ Op(t).n \in rawset THEN {"lost"} ELSE {})
  /\ Gate(t)
  /\ UNCHANGED <<scenario, raw, insts, map, asked>>

Quiet(t) == ~ENABLED AllDone(t) /\ ~ENABLED Pop(t)
Finished == ready /\ \A t \in Threads : th[t].st = "idle" /\ th[t].i = NOps
Next ==
  \/ Setup
  \/ /\ ready
     /\ \E t \in Threads : AllDone(t) \/ Pop(t)
  \/ /\ ready /\ \A t \in Threads : Quiet(t)
     /\ \E t \in Threads : Call(t) \/ Take(t) \/ Prep(t) \/ Refs(t) \/ Req(t) \/ Peek(t) \/ Ret(t)
  \/ Finished /\ ~Sim /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* nothing goes wrong
Fine == bad = {}
\* every collection is created once
Once == \A i, j \in 1..Len(insts) : insts[i].n = insts[j].n => i = j
\* the raw data, the map and what is on its way there are everything
Kept == ready => \A n \in rawset : n \in raw \/ map[n] # 0 \/ \E i \in 1..Len(insts) : insts[i].n = n /\ ~insts[i].done
Inv == Fine /\ Once /\ Kept

Emit == ~Finished \/ PrintT(<<"BEH", ToJson([graph |-> graph, raw |-> Sorted(rawset), progs |-> progs, sched |-> sched])>>)
NoSched == <<graph, rawset, progs, raw, insts, map, asked, th, lock, bad, ready>>
==============================================================================

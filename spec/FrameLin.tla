------------------------------ MODULE FrameLin ------------------------------
(***************************************************************************)
(* A Frame seen from outside when several threads use it: every call takes *)
(* effect at one point between its call and its return.  This module       *)
(* explains recorded histories: a history is accepted if there are such    *)
(* points that give all the recorded results.                              *)
(*                                                                         *)
(* A history is a record                                                   *)
(*   refs:  name -> names the collection in the raw data refers to         *)
(*   raw:   names in the raw data                                          *)
(*   ev:    sequence of [k |-> "c", t, op, n, res] (a call, with the result*)
(*          it is going to have), [k |-> "r", t] (its return) and at the   *)
(*          end [k |-> "e", takes, avail]                                  *)
(* Collections are identified by numbers; results of get, write and use    *)
(* are [id, ok, tgt] with the identity of the collection (0: none), that   *)
(* its contents are right, and whom it refers to.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES h, pos, pend, bound, par
vars == <<h, pos, pend, bound, par>>

T == Traces[h]
Ev == T.ev
SetOf(s) == {s[i] : i \in 1..Len(s)}
NamesOf(t) == SetOf(t.raw) \cup {t.ev[i].n : i \in {j \in 1..Len(t.ev) : t.ev[j].k = "c"}}
                           \cup UNION {SetOf(t.refs[n]) : n \in DOMAIN t.refs}
None == [op |-> "none"]

Init ==
  /\ h \in 1..Len(Traces) /\ pos = 1
  /\ pend = [t \in 1..T.threads |-> None]
  /\ bound = [n \in NamesOf(T) |-> IF n \in SetOf(T.raw) THEN -1 ELSE 0]
  /\ par = << >>

Here == pos <= Len(Ev)

Call ==
  /\ Here /\ Ev[pos].k = "c"
  /\ pend' = [pend EXCEPT ![Ev[pos].t] = Ev[pos]]
  /\ pos' = pos + 1 /\ UNCHANGED <<h, bound, par>>

\* name n can be the collection with number i
Is(b, n, i) ==
  CASE b[n] = 0 -> i = 0
    [] b[n] = -1 -> i # 0 /\ \A m \in DOMAIN b : b[m] # i
    [] OTHER -> i = b[n]
Bind(b, n, i) == IF b[n] = -1 THEN [b EXCEPT ![n] = i] ELSE b
\* bind the targets of a collection one after the other
RECURSIVE BindAll(_, _, _)
BindAll(b, S, tgt) ==
  IF S = {} THEN [ok |-> TRUE, b |-> b]
  ELSE LET m == CHOOSE x \in S : TRUE IN
       IF Is(b, m, tgt[m]) THEN BindAll(Bind(b, m, tgt[m]), S \ {m}, tgt)
       ELSE [ok |-> FALSE, b |-> b]

Collection(c) ==
  IF ~Is(bound, c.n, c.res.id) THEN [ok |-> FALSE, b |-> bound]
  ELSE IF c.res.id = 0 THEN [ok |-> TRUE, b |-> bound]
  ELSE LET b == Bind(bound, c.n, c.res.id)
           refs == IF c.n \in SetOf(T.raw) THEN SetOf(T.refs[c.n]) \cap SetOf(T.raw) ELSE {}
       IN IF ~c.res.ok \/ {m \in DOMAIN c.res.tgt : c.res.tgt[m] # 0} # refs THEN [ok |-> FALSE, b |-> bound]
          ELSE BindAll(b, refs, c.res.tgt)

There(b) == {n \in DOMAIN b : b[n] # 0}
Exact(list, S) == SetOf(list) = S /\ Len(list) = Cardinality(S)

Lin(t) ==
  LET c == pend[t] IN
  /\ c.op # "none" /\ c.k = "c"
  /\ pend' = [pend EXCEPT ![t] = [op |-> c.op, k |-> "done"]]
  /\ CASE c.op \in {"get", "write", "use"} ->
            LET r == Collection(c) IN r.ok /\ bound' = r.b /\ UNCHANGED par
       [] c.op = "put" ->
            IF c.res.id # 0
            THEN bound[c.n] = 0 /\ (\A m \in DOMAIN bound : bound[m] # c.res.id)
                 /\ bound' = [bound EXCEPT ![c.n] = c.res.id] /\ UNCHANGED par
            ELSE bound[c.n] # 0 /\ UNCHANGED <<bound, par>>
       [] c.op = "avail" -> Exact(c.res.list, There(bound)) /\ UNCHANGED <<bound, par>>
       \* names get their IDs when they are put, not necessarily at the same point
       [] c.op = "ids" ->
            /\ There(bound) \subseteq SetOf(c.res.list)
            /\ SetOf(c.res.list) \subseteq There(bound) \cup
                 {Ev[i].n : i \in {j \in 1..pos - 1 : Ev[j].k = "c" /\ Ev[j].op = "put"}}
            /\ Len(c.res.list) = Cardinality(SetOf(c.res.list))
            /\ UNCHANGED <<bound, par>>
       [] c.op = "setp" -> par' = [k \in DOMAIN par \cup {c.n} |-> IF k = c.n THEN c.res.val ELSE par[k]] /\ UNCHANGED bound
       [] c.op = "getp" -> c.res.val = (IF c.n \in DOMAIN par THEN par[c.n] ELSE 0) /\ UNCHANGED <<bound, par>>
       [] c.op = "keys" -> Exact(c.res.list, DOMAIN par \cap {c.n}) /\ UNCHANGED <<bound, par>>
       \* does not depend on the state
       [] c.op \in {"hand", "print"} -> c.res.ok /\ UNCHANGED <<bound, par>>
  /\ UNCHANGED <<h, pos>>

Ret ==
  /\ Here /\ Ev[pos].k = "r"
  /\ pend[Ev[pos].t].op # "none" /\ pend[Ev[pos].t].k = "done"
  /\ pend' = [pend EXCEPT ![Ev[pos].t] = None]
  /\ pos' = pos + 1 /\ UNCHANGED <<h, bound, par>>

\* in the end, everything is there once and has been taken at most once
End ==
  /\ Here /\ Ev[pos].k = "e"
  /\ Exact(Ev[pos].avail, There(bound))
  /\ \A n \in DOMAIN Ev[pos].takes : Ev[pos].takes[n] <= 1
  /\ pos' = pos + 1 /\ UNCHANGED <<h, pend, bound, par>>

Next == Call \/ Ret \/ End \/ \E t \in DOMAIN pend : Lin(t)
Spec == Init /\ [][Next]_vars

Accept == pos <= Len(Ev) \/ PrintT(<<"ACC", h, "x">>)
=============================================================================

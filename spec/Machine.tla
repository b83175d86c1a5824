------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* What the specifications of podio's smaller parts share: a world w, the  *)
(* call made last with the result it has to have, and the behaviour so     *)
(* far.  A module that extends this one defines its actions with Step and  *)
(* what can be observed of a world as Obs.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt, Functions, FiniteSetsExt

CONSTANTS
  Ops,        \* the enabled operations
  MaxLevel,   \* length of the behaviours explored exhaustively (0: no limit)
  Sim,        \* TRUE: choose arguments at random (simulation)
  Depth       \* length of the emitted behaviours (0: none)

VARIABLES w, act, hist
vars == <<w, act, hist>>
View == w

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Ok == "ok"
Range1(s) == {s[i] : i \in 1..Len(s)}

\* obs: what can be observed of the new world
Step(new, a, obs) ==
  /\ IF MaxLevel = 0 THEN TRUE ELSE TLCGet("level") < MaxLevel
  /\ w' = new
  /\ act' = a
  /\ hist' = IF Sim THEN Append(hist, [act |-> a, state |-> obs]) ELSE hist
Start(new) == w = new /\ act = [op |-> "Init", res |-> Ok] /\ hist = << >>

EmitHist == Depth = 0 \/ Len(hist) # Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
EmitObs(obs) == PrintT(<<"ST", TLCFP(w), TLCFP(<<w>>), ToJson(obs)>>)
EmitEdge == PrintT(<<"ED", TLCFP(w), TLCFP(<<w>>), TLCFP(w'), TLCFP(<<w'>>), ToJson(act')>>)
Short == MaxLevel = 0 \/ TLCGet("level") <= MaxLevel
=============================================================================

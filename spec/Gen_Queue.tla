----------------------------- MODULE Gen_Queue -----------------------------
(***************************************************************************)
(* Behaviours for the implementation, taken from the model of one tick     *)
(* side: a breadth-first search prints, for every way the sum tree can be  *)
(* walked and changed (the cases and rotations of an insertion, the        *)
(* branches of a prefix walk, including batched re-synchronisation), a     *)
(* shortest schedule of messages that takes it.  The schedules are sent to *)
(* the real contract and judged by Trace.tla.  Run with one worker.        *)
(***************************************************************************)
EXTENDS MC_Queue, Json
LOCAL INSTANCE Integers

CONSTANT WithTree           \* tell apart the shapes the walks happen in

Empty(t) == IsNil(Left(t)) /\ IsNil(Right(t))
WalkOf(x) == IF x.sync = x.etas THEN <<"synced">>
             ELSE IF Empty(x.tree) THEN <<"no cancels">> ELSE WalkPath(x.tree, x.tree.sum, x.etas, x.crc)

RECURSIVE Shape(_)
Shape(n) == IF IsNil(n) THEN "-" ELSE IF IsLeaf(n) THEN "o" ELSE "(" \o Shape(Left(n)) \o Shape(Right(n)) \o ")"

Goal ==
    LET last == hist'[Len(hist')] IN
    CASE act' = "cancel" -> <<"cancel", WalkOf(q), goals', IF WithTree THEN Shape(Sync(q).tree) ELSE "">>
      [] act' = "claim" -> <<"claim", WalkOf(q), last[2] \in DOMAIN s'.ord, IF WithTree THEN Shape(q.tree) ELSE "">>
      [] act' = "fill" -> <<"fill", TickAt(s', 0)[Dir].tal = 0, WalkOf(q')>>
      [] OTHER -> <<"place", WalkOf(q)>>

InitGen == Init /\ TLCSet(1, {})
Fresh == LET g == Goal IN
    IF g \in TLCGet(1) THEN TRUE
    ELSE TLCSet(1, TLCGet(1) \cup {g}) /\ PrintT("GEN|" \o ToJson(hist'))
SpecGen == InitGen /\ [][Next]_vars
=============================================================================

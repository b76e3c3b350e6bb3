------------------------------ MODULE Gen_Book ------------------------------
(***************************************************************************)
(* Behaviours for the implementation, taken from the model of the book: a  *)
(* breadth-first search prints, for every situation a message can meet     *)
(* together with the way it is answered, a shortest schedule that gets     *)
(* there - refused messages included.  The schedules are sent to the real  *)
(* contract and judged by Trace.tla.  Run with one worker.                 *)
(***************************************************************************)
EXTENDS MC_Book, Json
LOCAL INSTANCE Integers

CONSTANT MaxLen
VARIABLE hist
View == s
Short == Len(hist) <= MaxLen

\* messages that must be refused, whatever the book looks like
Foul(bk) ==
    {[Placing(x) EXCEPT !.tick = t] : x \in {CHOOSE y \in Places : y.dir = d : d \in Sides}, t \in {MinTick - 1, MaxTick + 1}}
    \cup {[Placing(CHOOSE x \in Places : x.dir = d) EXCEPT !.funds = f] : d \in Sides,
            f \in {<<>>, <<[d |-> "b", a |-> 1], [d |-> "q", a |-> 1]>>, <<[d |-> "z", a |-> 1]>>}}
    \cup {[x EXCEPT !.sender = "x"] : x \in Cancels(bk)}
    \cup {[x EXCEPT !.sender = bk.admin] : x \in Cancels(bk)}
    \cup {[x EXCEPT !.tick = @ + 1] : x \in Cancels(bk) \cup Claims(bk)}
    \cup {[x EXCEPT !.funds = <<[d |-> "q", a |-> 1]>>] : x \in Claims(bk)}
    \cup {Base("claim", "x") @@ [tick |-> 0, id |-> bk.oid]}
    \cup {[Base("swap", "x") EXCEPT !.blk = {}] @@ [din |-> io[1], dout |-> io[2], amt |-> 1, min |-> 0, fee |-> f, target |-> "none", bound |-> 0] :
            io \in {<<"q", "b">>, <<"b", "q">>, <<"q", "q">>, <<"z", "b">>}, f \in {0, 1}}
AllOps(bk) == Ops(bk) \cup Foul(bk)

-----------------------------------------------------------------------------
(* Situations *)
Rel(x, y) == IF x < y THEN "below" ELSE IF x = y THEN "at" ELSE "above"
Some(S) == S # {}
Liquid(bk, side) == LiquidTicks(bk, side)
\* is the best tick of a side where the book says it is?
Stale(bk, side) == IF Liquid(bk, side) = {} THEN "none"
                   ELSE IF (side = "bid" /\ bk.nb \in Liquid(bk, side)) \/ (side = "ask" /\ bk.na \in Liquid(bk, side)) THEN "true" ELSE "stale"
Waiting(bk) == {i \in DOMAIN bk.ord : IsPos(bk.ord[i].fil)}
SideSeen(side) == <<side.swp > 0, side.can # {}, side.tal = 0>>

PlaceSeen(bk, op) == <<op.dir, Rel(op.tick, bk.nb), Rel(op.tick, bk.na), Stale(bk, op.dir), Stale(bk, Opp(op.dir)),
                       SideSeen(TickAt(bk, op.tick)[op.dir]), op.tick \in DOMAIN bk.tk, op.bounty>>
OrderSeen(bk, op) ==
    IF op.id \notin DOMAIN bk.ord THEN <<"unknown">>
    ELSE LET o == bk.ord[op.id]  mates == IdsAt(bk, o.tick, o.dir) \ {op.id} IN
         <<o.dir, o.tick = op.tick, o.owner = op.sender, o.fil = 0, o.fil = o.qty, o.qty = o.placed, o.bounty,
           {Rel(i, op.id) : i \in mates}, IdsAt(bk, o.tick, Opp(o.dir)) # {}, SideSeen(bk.tk[o.tick][o.dir]),
           IF o.dir = "bid" THEN Rel(o.tick, bk.nb) ELSE Rel(o.tick, bk.na)>>
SwapSeen(bk, op, r) ==
    LET d == PairDir(bk, op.din, op.dout)
    IN IF d = "none" THEN <<op.din, op.dout>>
       ELSE <<d, op.target, Rel(op.bound, bk.nb), Rel(op.bound, bk.na), op.min, op.fee, Stale(bk, Opp(d)), Stale(bk, d),
              IF r.ok THEN <<Len(r.info.fills), r.info.rem > 0, r.info.dust > 0,
                             [j \in DOMAIN r.info.fills |-> LET f == r.info.fills[j]  t == bk.tk[f.t] IN
                                <<f.v = t[Opp(d)].tal, t[d].tal > 0, Cardinality({i \in IdsAt(bk, f.t, Opp(d)) : r.st.ord[i].fil # bk.ord[i].fil}),
                                  t[Opp(d)].can # {}>>]>> ELSE <<>> >>
BatchSeen(bk, op) == [j \in DOMAIN op.items |-> LET i == op.items[j][2] IN
                        <<i \in DOMAIN bk.ord /\ bk.ord[i].tick = op.items[j][1], i \in Waiting(bk), j > 1 /\ op.items[1] = op.items[j]>>]
Situation(bk, op, r) ==
    CASE op.k = "place" -> PlaceSeen(bk, op)
      [] op.k \in {"cancel", "claim"} -> OrderSeen(bk, op)
      [] op.k = "batch" -> BatchSeen(bk, op)
      [] op.k = "swap" -> SwapSeen(bk, op, r)
      [] OTHER -> <<Some(DOMAIN bk.ord), Some(Waiting(bk))>>
Goal(bk, op, r) == <<op.k, r.ok, r.why, bk.active, bk.fee, op.blk, op.funds = <<>>, IF "flag" \in DOMAIN op THEN op.flag ELSE TRUE, Situation(bk, op, r)>>

InitGen == Init /\ hist = <<>> /\ TLCSet(1, {})
DoGen(op) == LET r == Step(s, op) IN
    /\ s' = r.st /\ done' = 0 /\ hist' = Append(hist, op)
    /\ LET g == Goal(s, op, r) IN
       IF g \in TLCGet(1) THEN TRUE
       ELSE TLCSet(1, TLCGet(1) \cup {g}) /\ PrintT("GEN|" \o ToJson(hist'))
NextGen == \E op \in AllOps(s) : DoGen(op)
SpecGen == InitGen /\ [][NextGen]_<<vars, hist>>
=============================================================================

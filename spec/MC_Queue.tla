------------------------------ MODULE MC_Queue ------------------------------
(***************************************************************************)
(* All three layers of one tick side in lock step, for every schedule of   *)
(* placing, filling, cancelling and claiming: the book of Orderbook.tla    *)
(* with explicit time priority, the offset scheme of TickQueue.tla, and    *)
(* the sum tree of SumTree.tla.  Every answer of the lower layers must be  *)
(* the answer of the book, and the mapping between their states must hold. *)
(***************************************************************************)
EXTENDS Orderbook, TickQueue
LOCAL INSTANCE Integers

CONSTANTS Preplaced,    \* sizes of the orders already resting at the start
          MaxOrders, MaxQty, MaxVolume, Dir, Record

Lo == -1
NoneYet == <<>>
Units6 == <<1, 1, 1, 1, 1, 1>>
Units7 == Units6 \o <<1>>
Units8 == Units6 \o <<1, 1>>
Units10 == Units8 \o <<1, 1>>
Mixed7 == <<1, 2, 1, 1, 2, 1, 1>>
OnePrice(t) == <<1, 1>>
AnyAddr(a) == TRUE

VARIABLES s, q, act, goals, hist
vars == <<s, q, act, goals, hist>>

Book0 == [quote |-> "q", base |-> "b", nb |-> MinTick, na |-> MaxTick, oid |-> 1,
          ord |-> << >>, tk |-> << >>, liq |-> [ask |-> 0, bid |-> 0], bal |-> [x \in {"q", "b"} |-> 0],
          active |-> TRUE, fee |-> 0, recip |-> "r", admin |-> "a", aoff |-> "", mod |-> "m", moff |-> ""]

\* the tree's only role in the mapping is its leaves
Mapping(bk, qq) ==
    LET side == TickAt(bk, 0)[Dir]  h == Published(qq) IN
    /\ DOMAIN bk.ord = DOMAIN qq.ord
    /\ \A i \in DOMAIN bk.ord : /\ bk.ord[i].qty = qq.ord[i].qty
                                /\ bk.ord[i].pos = qq.ord[i].etas
                                /\ bk.ord[i].fil = Claimable(qq, i)
    /\ side.tal = qq.tal /\ side.ctt = qq.ctt
    /\ side.swp = qq.etas - qq.crc
    /\ LeafSeq(side.can) = InOrder(qq.tree)
    /\ HeadPos(side) = h

Log(e) == IF Record THEN Append(hist, e) ELSE hist
Placed(bk, v) ==
    LET r == Place(bk, [k |-> "place", tick |-> 0, dir |-> Dir, qty |-> v, sender |-> "u" \o ToString(bk.oid),
                        bounty |-> NoBounty, funds |-> <<[d |-> RestDenom(bk, Dir), a |-> v]>>, now |-> 0])
    IN [r.st EXCEPT !.bal[RestDenom(bk, Dir)] = @ + v]

RECURSIVE Fill0(_, _, _)
Fill0(bk, qq, sizes) ==
    IF sizes = <<>> THEN <<bk, qq>>
    ELSE Fill0(Placed(bk, Head(sizes)), QPlace(qq, bk.oid, Head(sizes)), Tail(sizes))

Init == LET x == Fill0(Book0, EmptyQ, Preplaced) IN
        s = x[1] /\ q = x[2] /\ act = "init" /\ goals = {} /\ hist = <<>>

PlaceIt(v) ==
    /\ s.oid <= MaxOrders
    /\ TickAt(s, 0)[Dir].ctt + v <= MaxVolume
    /\ s' = Placed(s, v)
    /\ q' = QPlace(q, s.oid, v)
    /\ act' = "place" /\ goals' = {} /\ hist' = Log(<<"place", v>>)

FillIt(v) ==
    /\ v <= TickAt(s, 0)[Dir].tal
    /\ s' = [ApplyFills(s, Dir, <<[t |-> 0, v |-> v, c |-> v]>>)
               EXCEPT !.bal = [@ EXCEPT ![RestDenom(s, Dir)] = @ - v, ![EarnDenom(s, Dir)] = @ + v]]
    /\ q' = QFill(q, v)
    /\ act' = "fill" /\ goals' = {} /\ hist' = Log(<<"fill", v>>)

CancelIt(i) ==
    LET r == Cancel(s, [k |-> "cancel", tick |-> 0, id |-> i, sender |-> s.ord[i].owner, funds |-> <<>>])
        x == QCancel(q, i)
        y == Sync(q)
    IN /\ Assert(r.ok = x.ok, "cancel accepted by one layer only")
       /\ Assert(~r.ok \/ r.pay[1].a = x.a, "different refunds")
       /\ r.ok                                         \* refusals change nothing
       /\ s' = [r.st EXCEPT !.bal = [@ EXCEPT ![RestDenom(s, Dir)] = @ - x.a]]
       /\ q' = x.q
       /\ act' = "cancel" /\ hist' = Log(<<"cancel", i>>)
       /\ goals' = IF Record THEN InsertPath(y.tree, LeafOf(q.ord[i].etas, q.ord[i].qty)) ELSE {}

ClaimIt(i) ==
    LET r == ClaimOne(s, "x", 0, i)
        x == QClaim(q, i)
    IN /\ Assert(r.ok = x.ok, "claim accepted by one layer only")
       /\ Assert(~r.ok \/ (\E k \in DOMAIN r.info : r.info[k].raw = x.a), "different proceeds")
       /\ r.ok
       /\ s' = [r.st EXCEPT !.bal = [@ EXCEPT ![EarnDenom(s, Dir)] = @ - x.a]]
       /\ q' = x.q
       /\ act' = "claim" /\ goals' = {} /\ hist' = Log(<<"claim", i>>)

Next == \/ \E v \in 1..MaxQty : PlaceIt(v)
        \/ \E v \in 1..MaxVolume : FillIt(v)
        \/ \E i \in DOMAIN s.ord : CancelIt(i) \/ ClaimIt(i)

Spec == Init /\ [][Next]_vars

Inv == AllInv(s) /\ QueueSound(q) /\ Mapping(s, q)

\* what no step may do to other orders (C02, C20)
Untouched == [][\A i \in DOMAIN s.ord \cap DOMAIN s'.ord :
                  /\ s.ord[i].owner = s'.ord[i].owner /\ s.ord[i].placed = s'.ord[i].placed
                  /\ act' = "cancel" => s.ord[i] = s'.ord[i]
                  /\ act' # "claim" => s.ord[i].pos = s'.ord[i].pos /\ s.ord[i].qty = s'.ord[i].qty
                  /\ act' # "fill" => s'.ord[i].qty - s'.ord[i].fil = s.ord[i].qty - s.ord[i].fil]_vars

\* states that differ only in the actors are the same
View == <<[s EXCEPT !.bal = <<>>], q>>
=============================================================================

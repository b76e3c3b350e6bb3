------------------------------ MODULE MC_Book -------------------------------
(***************************************************************************)
(* The book for every schedule of messages over small constants; every     *)
(* step is judged by Properties, every state by the invariants, and quotes *)
(* and listings are compared with what they promise.                       *)
(***************************************************************************)
EXTENDS Properties, Queries, Responses
LOCAL INSTANCE Integers

CONSTANTS Ticks, Users, Qtys, Amts, Mins, Bounties, Fees, Targets, Blocks,
          MaxOrders, MaxVolume, Kinds, Claimers

VARIABLES s, done
vars == <<s, done>>

Book0 == [quote |-> "q", base |-> "b", nb |-> MinTick, na |-> MaxTick, oid |-> 1,
          ord |-> << >>, tk |-> << >>, liq |-> [ask |-> 0, bid |-> 0], bal |-> [x \in {"q", "b"} |-> 0],
          active |-> TRUE, fee |-> 0, recip |-> "r", admin |-> "a", aoff |-> "", mod |-> "m", moff |-> ""]

Base(k, who) == [k |-> k, sender |-> who, funds |-> <<>>, blk |-> {}]
Places == {Base("place", u) @@ [tick |-> t, dir |-> d, qty |-> v, bounty |-> b, now |-> 0] :
              u \in Users, t \in Ticks, d \in Sides, v \in Qtys, b \in Bounties}
Placing(x) == [x EXCEPT !.funds = <<[d |-> IF x.dir = "bid" THEN "q" ELSE "b", a |-> x.qty]>>]
Cancels(bk) == {Base("cancel", u) @@ [tick |-> bk.ord[i].tick, id |-> i] : u \in Users, i \in DOMAIN bk.ord}
Claims(bk) == {Base("claim", u) @@ [tick |-> bk.ord[i].tick, id |-> i] : u \in Claimers, i \in DOMAIN bk.ord}
Swaps == {Base("swap", u) @@ [din |-> io[1], dout |-> io[2], amt |-> x, min |-> m, fee |-> 0, target |-> t[1], bound |-> t[2]] :
             u \in Claimers, io \in {<<"q", "b">>, <<"b", "q">>}, x \in Amts, m \in Mins, t \in Targets}
Batches(bk) == {Base("batch", u) @@ [items |-> <<e, f>>, tick |-> 0, id |-> 0] : u \in Claimers,
                    e \in {<<bk.ord[i].tick, i>> : i \in DOMAIN bk.ord}, f \in {<<bk.ord[i].tick, i>> : i \in DOMAIN bk.ord} \cup {<<0, 0>>}}
FeeSets == {Base("auth", "a") @@ [act |-> "set_fee", fee |-> f, addr |-> "", flag |-> TRUE] : f \in Fees}
Switches == {Base("auth", "m") @@ [act |-> "set_active", fee |-> 0, addr |-> "", flag |-> f] : f \in BOOLEAN}

Blocked(ops) == {[op EXCEPT !.blk = x] : op \in ops, x \in Blocks}
Ops(bk) == (IF "place" \in Kinds /\ bk.oid <= MaxOrders THEN {Placing(x) : x \in Places} ELSE {})
      \cup (IF "cancel" \in Kinds THEN Blocked(Cancels(bk)) ELSE {})
      \cup (IF "claim" \in Kinds THEN Blocked(Claims(bk)) ELSE {})
      \cup (IF "batch" \in Kinds THEN Blocked(Batches(bk)) ELSE {})
      \cup (IF "swap" \in Kinds THEN Blocked(Swaps) ELSE {})
      \cup (IF "fee" \in Kinds THEN FeeSets ELSE {})
      \cup (IF "migrate" \in Kinds THEN {Base("migrate", "a"), Base("donate", "u")} ELSE {})
      \cup (IF "pause" \in Kinds THEN Switches ELSE {})

Volume(bk) == SumOver(DOMAIN bk.tk, LAMBDA t : bk.tk[t].ask.ctt + bk.tk[t].bid.ctt)

\* a quote is exactly what the swap produces
QuoteOK(bk, op, r) == (op.k = "swap" /\ op.blk = {} /\ op.target = "none" /\ op.min = 0 /\ bk.active) =>
    LET a == Answer(bk, [k |-> "calc_out", din |-> op.din, dout |-> op.dout, amt |-> op.amt, fee |-> op.fee])
    IN IF r.ok THEN a.ok /\ a.r[2] = Paid(r, op.sender, op.dout) ELSE ~a.ok \/ a.r[2] = 0

\* claim events say what was paid, what is left and to whom, once per claim, in order
Field(e, k) == (CHOOSE j \in DOMAIN e : e[j][1] = k)
Get(e, k) == e[Field(e, k)][2]
ReportOK(bk, op, r) == (op.k \in {"claim", "batch"} /\ r.ok) =>
    LET ev == Events(bk, op, r)
        ids == [j \in DOMAIN ev |-> Get(ev[j], "order_id")]
        changed == {i \in DOMAIN bk.ord : i \notin DOMAIN r.st.ord \/ r.st.ord[i] # bk.ord[i]}
    IN /\ {ids[j] : j \in DOMAIN ids} = {ToString(i) : i \in changed} /\ Len(ev) = Cardinality(changed)
       /\ \A j \in DOMAIN ev : \E i \in changed :
            LET o == bk.ord[i]  e == ev[j] IN
            /\ ids[j] = ToString(i)
            /\ Get(e, "owner") = o.owner /\ Get(e, "order_direction") = o.dir /\ Get(e, "sender") = op.sender
            /\ Get(e, "quantity_remaining") = (IF i \in DOMAIN r.st.ord THEN r.st.ord[i].qty ELSE 0)
            /\ Get(e, "fully_claimed") = (IF i \in DOMAIN r.st.ord THEN "false" ELSE "true")
            /\ Get(e, "placed_quantity") = o.placed
            /\ {Get(e, "order_denom"), Get(e, "output_denom")} = {"q", "b"}
            /\ Get(e, "order_denom") = (IF o.dir = "bid" THEN "q" ELSE "b")
       /\ \A d \in {"q", "b"} : \A u \in Users : op.sender # u =>
            Paid(r, u, d) = SumOver({j \in DOMAIN ev : Get(ev[j], "owner") = u /\ Get(ev[j], "output_denom") = d},
                                    LAMBDA j : Get(ev[j], "amount_claimed"))

Init == s = Book0 /\ done = 0
Do(op) == LET r == Step(s, op)  v == Violated(s, op, r) IN
    /\ Assert(v = {}, <<"violated", v, op, r>>)
    /\ Assert(QuoteOK(s, op, r), <<"quote differs from execution", op, r>>)
    /\ Assert(ReportOK(s, op, r), <<"events lie", op, r>>)
    /\ r.ok
    /\ s' = r.st
    /\ done' = 0
Next == \E op \in Ops(s) : Do(op)
Spec == Init /\ [][Next]_vars

Bounded == Volume(s) <= MaxVolume
Inv == AllInv(s)

-----------------------------------------------------------------------------
(* Listings: pages put together are the whole, counts are right *)
RECURSIVE Pages(_, _, _)
Pages(who, from, n) ==
    LET a == Answer(s, [k |-> "by_owner", owner |-> who, from |-> from, to |-> "none", limit |-> n]).r[2]
    IN IF Len(a) < n THEN a
       ELSE LET last == a[Len(a)] IN a \o Pages(who, <<last[1], last[2] + 1>>, n)
OrderedRows(a) == \A j, k \in DOMAIN a : j < k => (a[j][1] < a[k][1] \/ (a[j][1] = a[k][1] /\ a[j][2] < a[k][2]))
Listings ==
    /\ \A u \in Users :
         LET mine == {i \in DOMAIN s.ord : s.ord[i].owner = u}
             whole == Answer(s, [k |-> "by_owner", owner |-> u, from |-> "none", to |-> "none", limit |-> "none"]).r
         IN /\ whole[1] = Cardinality(mine)
            /\ {whole[2][j][2] : j \in DOMAIN whole[2]} = mine /\ Len(whole[2]) = Cardinality(mine)
            /\ OrderedRows(whole[2])
            /\ \A n \in 1..3 : Pages(u, "none", n) = whole[2]
    /\ \A t \in Ticks :
         LET here == {i \in DOMAIN s.ord : s.ord[i].tick = t}
             whole == Answer(s, [k |-> "by_tick", tick |-> t, from |-> "none", to |-> "none", limit |-> "none"]).r
         IN whole[1] = Cardinality(here) /\ {whole[2][j][2] : j \in DOMAIN whole[2]} = here /\ OrderedRows(whole[2])
    /\ LET all == Answer(s, [k |-> "all_ticks", from |-> "none", to |-> "none", limit |-> "none"]).r
       IN {all[j][1] : j \in DOMAIN all} = DOMAIN s.tk

-----------------------------------------------------------------------------
(* Nobody is ever stuck: from every state the owners can wind the book up without
   anybody's help, in any order; then nothing is left but what belongs to nobody. *)
Exit1(bk, i) ==
    LET o == bk.ord[i]
        c == IF o.fil = 0 THEN bk ELSE Step(bk, Base("claim", o.owner) @@ [tick |-> o.tick, id |-> i]).st
    IN IF i \notin DOMAIN c.ord THEN c ELSE Step(c, Base("cancel", o.owner) @@ [tick |-> o.tick, id |-> i]).st
RECURSIVE ExitAll(_, _)
ExitAll(bk, q) == IF q = <<>> THEN bk ELSE ExitAll(Exit1(bk, Head(q)), Tail(q))
WoundUp == s.active =>
    \A q \in SetToAllKPermutations(DOMAIN s.ord) : Len(q) = Cardinality(DOMAIN s.ord) =>
        LET e == ExitAll(s, q) IN
        /\ DOMAIN e.ord = {} /\ e.liq = [ask |-> 0, bid |-> 0]
        /\ \A t \in DOMAIN e.tk, dir \in Sides : e.tk[t][dir].tal = 0
        /\ \A d \in {"q", "b"} : e.bal[d] >= 0 /\ Surplus(e, d) = e.bal[d] /\ e.bal[d] >= Surplus(s, d)

(* Splitting never pays: a market order in two pieces yields no more than at once *)
Two == {[dir |-> io, t |-> tb] : io \in {<<"q", "b">>, <<"b", "q">>}, tb \in Targets}
Swapped(bk, x, a) == Step(bk, Base("swap", "x") @@ [din |-> x.dir[1], dout |-> x.dir[2], amt |-> a, min |-> 0, fee |-> 0,
                                                   target |-> x.t[1], bound |-> x.t[2]])
NoGain == \A x \in Two, a \in Amts, b \in Amts :
    LET w == Swapped(s, x, a + b)  p == Swapped(s, x, a)  q == Swapped(p.st, x, b) IN
    w.ok => (IF p.ok THEN Paid(p, "x", x.dir[2]) ELSE 0) + (IF q.ok THEN Paid(q, "x", x.dir[2]) ELSE 0)
            <= Paid(w, "x", x.dir[2])

-----------------------------------------------------------------------------
(* constants of the configurations *)
Lo == -1
Neg(x) == -x
ThreePrices(t) == CASE t <= -1 -> <<1, 2>> [] t = 0 -> <<1, 1>> [] OTHER -> <<3, 2>>
OneTick == {1}
TwoTicks == {0, 1}
AnyTicks == {-1, 0, 1}
OneUser == {"u"}
TwoUsers == {"u", "w"}
NoTarget == {<<"none", 0>>}
SomeTargets == {<<"none", 0>>, <<"tick", 0>>, <<"tick", 1>>, <<"tick", -1>>, <<"tick", 2>>}
NoBlocks == {{}}
SomeBlocks == {{}, {"u"}, {"x"}, {"r"}}
NoRate == -1
PlainBounty == {NoBounty}
SomeBounty == {NoBounty, 0, 1}
AnyAddr(a) == TRUE
X == {"x"}
Trade == {"place", "cancel", "claim", "swap"}
Fee == {"place", "claim", "swap", "fee", "batch"}
ListK == {"place", "cancel"}
PlaceSwap == {"place", "swap"}
PauseK == {"place", "cancel", "claim", "swap", "pause", "batch", "migrate"}
=============================================================================

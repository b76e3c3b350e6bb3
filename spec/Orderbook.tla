----------------------------- MODULE Orderbook ------------------------------
(***************************************************************************)
(* The order book contract as a state machine, one step per message.       *)
(*                                                                         *)
(* State (a record, so that the same operators serve the exhaustive models *)
(* and trace validation):                                                  *)
(*   quote, base   token names                                             *)
(*   nb, na        best bid / best ask tick known to the book              *)
(*   oid           next order identifier                                   *)
(*   ord           id -> [tick, dir, owner, qty, fil, pos, bounty, placed, *)
(*                 at]: qty is the unclaimed size, fil its filled but      *)
(*                 unclaimed part, pos its position in the tick's queue    *)
(*                 (total volume ever queued before it + claimed part)     *)
(*   tk            tick -> [ask, bid], each [tal, ctt, swp, can]:          *)
(*                 resting volume, volume ever placed, volume ever swapped *)
(*                 and the cancelled intervals {[p, v]} of the queue       *)
(*   liq           [ask, bid] book-wide resting volume                     *)
(*   bal           denom -> balance of the contract                        *)
(*   active, fee, recip                  switch, maker fee, its recipient  *)
(*   admin, aoff, mod, moff              role holders and pending offers   *)
(*                                                                         *)
(* Price-time priority is explicit here: fills go to the orders of a tick  *)
(* side in the order of their identifiers (Alloc).  How the code gets the  *)
(* same effect with cumulative offsets and a sum tree is TickQueue.tla and *)
(* SumTree.tla.                                                            *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC
LOCAL INSTANCE Integers

CONSTANTS MinTick, MaxTick,     \* supported ticks
          PriceOf(_),           \* tick -> <<n, d>>
          RateOne,              \* denominator of bounty and fee rates
          MaxBounty, MaxFee,    \* limits on rates
          MaxBatch,             \* native integer
          Self,                 \* the contract's own address
          ValidAddr(_)          \* is this string an address?

Nobody == ""                    \* an unset role or offer
NoBounty == "none"

-----------------------------------------------------------------------------
\* arithmetic helpers
MinN(a, b) == IF Le(a, b) THEN a ELSE b
MaxN(a, b) == IF Le(a, b) THEN b ELSE a
Clamp(a, lo, hi) == MaxN(lo, MinN(a, hi))
IsPos(a) == Lt(Zero, a)
IsZero(a) == a = Zero
DivUp(a, b) == Div(Plus(a, Minus(b, One)), b)
PickAny(S) == CHOOSE x \in S : TRUE
SumOver(S, F(_)) == MapThenFoldSet(Plus, Zero, F, PickAny, S)

Opp(dir) == IF dir = "ask" THEN "bid" ELSE "ask"
Sides == {"ask", "bid"}

\* asks rest base and earn quote, bids rest quote and earn base
RestDenom(s, dir) == IF dir = "bid" THEN s.quote ELSE s.base
EarnDenom(s, dir) == IF dir = "bid" THEN s.base ELSE s.quote

\* exact value, in the other token, of an amount resting on side dir
ValDn(dir, amt, p) == IF dir = "ask" THEN Div(Times(amt, p[1]), p[2])
                                     ELSE Div(Times(amt, p[2]), p[1])
ValUp(dir, amt, p) == IF dir = "ask" THEN DivUp(Times(amt, p[1]), p[2])
                                     ELSE DivUp(Times(amt, p[2]), p[1])
RateDn(amt, rate) == Div(Times(amt, rate), RateOne)

EmptySide == [tal |-> Zero, ctt |-> Zero, swp |-> Zero, can |-> {}]
EmptyTick == [ask |-> EmptySide, bid |-> EmptySide]
TickAt(s, t) == IF t \in DOMAIN s.tk THEN s.tk[t] ELSE EmptyTick
BalOf(s, d) == IF d \in DOMAIN s.bal THEN s.bal[d] ELSE Zero

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* identifiers of the orders on a tick side, oldest first
IdsAt(s, t, dir) == {i \in DOMAIN s.ord : s.ord[i].tick = t /\ s.ord[i].dir = dir}
Free(o) == Minus(o.qty, o.fil)
Queue(s, t, dir) == SetToSortSeq(IdsAt(s, t, dir), LAMBDA a, b : a < b)

-----------------------------------------------------------------------------
(* Results of the contract part of a message.  pay is the sequence of       *)
(* payments [to, d, a] the contract makes; info carries what is reported.   *)
Fail(s, why) == [ok |-> FALSE, why |-> why, st |-> s, pay |-> <<>>, info |-> <<>>]
Done(s, pay, info) == [ok |-> TRUE, why |-> "", st |-> s, pay |-> pay, info |-> info]
Pays(to, d, a) == IF IsZero(a) THEN <<>> ELSE <<[to |-> to, d |-> d, a |-> a]>>

-----------------------------------------------------------------------------
(* Placing a limit order *)
BountyOK(b) == b = NoBounty \/ (Le(Zero, b) /\ Le(b, MaxBounty))
FundsExactly(funds, d, a) == Len(funds) = 1 /\ funds[1].d = d /\ funds[1].a = a

Place(s, op) ==
    LET t == op.tick  dir == op.dir  q == op.qty
        cur == TickAt(s, t)  side == cur[dir]
        o == [tick |-> t, dir |-> dir, owner |-> op.sender, qty |-> q, fil |-> Zero,
              pos |-> side.ctt, bounty |-> op.bounty, placed |-> q, at |-> op.now]
        side2 == [side EXCEPT !.tal = Plus(@, q), !.ctt = Plus(@, q)]
    IN CASE t < MinTick \/ t > MaxTick -> Fail(s, "tick")
         [] ~IsPos(q) -> Fail(s, "qty")
         [] ~BountyOK(op.bounty) -> Fail(s, "bounty")
         [] ~FundsExactly(op.funds, RestDenom(s, dir), q) -> Fail(s, "funds")
         [] OTHER ->
            Done([s EXCEPT
                    !.ord = Put(@, s.oid, o),
                    !.oid = @ + 1,
                    !.tk = Put(@, t, [cur EXCEPT ![dir] = side2]),
                    !.liq[dir] = Plus(@, q),
                    !.nb = IF dir = "bid" /\ t > @ THEN t ELSE @,
                    !.na = IF dir = "ask" /\ t < @ THEN t ELSE @],
                 <<>>, [id |-> s.oid])

-----------------------------------------------------------------------------
(* Cancelling: only by the owner, only while nothing unclaimed is filled *)
Cancel(s, op) ==
    LET t == op.tick  i == op.id
    IN CASE op.funds # <<>> -> Fail(s, "funds")
         [] i \notin DOMAIN s.ord -> Fail(s, "unknown")
         [] s.ord[i].tick # t -> Fail(s, "unknown")
         [] s.ord[i].owner # op.sender -> Fail(s, "owner")
         [] IsPos(s.ord[i].fil) -> Fail(s, "filled")
         [] OTHER ->
            LET o == s.ord[i]  dir == o.dir
            IN Done([s EXCEPT
                        !.ord = Drop(@, i),
                        !.tk[t][dir].tal = Minus(@, o.qty),
                        !.tk[t][dir].can = @ \cup {[p |-> o.pos, v |-> o.qty]},
                        !.liq[dir] = Minus(@, o.qty)],
                    Pays(o.owner, RestDenom(s, dir), o.qty),
                    [id |-> i, o |-> o])

-----------------------------------------------------------------------------
(* Claiming: anybody may claim; proceeds of the filled part go to the owner *)
ClaimOne(s, sender, t, i) ==
    IF \/ t \notin DOMAIN s.tk
       \/ i \notin DOMAIN s.ord
       \/ (i \in DOMAIN s.ord /\ s.ord[i].tick # t) THEN Fail(s, "unknown")
    ELSE IF IsZero(s.ord[i].fil) THEN Fail(s, "nothing")
    ELSE
      LET o == s.ord[i]
          left == Minus(o.qty, o.fil)
          o2 == [o EXCEPT !.qty = left, !.fil = Zero, !.pos = Plus(@, o.fil)]
          raw == ValDn(o.dir, o.fil, PriceOf(t))
          bounty == IF o.bounty = NoBounty THEN Zero ELSE RateDn(raw, o.bounty)
          mfee == RateDn(raw, s.fee)
          net == Minus(Minus(raw, bounty), mfee)
          d == EarnDenom(s, o.dir)
      IN Done([s EXCEPT !.ord = IF IsZero(left) THEN Drop(@, i) ELSE [@ EXCEPT ![i] = o2]],
              Pays(o.owner, d, net) \o Pays(sender, d, bounty) \o Pays(s.recip, d, mfee),
              <<[id |-> i, o |-> o, left |-> left, net |-> net, raw |-> raw, bounty |-> bounty, mfee |-> mfee]>>)

Claim(s, op) == IF op.funds # <<>> THEN Fail(s, "funds") ELSE ClaimOne(s, op.sender, op.tick, op.id)

(* A batch is its entries one after another, failing entries skipped *)
RECURSIVE BatchFrom(_, _, _, _, _)
BatchFrom(s, sender, items, pay, info) ==
    IF items = <<>> THEN Done(s, pay, info)
    ELSE LET r == ClaimOne(s, sender, Head(items)[1], Head(items)[2])
         IN BatchFrom(r.st, sender, Tail(items), pay \o r.pay, info \o r.info)

Batch(s, op) ==
    CASE op.funds # <<>> -> Fail(s, "funds")
      [] Len(op.items) > MaxBatch -> Fail(s, "batch")
      [] OTHER -> BatchFrom(s, op.sender, op.items, <<>>, <<>>)

-----------------------------------------------------------------------------
(* Market orders *)

\* give volume v of a tick side to its orders, oldest first
RECURSIVE Alloc(_, _, _)
Alloc(ord, q, v) ==
    IF q = <<>> \/ IsZero(v) THEN ord
    ELSE LET i == Head(q)
             take == MinN(v, Free(ord[i]))
         IN Alloc([ord EXCEPT ![i].fil = Plus(@, take)], Tail(q), Minus(v, take))

\* ticks a market order of side dir meets, best price first, up to the bound
LiquidTicks(s, side) == {t \in DOMAIN s.tk : IsPos(s.tk[t][side].tal)}
Path(s, dir, bound) ==
    IF dir = "ask"
    THEN SetToSortSeq({t \in LiquidTicks(s, "bid") : t >= bound}, LAMBDA a, b : a > b)
    ELSE SetToSortSeq({t \in LiquidTicks(s, "ask") : t <= bound}, LAMBDA a, b : a < b)

RECURSIVE Walk(_, _, _, _)
Walk(s, dir, path, acc) ==
    IF path = <<>> THEN acc
    ELSE LET t == Head(path)  p == PriceOf(t)  side == Opp(dir)
             got == ValDn(dir, acc.rem, p)
             v == MinN(got, s.tk[t][side].tal)
             cost == ValUp(side, v, p)
         IN IF IsZero(got)                         \* the rest buys nothing: discarded
            THEN [acc EXCEPT !.rem = Zero, !.dust = acc.rem, !.last = p]
            ELSE Walk(s, dir, Tail(path),
                      [rem |-> Minus(acc.rem, cost), dust |-> Zero, out |-> Plus(acc.out, v),
                       last |-> p, fills |-> Append(acc.fills, [t |-> t, v |-> v, c |-> cost])])

\* core of a market order: what it would exchange, without changing anything
Market(s, dir, amt, bound) ==
    LET w == Walk(s, dir, Path(s, dir, bound),
                  [rem |-> amt, dust |-> Zero, out |-> Zero, last |-> <<One, One>>, fills |-> <<>>])
        full == IF dir = "ask" THEN bound = MinTick ELSE bound = MaxTick
    IN CASE IsZero(amt) -> [ok |-> FALSE, why |-> "zero"]
         [] bound < MinTick \/ bound > MaxTick -> [ok |-> FALSE, why |-> "tick"]
         [] dir = "ask" /\ bound > s.nb -> [ok |-> FALSE, why |-> "side"]
         [] dir = "bid" /\ bound < s.na -> [ok |-> FALSE, why |-> "side"]
         [] full /\ IsPos(ValDn(dir, w.rem, w.last)) -> [ok |-> FALSE, why |-> "liquidity"]
         [] OTHER -> [ok |-> TRUE, why |-> "", out |-> w.out, rem |-> w.rem, dust |-> w.dust, fills |-> w.fills]

RECURSIVE ApplyFills(_, _, _)
ApplyFills(s, side, fills) ==
    IF fills = <<>> THEN s
    ELSE LET f == Head(fills)
             q == SelectSeq(Queue(s, f.t, side), LAMBDA i : IsPos(Free(s.ord[i])))
             s2 == [s EXCEPT
                      !.tk[f.t][side].tal = Minus(@, f.v),
                      !.tk[f.t][side].swp = Plus(@, f.v),
                      !.ord = Alloc(@, q, f.v),
                      !.nb = IF side = "bid" THEN f.t ELSE @,
                      !.na = IF side = "ask" THEN f.t ELSE @,
                      !.liq[side] = Minus(@, f.v)]
         IN ApplyFills(s2, side, Tail(fills))

PairDir(s, din, dout) == IF din = s.base /\ dout = s.quote THEN "ask"
                         ELSE IF din = s.quote /\ dout = s.base THEN "bid" ELSE "none"

Swap(s, op) ==
    LET dir == PairDir(s, op.din, op.dout)
        bound == IF op.target # "none" THEN op.bound
                 ELSE IF dir = "bid" THEN MaxTick ELSE MinTick
        m == Market(s, dir, op.amt, bound)
    IN CASE ~IsZero(op.fee) -> Fail(s, "fee")
         [] dir = "none" -> Fail(s, "pair")
         [] ~ValidAddr(op.sender) -> Fail(s, "addr")
         [] ~m.ok -> Fail(s, m.why)
         [] Lt(m.out, op.min) -> Fail(s, "min")
         [] OTHER -> Done(ApplyFills(s, Opp(dir), m.fills),
                          <<[to |-> op.sender, d |-> op.dout, a |-> m.out]>> \o Pays(op.sender, op.din, m.rem),
                          [out |-> m.out, rem |-> m.rem, fills |-> m.fills, dust |-> m.dust])

-----------------------------------------------------------------------------
(* Roles, switch and configuration *)
IsAdmin(s, a) == a # Nobody /\ s.admin = a
IsMod(s, a) == a # Nobody /\ s.mod = a

Auth(s, op) ==
    LET a == op.sender
        k == op.act
        NeedAdmin(r) == IF IsAdmin(s, a) THEN r ELSE Fail(s, "auth")
        Ok(s2) == Done(s2, <<>>, <<>>)
    IN CASE k = "transfer_admin" -> NeedAdmin(IF ValidAddr(op.addr) THEN Ok([s EXCEPT !.aoff = op.addr]) ELSE Fail(s, "addr"))
         [] k = "cancel_transfer" -> NeedAdmin(Ok([s EXCEPT !.aoff = Nobody]))
         [] k = "reject_admin" -> IF s.aoff = a THEN Ok([s EXCEPT !.aoff = Nobody]) ELSE Fail(s, "auth")
         [] k = "claim_admin" -> IF s.aoff = a THEN Ok([s EXCEPT !.aoff = Nobody, !.admin = a]) ELSE Fail(s, "auth")
         [] k = "renounce" -> NeedAdmin(Ok([s EXCEPT !.admin = Nobody]))
         [] k = "offer_mod" -> NeedAdmin(IF ValidAddr(op.addr) THEN Ok([s EXCEPT !.moff = op.addr]) ELSE Fail(s, "addr"))
         [] k = "reject_mod" -> IF s.moff = a THEN Ok([s EXCEPT !.moff = Nobody]) ELSE Fail(s, "auth")
         [] k = "claim_mod" -> IF s.moff = a THEN Ok([s EXCEPT !.moff = Nobody, !.mod = a]) ELSE Fail(s, "auth")
         [] k = "set_active" -> IF IsAdmin(s, a) \/ IsMod(s, a) THEN Ok([s EXCEPT !.active = op.flag]) ELSE Fail(s, "auth")
         [] k = "set_fee" -> NeedAdmin(IF Le(op.fee, MaxFee) THEN Ok([s EXCEPT !.fee = op.fee]) ELSE Fail(s, "fee"))
         [] k = "set_recip" -> NeedAdmin(IF ValidAddr(op.addr) THEN Ok([s EXCEPT !.recip = op.addr]) ELSE Fail(s, "addr"))

Sudo(s, op) ==
    LET k == op.act IN
    CASE ~s.active -> Fail(s, "inactive")
      [] k = "transfer_admin" -> IF ValidAddr(op.addr) THEN Done([s EXCEPT !.admin = op.addr], <<>>, <<>>) ELSE Fail(s, "addr")
      [] k = "remove_admin" -> Done([s EXCEPT !.admin = Nobody], <<>>, <<>>)
      [] k = "set_active" -> Done([s EXCEPT !.active = op.flag], <<>>, <<>>)
      [] k = "swap_out" -> Fail(s, "unsupported")

-----------------------------------------------------------------------------
(* The contract part of a message, without the movement of tokens *)
Gated(s, r) == IF s.active THEN r ELSE Fail(s, "inactive")
Core(s, op) ==
    CASE op.k = "place"  -> Gated(s, Place(s, op))
      [] op.k = "cancel" -> Gated(s, Cancel(s, op))
      [] op.k = "claim"  -> Gated(s, Claim(s, op))
      [] op.k = "batch"  -> Gated(s, Batch(s, op))
      [] op.k = "swap"   -> Gated(s, Swap(s, op))
      [] op.k = "auth"   -> Auth(s, op)
      [] op.k = "sudo"   -> Sudo(s, op)
      [] op.k = "migrate" -> Done(s, <<>>, <<>>)
      [] op.k = "donate" -> Done(s, <<>>, <<>>)   \* somebody sends tokens to the contract

\* tokens that arrive with the message
Incoming(op) == IF op.k = "swap" THEN <<[d |-> op.din, a |-> op.amt]>> ELSE op.funds

Credit(bal, d, a) == Put(bal, d, Plus(IF d \in DOMAIN bal THEN bal[d] ELSE Zero, a))
RECURSIVE CreditAll(_, _)
CreditAll(bal, coins) == IF coins = <<>> THEN bal ELSE CreditAll(Credit(bal, Head(coins).d, Head(coins).a), Tail(coins))

\* payments leave the contract (unless it pays itself); undeliverable ones fail
RECURSIVE PayAll(_, _, _)
PayAll(bal, pay, blocked) ==
    IF pay = <<>> THEN [ok |-> TRUE, bal |-> bal]
    ELSE LET p == Head(pay) have == IF p.d \in DOMAIN bal THEN bal[p.d] ELSE Zero IN
         IF IsZero(p.a) \/ p.to \in blocked \/ Lt(have, p.a)
         THEN [ok |-> FALSE, bal |-> bal]
         ELSE PayAll(IF p.to = Self THEN bal ELSE Put(bal, p.d, Minus(have, p.a)), Tail(pay), blocked)

(* One message: all of it or nothing *)
Step(s, op) ==
    LET coins == Incoming(op)
        r == Core(s, op)
        p == PayAll(CreditAll(s.bal, coins), r.pay, op.blk)
    IN CASE \E i \in DOMAIN coins : IsZero(coins[i].a) -> Fail(s, "coins")   \* the chain refuses empty coins
         [] ~r.ok -> Fail(s, r.why)
         [] ~p.ok -> Fail(s, "payment")
         [] OTHER -> [r EXCEPT !.st.bal = p.bal]

-----------------------------------------------------------------------------
(* Creation *)
Create(op) ==
    LET good == op.quote # op.base /\ op.qsupply /\ op.bsupply
    IN [ok |-> good,
        st |-> [quote |-> op.quote, base |-> op.base, nb |-> MinTick, na |-> MaxTick, oid |-> 0,
                ord |-> << >>, tk |-> << >>, liq |-> [ask |-> Zero, bid |-> Zero],
                bal |-> << >>, active |-> TRUE, fee |-> Zero, recip |-> op.dflrecip,
                admin |-> op.dfladmin, aoff |-> Nobody, mod |-> op.dflmod, moff |-> Nobody]]

-----------------------------------------------------------------------------
(* State invariants *)
SidesOf(s) == {<<t, dir>> : t \in DOMAIN s.tk, dir \in Sides}

\* recorded liquidity is exactly the unfilled resting volume
InvTAL(s) == \A x \in SidesOf(s) :
    s.tk[x[1]][x[2]].tal = SumOver(IdsAt(s, x[1], x[2]), LAMBDA i : Free(s.ord[i]))
InvLiq(s) == \A dir \in Sides : s.liq[dir] = SumOver(DOMAIN s.tk, LAMBDA t : s.tk[t][dir].tal)

\* volume placed = swapped + resting + cancelled
InvVolume(s) == \A x \in SidesOf(s) : LET v == s.tk[x[1]][x[2]] IN
    v.ctt = Plus(Plus(v.swp, v.tal), SumOver(v.can, LAMBDA c : c.v))

\* the best-price pointers never hide liquidity
InvPtr(s) == /\ \A t \in LiquidTicks(s, "bid") : t <= s.nb
             /\ \A t \in LiquidTicks(s, "ask") : t >= s.na

\* strict time priority
InvFIFO(s) == \A i, j \in DOMAIN s.ord :
    (i < j /\ s.ord[i].tick = s.ord[j].tick /\ s.ord[i].dir = s.ord[j].dir /\ IsPos(s.ord[j].fil))
        => IsZero(Free(s.ord[i]))

InvOrders(s) == \A i \in DOMAIN s.ord : LET o == s.ord[i] IN
    /\ i < s.oid /\ IsPos(o.qty) /\ Le(Zero, o.fil) /\ Le(o.fil, o.qty) /\ Le(o.qty, o.placed)
    /\ o.tick \in DOMAIN s.tk /\ BountyOK(o.bounty)

\* what the contract owes in denom d
Owed(s, d) ==
    Plus(SumOver({i \in DOMAIN s.ord : RestDenom(s, s.ord[i].dir) = d}, LAMBDA i : Free(s.ord[i])),
         SumOver({i \in DOMAIN s.ord : EarnDenom(s, s.ord[i].dir) = d},
                 LAMBDA i : ValDn(s.ord[i].dir, s.ord[i].fil, PriceOf(s.ord[i].tick))))
Surplus(s, d) == Minus(BalOf(s, d), Owed(s, d))
InvSolvent(s) == \A d \in {s.quote, s.base} : Le(Zero, Surplus(s, d))
SurplusKept(s, s2) == \A d \in {s.quote, s.base} : Le(Surplus(s, d), Surplus(s2, d))

InvConfig(s) == s.quote # s.base /\ Le(s.fee, MaxFee)

(* The offset scheme (refined by TickQueue): the fill frontier of a tick     *)
(* side is the swapped volume plus every cancelled interval at or before it. *)
RECURSIVE Frontier(_, _)
Frontier(h, leaves) ==
    IF leaves = <<>> \/ Lt(h, Head(leaves).p) THEN h
    ELSE Frontier(Plus(h, Head(leaves).v), Tail(leaves))
LeafSeq(can) == SetToSortSeq(can, LAMBDA a, b : Lt(a.p, b.p))
HeadPos(side) == Frontier(side.swp, LeafSeq(side.can))
ClaimableAt(o, h) == Clamp(Minus(h, o.pos), Zero, o.qty)
InvPos(s) == \A i \in DOMAIN s.ord : LET o == s.ord[i] IN
    o.fil = ClaimableAt(o, HeadPos(s.tk[o.tick][o.dir]))

AllInv(s) == /\ InvTAL(s) /\ InvLiq(s) /\ InvVolume(s) /\ InvPtr(s) /\ InvFIFO(s)
             /\ InvOrders(s) /\ InvSolvent(s) /\ InvConfig(s) /\ InvPos(s)
=============================================================================

----------------------------- MODULE Properties -----------------------------
(***************************************************************************)
(* The listed properties as predicates on one step of the book: s is the   *)
(* state before message op, r the result of Step.  They are written from   *)
(* the statements of the properties, in terms of what happened (balances,  *)
(* orders, volumes), not in terms of how Step computes it.                 *)
(***************************************************************************)
EXTENDS Orderbook
LOCAL INSTANCE Integers

Paid(r, to, d) == SumOver({k \in DOMAIN r.pay : r.pay[k].to = to /\ r.pay[k].d = d}, LAMBDA k : r.pay[k].a)
PaidD(r, d) == SumOver({k \in DOMAIN r.pay : r.pay[k].d = d}, LAMBDA k : r.pay[k].a)
Gained(s, s2, i) == Minus(s2.ord[i].fil, s.ord[i].fil)
Same(s, s2, ids) == \A i \in ids : i \in DOMAIN s2.ord /\ s2.ord[i] = s.ord[i]
TakenAt(s, s2, t, dir) == Minus(TickAt(s2, t)[dir].swp, TickAt(s, t)[dir].swp)
Better(side, a, b) == IF side = "bid" THEN a > b ELSE a < b
TicksTaken(s, s2, dir) == {t \in DOMAIN s2.tk : IsPos(TakenAt(s, s2, t, dir))}
IsTrade(op) == op.k \in {"place", "cancel", "claim", "batch", "swap"}
DirOf(s, op) == PairDir(s, op.din, op.dout)
BoundIn(op, dir) == IF op.target # "none" THEN op.bound ELSE IF dir = "bid" THEN MaxTick ELSE MinTick
Within(side, t, bound) == IF side = "bid" THEN t >= bound ELSE t <= bound
Tokens(s) == {s.quote, s.base}

\* solvency, and surplus never shrinks
P01(s, op, r) == InvSolvent(r.st) /\ SurplusKept(s, r.st)

\* time priority; cancels and claims move nobody else
P02(s, op, r) ==
    /\ InvFIFO(r.st) /\ InvPos(r.st)
    /\ (op.k = "cancel" /\ r.ok) => Same(s, r.st, DOMAIN s.ord \ {op.id})
    /\ (op.k = "claim" /\ r.ok) => Same(s, r.st, DOMAIN s.ord \ {op.id})
    /\ \A i \in DOMAIN s.ord \cap DOMAIN r.st.ord :
          (op.k = "swap" /\ IsPos(Gained(s, r.st, i))) =>
             \A j \in IdsAt(r.st, s.ord[i].tick, s.ord[i].dir) : j < i => IsZero(Free(r.st.ord[j]))

\* best price first, nothing skipped, all or nothing
P03(s, op, r) == (op.k = "swap" /\ r.ok) =>
    LET dir == DirOf(s, op)  side == Opp(dir)  taken == TicksTaken(s, r.st, side)
        bound == BoundIn(op, dir)  back == PaidD(r, op.din) IN
    /\ \A t \in taken : Within(side, t, bound)
    /\ \A t \in LiquidTicks(r.st, side) : ~\E u \in taken : Better(side, t, u)
    /\ TicksTaken(s, r.st, dir) = {}
    /\ op.target = "none" => \A t \in taken : IsZero(ValDn(dir, back, PriceOf(t)))

\* price and rounding of every fill and of every claim
P04(s, op, r) ==
    /\ (op.k = "swap" /\ r.ok) =>
         LET dir == DirOf(s, op)  side == Opp(dir)  taken == TicksTaken(s, r.st, side)
             cost == SumOver(taken, LAMBDA t : ValUp(side, TakenAt(s, r.st, t, side), PriceOf(t)))
             kept == Minus(op.amt, PaidD(r, op.din))
             open == {t \in LiquidTicks(r.st, side) : Within(side, t, BoundIn(op, dir))} \cup taken
         IN /\ Le(cost, kept)
            /\ PaidD(r, op.dout) = SumOver(taken, LAMBDA t : TakenAt(s, r.st, t, side))
            /\ cost = kept \/ \E t \in open : IsZero(ValDn(dir, Minus(kept, cost), PriceOf(t)))
            \* only the last tick taken may keep liquidity
            /\ \A t \in taken : IsPos(r.st.tk[t][side].tal) => \A u \in taken : u = t \/ Better(side, u, t)
    /\ (op.k = "claim" /\ r.ok) => PaidD(r, EarnDenom(s, s.ord[op.id].dir))
                                     = ValDn(s.ord[op.id].dir, s.ord[op.id].fil, PriceOf(op.tick))

\* the most a market order could take below its bound, and whether it is rejected
P05(s, op, r) == (op.k = "swap" /\ s.active /\ op.blk = {}) =>
    LET dir == DirOf(s, op)  side == Opp(dir)  bound == BoundIn(op, dir)
        w == Walk(s, dir, Path(s, dir, bound), [rem |-> op.amt, dust |-> Zero, out |-> Zero, last |-> <<One, One>>, fills |-> <<>>])
        reject == \/ IsZero(op.amt) \/ ~IsZero(op.fee) \/ dir = "none" \/ ~ValidAddr(op.sender)
                  \/ (dir # "none" /\ \/ bound < MinTick \/ bound > MaxTick
                                      \/ (dir = "ask" /\ bound > s.nb) \/ (dir = "bid" /\ bound < s.na)
                                      \/ (bound \in {MinTick, MaxTick} /\ BoundIn([op EXCEPT !.target = "none"], dir) = bound
                                          /\ IsPos(ValDn(dir, w.rem, w.last)))
                                      \/ IsZero(w.out) \/ Lt(w.out, op.min))
    IN /\ r.ok = ~reject
       /\ r.ok => /\ Le(op.min, Paid(r, op.sender, op.dout))
                  /\ Le(PaidD(r, op.din), op.amt)
                  /\ \A k \in DOMAIN r.pay : r.pay[k].to = op.sender

\* claims
P06(s, op, r) == (op.k = "claim" /\ s.active) =>
    LET i == op.id
        can == i \in DOMAIN s.ord /\ s.ord[i].tick = op.tick /\ IsPos(s.ord[i].fil) /\ op.funds = <<>>
    IN /\ (op.blk = {} => r.ok = can)
       /\ r.ok => LET o == s.ord[i]  left == Minus(o.qty, o.fil) IN
            /\ IF IsZero(left) THEN i \notin DOMAIN r.st.ord
               ELSE /\ i \in DOMAIN r.st.ord
                    /\ r.st.ord[i] = [o EXCEPT !.qty = left, !.fil = Zero, !.pos = Plus(@, o.fil)]
            /\ \A k \in DOMAIN r.pay : r.pay[k].d = EarnDenom(s, o.dir)

\* the split of the proceeds
P07(s, op, r) ==
    /\ (op.k = "claim" /\ r.ok) =>
         LET o == s.ord[op.id]  d == EarnDenom(s, o.dir)
             raw == ValDn(o.dir, o.fil, PriceOf(op.tick))
             b == IF o.bounty = NoBounty THEN Zero ELSE RateDn(raw, o.bounty)
             f == RateDn(raw, s.fee)
             Part(a, who) == IF a = who THEN One ELSE Zero
             Share(who) == Plus(Plus(IF who = o.owner THEN Minus(raw, Plus(b, f)) ELSE Zero,
                                     IF who = op.sender THEN b ELSE Zero),
                                IF who = s.recip THEN f ELSE Zero)
         IN /\ Le(Plus(b, f), raw)
            /\ \A who \in {o.owner, op.sender, s.recip} : Paid(r, who, d) = Share(who)
            /\ \A k \in DOMAIN r.pay : IsPos(r.pay[k].a) /\ r.pay[k].to \in {o.owner, op.sender, s.recip}
    /\ Le(r.st.fee, MaxFee)
    /\ \A i \in DOMAIN r.st.ord : r.st.ord[i].bounty = NoBounty \/ Le(r.st.ord[i].bounty, MaxBounty)

\* cancels
P08(s, op, r) == (op.k = "cancel" /\ s.active) =>
    LET i == op.id
        can == i \in DOMAIN s.ord /\ s.ord[i].tick = op.tick /\ s.ord[i].owner = op.sender
               /\ IsZero(s.ord[i].fil) /\ op.funds = <<>>
    IN /\ op.blk = {} => r.ok = can
       /\ r.ok => LET o == s.ord[i] IN
            /\ can
            /\ r.pay = <<[to |-> o.owner, d |-> RestDenom(s, o.dir), a |-> o.qty]>>
            /\ i \notin DOMAIN r.st.ord
            /\ r.st.tk[o.tick][o.dir].tal = Minus(s.tk[o.tick][o.dir].tal, o.qty)
            /\ r.st.liq[o.dir] = Minus(s.liq[o.dir], o.qty)

\* a batch is its claims in turn
RECURSIVE InTurn(_, _, _, _)
InTurn(s, op, items, pay) ==
    IF items = <<>> THEN [st |-> s, pay |-> pay]
    ELSE LET c == Core(s, [op EXCEPT !.k = "claim", !.tick = Head(items)[1], !.id = Head(items)[2]])
         IN InTurn(c.st, op, Tail(items), IF c.ok THEN pay \o c.pay ELSE pay)
P09(s, op, r) == (op.k = "batch" /\ s.active /\ op.blk = {}) =>
    /\ r.ok = (Len(op.items) <= MaxBatch /\ op.funds = <<>>)
    /\ r.ok => LET x == InTurn(s, op, op.items, <<>>)
               IN r.pay = x.pay /\ [r.st EXCEPT !.bal = s.bal] = [x.st EXCEPT !.bal = s.bal]

\* placing
P10(s, op, r) == (op.k = "place" /\ s.active) =>
    LET good == /\ op.tick >= MinTick /\ op.tick <= MaxTick /\ IsPos(op.qty)
                /\ (op.bounty = NoBounty \/ (Le(Zero, op.bounty) /\ Le(op.bounty, MaxBounty)))
                /\ op.funds = <<[d |-> RestDenom(s, op.dir), a |-> op.qty]>>
    IN /\ r.ok = good
       /\ r.ok => LET new == DOMAIN r.st.ord \ DOMAIN s.ord IN
            /\ Cardinality(new) = 1
            /\ \A i \in new : LET o == r.st.ord[i] IN
                 /\ i >= s.oid /\ r.st.oid > i
                 /\ o.tick = op.tick /\ o.dir = op.dir /\ o.owner = op.sender /\ o.qty = op.qty
                 /\ o.placed = op.qty /\ o.bounty = op.bounty /\ IsZero(o.fil) /\ o.at = op.now
                 /\ \A j \in IdsAt(s, op.tick, op.dir) : Le(Plus(s.ord[j].pos, s.ord[j].qty), o.pos)
            /\ Same(s, r.st, DOMAIN s.ord)
            /\ r.st.nb >= (IF op.dir = "bid" THEN op.tick ELSE MinTick)
            /\ r.st.na <= (IF op.dir = "ask" THEN op.tick ELSE MaxTick)

P11(s, op, r) == InvTAL(r.st) /\ InvLiq(r.st) /\ InvVolume(r.st) /\ InvPtr(r.st)

\* roles
P14(s, op, r) ==
    LET a == op.sender  s2 == r.st  act == IF op.k \in {"auth", "sudo"} THEN op.act ELSE "" IN
    /\ s2.admin # s.admin => \/ op.k = "auth" /\ act = "claim_admin" /\ s.aoff = a /\ s2.admin = a /\ s2.aoff = Nobody
                             \/ op.k = "auth" /\ act = "renounce" /\ s.admin = a /\ s2.admin = Nobody
                             \/ op.k = "sudo" /\ act = "transfer_admin" /\ s2.admin = op.addr
                             \/ op.k = "sudo" /\ act = "remove_admin" /\ s2.admin = Nobody
    /\ s2.mod # s.mod => op.k = "auth" /\ act = "claim_mod" /\ s.moff = a /\ s2.mod = a /\ s2.moff = Nobody
    /\ s2.aoff # s.aoff => op.k = "auth" /\ (\/ act = "transfer_admin" /\ s.admin = a /\ s2.aoff = op.addr
                                             \/ act = "cancel_transfer" /\ s.admin = a /\ s2.aoff = Nobody
                                             \/ act \in {"reject_admin", "claim_admin"} /\ s.aoff = a /\ s2.aoff = Nobody)
    /\ s2.moff # s.moff => op.k = "auth" /\ (\/ act = "offer_mod" /\ s.admin = a /\ s2.moff = op.addr
                                             \/ act \in {"reject_mod", "claim_mod"} /\ s.moff = a /\ s2.moff = Nobody)
    /\ s2.fee # s.fee => op.k = "auth" /\ act = "set_fee" /\ s.admin = a /\ s2.fee = op.fee
    /\ s2.recip # s.recip => op.k = "auth" /\ act = "set_recip" /\ s.admin = a /\ s2.recip = op.addr
    /\ (op.k = "auth" /\ r.ok /\ act \in {"claim_admin", "reject_admin"}) => s.aoff = a /\ s2.aoff = Nobody
    /\ (op.k = "auth" /\ r.ok /\ act \in {"claim_mod", "reject_mod"}) => s.moff = a /\ s2.moff = Nobody

\* the switch
P15(s, op, r) ==
    /\ (~s.active /\ IsTrade(op)) => ~r.ok
    /\ (~s.active /\ op.k \in {"auth", "migrate", "donate"}) =>
           Step([s EXCEPT !.active = TRUE], op).ok = r.ok
    /\ r.st.active # s.active =>
          /\ op.k \in {"auth", "sudo"} /\ op.act = "set_active" /\ r.st.active = op.flag
          /\ r.st = [s EXCEPT !.active = op.flag]
          /\ op.k = "auth" => op.sender \in {s.admin, s.mod} \ {Nobody}
          /\ op.k = "sudo" => s.active

\* all or nothing
P16(s, op, r) ==
    /\ ~r.ok => r.st = s
    /\ r.ok => \A k \in DOMAIN r.pay : r.pay[k].to \notin op.blk /\ IsPos(r.pay[k].a)
    \* undeliverable: everything but the delivery would have worked
    /\ LET free == Step(s, [op EXCEPT !.blk = {}]) IN
         IF r.ok THEN free = r
         ELSE free.ok => \E k \in DOMAIN free.pay : free.pay[k].to \in op.blk
    \* payments and what came in account for the whole change of balance
    /\ r.ok => \A d \in DOMAIN r.st.bal :
          LET in == SumOver({k \in DOMAIN Incoming(op) : Incoming(op)[k].d = d}, LAMBDA k : Incoming(op)[k].a)
              out == SumOver({k \in DOMAIN r.pay : r.pay[k].d = d /\ r.pay[k].to # Self}, LAMBDA k : r.pay[k].a)
          IN r.st.bal[d] = Minus(Plus(BalOf(s, d), in), out)

\* nothing else is touched
P20(s, op, r) ==
    LET about == CASE op.k \in {"cancel", "claim"} -> {op.id}
                   [] op.k = "batch" -> {op.items[k][2] : k \in DOMAIN op.items}
                   [] OTHER -> {}
        sides == CASE op.k = "place" -> {<<op.tick, op.dir>>}
                   [] op.k = "cancel" -> {<<s.ord[i].tick, s.ord[i].dir>> : i \in about \cap DOMAIN s.ord}
                   [] OTHER -> {}
    IN /\ \A i \in DOMAIN s.ord \ about :
            /\ i \in DOMAIN r.st.ord
            /\ [r.st.ord[i] EXCEPT !.fil = s.ord[i].fil] = s.ord[i]
            /\ op.k # "swap" => r.st.ord[i].fil = s.ord[i].fil
       /\ op.k # "swap" => \A t \in DOMAIN s.tk : \A d \in Sides : <<t, d>> \notin sides => r.st.tk[t][d] = s.tk[t][d]
       /\ op.k = "swap" => \A t \in DOMAIN s.tk : /\ r.st.tk[t][DirOf(s, op)] = s.tk[t][DirOf(s, op)]
                                                  /\ s.tk[t].ask.can = r.st.tk[t].ask.can
                                                  /\ s.tk[t].bid.can = r.st.tk[t].bid.can
       /\ ~IsTrade(op) => [r.st EXCEPT !.active = s.active, !.fee = s.fee, !.recip = s.recip, !.admin = s.admin,
                              !.aoff = s.aoff, !.mod = s.mod, !.moff = s.moff, !.bal = s.bal] = s
       /\ IsTrade(op) => <<r.st.active, r.st.fee, r.st.recip, r.st.admin, r.st.aoff, r.st.mod, r.st.moff>>
                         = <<s.active, s.fee, s.recip, s.admin, s.aoff, s.mod, s.moff>>

P21(s, op, r) == /\ <<r.st.quote, r.st.base>> = <<s.quote, s.base>>
                 /\ op.k = "migrate" => r.st = s

\* published claimable amounts
P22(s, op, r) == \A i \in DOMAIN r.st.ord : LET o == r.st.ord[i] IN
    o.fil = Clamp(Minus(HeadPos(r.st.tk[o.tick][o.dir]), o.pos), Zero, o.qty)

Violated(s, op, r) ==
    (IF P01(s, op, r) THEN {} ELSE {"C01"}) \cup (IF P02(s, op, r) THEN {} ELSE {"C02"})
    \cup (IF P03(s, op, r) THEN {} ELSE {"C03"}) \cup (IF P04(s, op, r) THEN {} ELSE {"C04"})
    \cup (IF P05(s, op, r) THEN {} ELSE {"C05"}) \cup (IF P06(s, op, r) THEN {} ELSE {"C06"})
    \cup (IF P07(s, op, r) THEN {} ELSE {"C07"}) \cup (IF P08(s, op, r) THEN {} ELSE {"C08"})
    \cup (IF P09(s, op, r) THEN {} ELSE {"C09"}) \cup (IF P10(s, op, r) THEN {} ELSE {"C10"})
    \cup (IF P11(s, op, r) THEN {} ELSE {"C11"}) \cup (IF P14(s, op, r) THEN {} ELSE {"C14"})
    \cup (IF P15(s, op, r) THEN {} ELSE {"C15"}) \cup (IF P16(s, op, r) THEN {} ELSE {"C16"})
    \cup (IF P20(s, op, r) THEN {} ELSE {"C20"}) \cup (IF P21(s, op, r) THEN {} ELSE {"C21"})
    \cup (IF P22(s, op, r) THEN {} ELSE {"C22"})
=============================================================================

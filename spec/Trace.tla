------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates recorded executions of the contract against the specification. *)
(* The recording is a forest, one node per message: op, outcome, what        *)
(* changed in storage and balances, payments, attributes, events, data,      *)
(* query answers, cost, dumps of cancel trees.                               *)
(*                                                                           *)
(* A behaviour of this module walks one path of the forest.  At each node    *)
(* the specification's Step is computed from the previous state and every    *)
(* facet of the observation is compared with it.  A difference is printed    *)
(* as a line  DIV|node|kind|facet|properties|detail  and the walk goes on    *)
(* from the observed state, so that later consequences are judged too.       *)
(***************************************************************************)
EXTENDS Responses, Queries, TreeFacts, TickMath, Verdict, Json, IOUtils
LOCAL INSTANCE Integers

CONSTANTS CostPlace,                    \* limits on storage accesses per message,
          CostSwap, CostTick,           \* see CostDivs
          CostWalk, CostLevel,
          CostClaim, CostClaimLevel

\* a path is left after a difference that concerns the property in question
\* ("" for any), or after so many messages with differences
Focus == IOEnv.FOCUS
MaxDivs == atoi(IOEnv.MAXDIVS)

Nodes == ndJsonDeserialize(IOEnv.TRACE)

E18 == "1000000000000000000"
E36 == "1000000000000000000000000000000000000"
Rate1pc == "10000000000000000"
Rate5pc == "50000000000000000"
SelfAddr == "cosmos2contract"
AddrOK(a) == a \notin {"", "X", "ALICE"}

VARIABLES l, st, nd, pk
vars == <<l, st, nd, pk>>
View == l
Roots == {i \in DOMAIN Nodes : Nodes[i].p = 0}

-----------------------------------------------------------------------------
(* Reconstruction of the observed state from the recorded change *)

Keys(ps) == {ps[i][1] : i \in DOMAIN ps}
Val(ps, k) == ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]

Empty0 == [quote |-> "", base |-> "", nb |-> 0, na |-> 0, oid |-> 0, ord |-> << >>, tk |-> << >>,
           liq |-> [ask |-> Zero, bid |-> Zero], bal |-> << >>, active |-> TRUE, fee |-> Zero,
           recip |-> "", admin |-> "", aoff |-> "", mod |-> "", moff |-> ""]

ObsOrder(x) == [tick |-> x.tick, dir |-> x.dir, owner |-> x.owner, qty |-> x.qty, fil |-> x.fi, pos |-> x.pos,
                bounty |-> x.bounty, placed |-> x.placed, at |-> x.at]
ObsSide(x, can) == [tal |-> x.tal, ctt |-> x.ctt, swp |-> x.swp, can |-> can]

\* base: state before; exp: where the cancelled intervals are taken from
Observed(base, d, exp) ==
    LET M(k, dflt) == IF k \in Keys(d.m) THEN Val(d.m, k) ELSE dflt
        del == ToSet(d.od)
        tdel == ToSet(d.td)
        ordset == Keys(d.o)
        tkset == Keys(d.t)
        Can(t, dir) == TickAt(exp, t)[dir].can
        Side(t, dir) == IF t \in tkset THEN ObsSide(Val(d.t, t)[dir], Can(t, dir))
                        ELSE [base.tk[t][dir] EXCEPT !.can = Can(t, dir)]
    IN [quote |-> M("quote", base.quote), base |-> M("base", base.base),
        nb |-> M("nb", base.nb), na |-> M("na", base.na), oid |-> M("oid", base.oid),
        ord |-> IF d.o = <<>> /\ d.od = <<>> THEN base.ord
                ELSE [i \in (DOMAIN base.ord \cup ordset) \ del |->
                        IF i \in ordset THEN ObsOrder(Val(d.o, i)) ELSE base.ord[i]],
        tk |-> [t \in (DOMAIN base.tk \cup tkset) \ tdel |-> [ask |-> Side(t, "ask"), bid |-> Side(t, "bid")]],
        liq |-> [ask |-> M("liq_ask", base.liq.ask), bid |-> M("liq_bid", base.liq.bid)],
        bal |-> [x \in DOMAIN base.bal \cup Keys(d.b) |-> IF x \in Keys(d.b) THEN Val(d.b, x) ELSE base.bal[x]],
        active |-> M("active", base.active), fee |-> M("fee", base.fee), recip |-> M("recip", base.recip),
        admin |-> M("admin", base.admin), aoff |-> M("aoff", base.aoff),
        mod |-> M("mod", base.mod), moff |-> M("moff", base.moff)]

-----------------------------------------------------------------------------
(* Comparison *)
D(facet, e, o) == [facet |-> facet, det |-> "expected " \o ToString(e) \o " observed " \o ToString(o)]
If(c, x) == IF c THEN {x} ELSE {}

NetOf(pay) ==
    LET ks == {<<pay[i].to, pay[i].d>> : i \in DOMAIN pay}
    IN [k \in ks |-> SumOver({i \in DOMAIN pay : <<pay[i].to, pay[i].d>> = k}, LAMBDA i : pay[i].a)]
Tot(pay) == LET ds == {pay[i].d : i \in DOMAIN pay}
            IN [d \in ds |-> SumOver({i \in DOMAIN pay : pay[i].d = d}, LAMBDA i : pay[i].a)]

\* non-zero entries only
NonZero(f) == [k \in {k \in DOMAIN f : ~IsZero(f[k])} |-> f[k]]

\* orders a message is about
Subject(s, op, exp) ==
    CASE op.k \in {"cancel", "claim"} -> {op.id}
      [] op.k = "batch" -> {op.items[i][2] : i \in DOMAIN op.items}
      [] op.k = "place" -> {s.oid}
      [] OTHER -> {}
\* tick sides a message is about: what the specification changes
SideTouched(s, exp, t, dir) == TickAt(s, t)[dir] # TickAt(exp, t)[dir]

OrdDivs(s, op, exp, ob) ==
    IF exp.ord = ob.ord THEN {}
    ELSE
    LET subj == Subject(s, op, exp)
        ids == {i \in DOMAIN exp.ord \cup DOMAIN ob.ord :
                  ~(i \in DOMAIN exp.ord /\ i \in DOMAIN ob.ord) \/ (exp.ord[i] # ob.ord[i])}
        Who(i) == IF i \in subj THEN "own"
                  ELSE IF i \in DOMAIN s.ord /\ i \in DOMAIN exp.ord /\ s.ord[i] # exp.ord[i] THEN "hit"  \* filled by this swap
                  ELSE "oth"
        One1(i) ==
          IF i \notin DOMAIN ob.ord THEN {D(Who(i) \o ".gone", exp.ord[i], i)}
          ELSE IF i \notin DOMAIN exp.ord THEN {D(Who(i) \o ".extra", i, ob.ord[i])}
          ELSE LET e == exp.ord[i] o == ob.ord[i] IN
               If(e.qty # o.qty, D(Who(i) \o ".qty", <<i, e.qty>>, o.qty))
               \cup If(e.fil # o.fil, D(Who(i) \o ".fil", <<i, e.fil>>, o.fil))
               \cup If(e.pos # o.pos, D(Who(i) \o ".pos", <<i, e.pos>>, o.pos))
               \cup If(e.bounty # o.bounty, D(Who(i) \o ".bounty", <<i, e.bounty>>, o.bounty))
               \cup If(<<e.tick, e.dir, e.owner, e.placed, e.at>> # <<o.tick, o.dir, o.owner, o.placed, o.at>>,
                       D(Who(i) \o ".meta", <<i, e>>, o))
    IN UNION {One1(i) : i \in ids}

\* published claimable amounts and frontiers
PubDivs(exp, d) ==
    UNION {LET i == d.o[k][1] x == d.o[k][2] IN
           If(i \in DOMAIN exp.ord /\ exp.ord[i].fil # x.cl, D("pub.cl", <<i, exp.ord[i].fil>>, x.cl)) : k \in DOMAIN d.o}
    \cup
    UNION {LET t == d.t[k][1] IN
           UNION {LET h == HeadPos(TickAt(exp, t)[dir]) IN
                  If(h # d.t[k][2][dir].hp, D("pub.hp", <<t, dir, h>>, d.t[k][2][dir].hp)) : dir \in Sides} : k \in DOMAIN d.t}

TickDivs(s, op, exp, ob) ==
    UNION {LET e == TickAt(exp, x[1])[x[2]]  o == TickAt(ob, x[1])[x[2]]
               w == IF SideTouched(s, exp, x[1], x[2]) THEN "tick" ELSE "otick"
           IN If(e.tal # o.tal, D(w \o ".tal", <<x, e.tal>>, o.tal))
              \cup If(e.ctt # o.ctt, D(w \o ".ctt", <<x, e.ctt>>, o.ctt))
              \cup If(e.swp # o.swp, D(w \o ".swp", <<x, e.swp>>, o.swp))
           : x \in SidesOf(exp) \cup SidesOf(ob)}
    \cup If(DOMAIN exp.tk # DOMAIN ob.tk, D("tickset", DOMAIN exp.tk, DOMAIN ob.tk))

MiscDivs(exp, ob) ==
    If(exp.nb # ob.nb \/ exp.na # ob.na, D("ptr", <<exp.nb, exp.na>>, <<ob.nb, ob.na>>))
    \cup If(exp.liq # ob.liq, D("liq", exp.liq, ob.liq))
    \cup If(exp.oid # ob.oid, D("oid", exp.oid, ob.oid))
    \cup If(exp.active # ob.active, D("active", exp.active, ob.active))
    \cup If(exp.fee # ob.fee, D("fee", exp.fee, ob.fee))
    \cup If(exp.recip # ob.recip, D("recip", exp.recip, ob.recip))
    \cup If(<<exp.admin, exp.aoff>> # <<ob.admin, ob.aoff>>, D("admin", <<exp.admin, exp.aoff>>, <<ob.admin, ob.aoff>>))
    \cup If(<<exp.mod, exp.moff>> # <<ob.mod, ob.moff>>, D("mod", <<exp.mod, exp.moff>>, <<ob.mod, ob.moff>>))
    \cup If(<<exp.quote, exp.base>> # <<ob.quote, ob.base>>, D("denoms", <<exp.quote, exp.base>>, <<ob.quote, ob.base>>))
    \cup If(NonZero(exp.bal) # NonZero(ob.bal), D("bal", exp.bal, ob.bal))

-----------------------------------------------------------------------------
(* Judgements on what really happened, independent of the expected state *)

\* volume taken per tick according to the observation
Taken(s, ob, side) == [t \in {t \in DOMAIN ob.tk : TickAt(ob, t)[side].swp # TickAt(s, t)[side].swp} |->
                          Minus(ob.tk[t][side].swp, TickAt(s, t)[side].swp)]
\* input handed back, by what was paid
Back(op, pay) == SumOver({i \in DOMAIN pay : pay[i].d = op.din}, LAMBDA i : pay[i].a)
BoundOf(op, dir) == IF op.target # "none" THEN op.bound ELSE IF dir = "bid" THEN MaxTick ELSE MinTick

\* best price first, nothing skipped, nothing beyond the bound, nothing of the own side
PriorityDivs(s, op, ob, pay) ==
    LET dir == PairDir(s, op.din, op.dout)
        side == Opp(dir)
        tk == Taken(s, ob, side)
        Better(a, b) == IF side = "bid" THEN a > b ELSE a < b
        bound == BoundOf(op, dir)
        skipped == {t \in LiquidTicks(ob, side) : \E u \in DOMAIN tk : Better(t, u)}
        beyond == {t \in DOMAIN tk : Better(bound, t)}
    IN IF dir = "none" THEN {}
       ELSE If(skipped # {}, D("prio.skipped", {}, skipped))
            \cup If(beyond # {}, D("prio.beyond", {}, beyond))
            \cup If(Taken(s, ob, dir) # << >>, D("prio.ownside", << >>, Taken(s, ob, dir)))
            \cup If(op.target = "none" /\ \A t \in DOMAIN tk : IsPos(ValDn(dir, Back(op, pay), PriceOf(t))),
                    D("prio.partial", "everything exchanged", Back(op, pay)))

\* the input kept is exactly the price of what was taken, plus a remainder that buys nothing
ChargeDivs(s, op, ob, pay) ==
    LET dir == PairDir(s, op.din, op.dout)
        side == Opp(dir)
        tk == Taken(s, ob, side)
        charge == SumOver(DOMAIN tk, LAMBDA t : ValUp(side, tk[t], PriceOf(t)))
        kept == Minus(op.amt, Back(op, pay))
        dust == Minus(kept, charge)
        bound == BoundOf(op, dir)
        last == {PriceOf(t) : t \in {t \in LiquidTicks(ob, side) : IF side = "bid" THEN t >= bound ELSE t <= bound}
                                    \cup DOMAIN tk}
    IN IF dir = "none" THEN {}
       ELSE If(Lt(kept, charge), D("charge.under", charge, kept))
            \cup If(IsPos(dust) /\ \A p \in last : IsPos(ValDn(dir, dust, p)), D("charge.over", charge, kept))

(* Storage accesses.  Placing: constant.  Swapping: constant per tick between *)
(* the best price and where the order ends (its bound, or the first liquidity *)
(* it did not touch).  Cancelling and claiming: logarithmic in the cancels there.      *)
RECURSIVE Log2(_)
Log2(k) == IF k <= 1 THEN 0 ELSE 1 + Log2((k + 1) \div 2)
Leaves(s, t, i) == IF i \in DOMAIN s.ord /\ s.ord[i].tick = t /\ t \in DOMAIN s.tk
                   THEN Cardinality(s.tk[t][s.ord[i].dir].can) ELSE 0
WalkCost(s, t, i) == CostWalk + CostLevel * Log2(Leaves(s, t, i) + 2)
ClaimCost(s, t, i) == CostClaim + CostClaimLevel * Log2(Leaves(s, t, i) + 2)
RECURSIVE BatchCost(_, _)
BatchCost(s, items) == IF items = <<>> THEN CostClaim
                       ELSE ClaimCost(s, Head(items)[1], Head(items)[2]) + BatchCost(s, Tail(items))
Reach(s, ob, op, ok) ==
    LET dir == PairDir(s, op.din, op.dout)
        side == Opp(dir)
        bound == BoundOf(op, dir)
        left == IF ok THEN LiquidTicks(ob, side) \ DOMAIN Taken(s, ob, side) ELSE {}
        On(t) == IF side = "bid" THEN t <= s.nb /\ t >= bound ELSE t >= s.na /\ t <= bound
        far == IF left = {} THEN bound ELSE IF side = "bid" THEN Max(left) ELSE Min(left)
    IN IF dir = "none" THEN {}
       ELSE {t \in DOMAIN s.tk : On(t) /\ (IF side = "bid" THEN t >= far ELSE t <= far)}
CostLimit(s, ob, op, ok) ==
    CASE op.k = "place" -> CostPlace
      [] op.k = "swap" -> CostSwap + CostTick * Cardinality(Reach(s, ob, op, ok))
      [] op.k = "cancel" -> WalkCost(s, op.tick, op.id)
      [] op.k = "claim" -> ClaimCost(s, op.tick, op.id)
      [] op.k = "batch" -> BatchCost(s, op.items)
      [] OTHER -> CostPlace
CostDivs(s, ob, op, n) ==
    LET c == n.cost.r + n.cost.w + n.cost.x
        lim == CostLimit(s, ob, op, n.ok)
    IN If(c > lim, D("cost", lim, n.cost))

(* The same without constants, on books that grow (profile "ladder"): with    *)
(* the number of cancels squared, the work of a cancel or claim may about     *)
(* double; a swap on one tick and a placement cost what they cost at first.   *)
(* pk holds the largest cost seen so far of cancels and claims per size, and   *)
(* the first cost of placing and swapping.                                    *)
Grows(n) == n.ok /\ n.prof = "ladder" /\ n.op.k \in {"place", "swap", "cancel", "claim"}
PeakKey(s, op) == <<op.k, IF op.k \in {"cancel", "claim"} THEN Log2(Leaves(s, op.tick, op.id) + 1) ELSE 0>>
Peaks(s, n) == LET k == PeakKey(s, n.op)  c == n.cost.r + n.cost.w + n.cost.x
               IN IF ~Grows(n) THEN pk
                  ELSE IF k \in DOMAIN pk /\ (pk[k] >= c \/ n.op.k \in {"place", "swap"}) THEN pk
                  ELSE (k :> c) @@ pk
GrowthDivs(s, n) ==
    LET k == PeakKey(s, n.op)  c == n.cost.r + n.cost.w + n.cost.x
        half == <<k[1], k[2] \div 2>>  quarter == <<k[1], k[2] \div 4>>
    IN IF ~Grows(n) THEN {}
       ELSE IF k[1] \in {"place", "swap"} THEN If(k \in DOMAIN pk /\ c > pk[k] + 3, D("cost.growth", pk[k], n.cost))
       ELSE IF k[2] = 0 \/ k[2] % 4 # 0 \/ ~({half, quarter} \subseteq DOMAIN pk) THEN {}
       ELSE If(10 * (c - pk[half]) > 24 * (pk[half] - pk[quarter]) + 60, D("cost.growth", <<pk[quarter], pk[half]>>, n.cost))

QueryDivs(s, n) ==
    UNION {LET q == n.q[k]
               a == Answer(s, q)
               same == q.ok = a.ok /\ (q.ok => q.r = a.r)
           IN If(~s.active /\ a.ok /\ ~q.ok, D("q.paused", a, q)) \cup
              IF q.k # "calc_out" THEN If(~same, D("q." \o q.k, a, <<q.ok, q.r, q>>))
              ELSE LET said == IF q.ok /\ q.r[2] # Zero THEN q.r[2] ELSE "none"
                       told == said = q.x \/ ~s.active
                   IN If(~told, D("quote", q.x, <<said, q>>))
                      \cup If(~same, D(IF told THEN "q.exec" ELSE "q.calc_out", a, <<q.ok, q.r, q>>))
           : k \in DOMAIN n.q}

TreeDivs(s, n) ==
    UNION {LET d == n.tree[k]
               v == TreeVerdict(d, LeafSeq(TickAt(s, d.tick)[d.dir].can))
           IN If(v # "", D("tree", "balanced, exact", <<d.tick, d.dir, v>>)) : k \in DOMAIN n.tree}

InvDivs(s, ob, d) ==
    LET ts == Keys(d.t) \cup {d.o[k][2].tick : k \in DOMAIN d.o}
        touched == {x \in {<<t, dir>> : t \in ts, dir \in Sides} : x[1] \in DOMAIN ob.tk}
    IN UNION {LET v == ob.tk[x[1]][x[2]]
                  ids == IdsAt(ob, x[1], x[2])
                  f == SumOver(ids, LAMBDA i : Free(ob.ord[i]))
              IN If(v.tal # f, D("inv.tal", <<x, f>>, v.tal))
                 \cup If(\E i, j \in ids : i < j /\ IsPos(ob.ord[j].fil) /\ IsPos(Free(ob.ord[i])),
                         D("inv.fifo", "oldest first", <<x, [i \in ids |-> <<ob.ord[i].qty, ob.ord[i].fil>>]>>))
              : x \in touched}
       \cup (IF touched = {} /\ s.liq = ob.liq /\ s.nb = ob.nb /\ s.na = ob.na THEN {}
             ELSE If(~InvLiq(ob), D("inv.liq", "sum of ticks", ob.liq))
                  \cup If(~InvPtr(ob), D("inv.ptr", "no hidden liquidity", <<ob.nb, ob.na>>)))
       \cup If(~InvSolvent(ob), D("inv.solvent", "covered", <<Surplus(ob, ob.quote), Surplus(ob, ob.base)>>))
       \cup (IF s.quote = "" THEN {}
             ELSE If(~SurplusKept(s, ob), D("inv.surplus", <<Surplus(s, s.quote), Surplus(s, s.base)>>,
                                                           <<Surplus(ob, ob.quote), Surplus(ob, ob.base)>>)))

-----------------------------------------------------------------------------
(* One node *)
Norm(op) == [op EXCEPT !.blk = ToSet(@)]

RespDivs(s, op, r, n) ==
    LET obsEv == SelectSeq(n.ev, LAMBDA e : e[1] = "limitClaimed")
        expEv == Events(s, op, r)
    IN If(~Reports(n.at, Attrs(s, op, r)), D("at", Attrs(s, op, r), n.at))
       \cup (IF Len(obsEv) # Len(expEv) THEN {D("ev", expEv, obsEv)}
             ELSE If(\E i \in DOMAIN expEv : ~Reports(obsEv[i][2], expEv[i]), D("ev", expEv, obsEv)))
       \cup If(op.k = "swap" /\ n.data # Data(op, r), D("data", Data(op, r), n.data))

\* a batch against the same claims sent one by one to the implementation
BatchDivs(n) ==
    IF n.alt = <<>> THEN {}
    ELSE LET a == n.alt[1] IN
         If(a.d # n.d \/ NetOf(a.pay) # NetOf(n.pay), D("batch.state", <<a.d, a.pay>>, <<n.d, n.pay>>))
         \cup If(a.ev # n.ev, D("batch.ev", a.ev, n.ev))

\* a market order in pieces (profile "split") against the same order in one go on the same
\* book, both executed by the implementation
SplitDivs(op, n) ==
    IF "most" \notin DOMAIN op \/ ~n.ok THEN {}
    ELSE LET here == SumOver({i \in DOMAIN n.pay : n.pay[i].d = op.dout}, LAMBDA i : n.pay[i].a)
         IN If(~Le(Plus(op.got, here), op.most), D("split", op.most, <<op.got, here>>))

Expected(s, op) ==
    IF op.k # "create" THEN Step(s, op)
    ELSE LET c == Create(op) IN
         IF c.ok THEN Done([c.st EXCEPT !.bal = CreditAll(@, op.funds)], <<>>, <<>>) ELSE Fail(s, "create")

Judge(s, n) ==
    LET op == Norm(n.op)
        r == Expected(s, op)
        exp == IF r.ok THEN r.st ELSE s
        same == r.ok = n.ok
        ob == Observed(s, n.d, IF same THEN exp ELSE s)
        acc == If(r.ok /\ ~n.ok, D(IF n.arith THEN "acc-.arith" ELSE "acc-", "accepted", <<n.err, n.panic>>))
               \cup If(~r.ok /\ n.ok, D("acc+", r.why, n.pay))
        pay == IF same /\ n.ok /\ NetOf(r.pay) # NetOf(n.pay)
               THEN {D(IF Tot(r.pay) = Tot(n.pay) THEN "pay.split" ELSE "pay.amount", r.pay, n.pay)}
                    \cup If(DOMAIN NetOf(r.pay) \ DOMAIN NetOf(n.pay) # {}, D("pay.missing", r.pay, n.pay))
               ELSE {}
        state == IF same THEN OrdDivs(s, op, exp, ob) \cup TickDivs(s, op, exp, ob) \cup MiscDivs(exp, ob)
                 ELSE {}
        judged == IF op.k = "swap" /\ n.ok THEN PriorityDivs(s, op, ob, n.pay) \cup ChargeDivs(s, op, ob, n.pay) ELSE {}
        trace == If(~n.ok /\ ob # s, D("trace", "no change", n.d))
        beh == acc \cup pay \cup state \cup trace
        resp == IF beh = {} /\ n.ok THEN RespDivs(s, op, r, n) ELSE {}
        st2 == IF beh = {} THEN exp ELSE ob
        bad == {D("bad." \o n.d.bad[k][1], "nothing", n.d.bad[k]) : k \in DOMAIN n.d.bad}
        pub == IF same THEN PubDivs(exp, n.d) ELSE {}
        rest == QueryDivs(st2, n) \cup TreeDivs(st2, n) \cup CostDivs(s, ob, op, n)
                \cup GrowthDivs(s, n) \cup BatchDivs(n) \cup SplitDivs(op, n)
                \cup (IF n.ok THEN InvDivs(s, ob, n.d) ELSE {})
    IN [st |-> st2, divs |-> beh \cup judged \cup pub \cup resp \cup bad \cup rest, why |-> r.why, ok |-> n.ok]

Kind(op) == IF op.k \in {"auth", "sudo"} THEN op.k \o "." \o op.act ELSE op.k

Report(i, s, n, r) ==
    \A d \in r.divs :
        PrintT("DIV|" \o ToString(i) \o "|" \o Kind(n.op) \o "|" \o d.facet \o "|"
               \o ToString(Props(Norm(n.op), d.facet, r.why, r.ok, s)) \o "|" \o d.det)

Visit(i) == LET n == Nodes[i]  r == Judge(st, n) IN
    /\ l' = i
    /\ st' = r.st
    /\ pk' = Peaks(st, n)
    /\ nd' = IF r.divs = {} THEN nd
             ELSE IF Focus # "" /\ \E d \in r.divs : Focus \in Props(Norm(n.op), d.facet, r.why, r.ok, st)
                  THEN MaxDivs ELSE nd + 1
    /\ Report(i, st, n, r)

Init == l = 0 /\ nd = 0 /\ st = Empty0 /\ pk = << >>

Next == /\ nd < MaxDivs
        /\ \E i \in (IF l = 0 THEN Roots ELSE Nodes[l].kf .. Nodes[l].kl) : Visit(i)
=============================================================================

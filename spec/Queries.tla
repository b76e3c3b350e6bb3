------------------------------ MODULE Queries -------------------------------
(* The answer to every query as a function of the state.                     *)
(* Answer(s, q) = [ok, r]; r has the shape the harness reports.              *)
EXTENDS Orderbook
LOCAL INSTANCE Integers

CONSTANTS SpotOne        \* Num: scale of prices squared (inverse of a price)

No == [ok |-> FALSE, r |-> <<>>]
Yes(r) == [ok |-> TRUE, r |-> r]
Take(seq, n) == IF n >= Len(seq) THEN seq ELSE SubSeq(seq, 1, n)

Row(o, i) == <<o.tick, i, o.dir, o.owner, o.qty, Times(o.pos, RateOne), o.bounty, o.placed, o.at>>
TickRow(s, t) == LET v == TickAt(s, t) IN
    <<t, <<v.ask.tal, v.ask.ctt, v.ask.swp>>, <<v.bid.tal, v.bid.ctt, v.bid.swp>> >>

\* identifiers in listing order: by tick, then by identifier
Listed(s, ids) == SetToSortSeq(ids, LAMBDA a, b :
    \/ s.ord[a].tick < s.ord[b].tick
    \/ s.ord[a].tick = s.ord[b].tick /\ a < b)
\* a bound is "none" or a value; ToString keeps the comparison total
Unset(b) == ToString(b) = "\"none\"" \/ ToString(b) = "none"
\* page limits: absent, "huge" (more than anything listed) or a number
Limit(l, absent) == IF Unset(l) THEN absent
                    ELSE IF ToString(l) \in {"\"huge\"", "huge"} THEN 1000000 ELSE l
AtLeast(t, i, b) == t > b[1] \/ (t = b[1] /\ i >= b[2])
AtMost(t, i, b) == t < b[1] \/ (t = b[1] /\ i <= b[2])

Answer(s, q) ==
    CASE q.k = "calc_out" ->
           LET dir == PairDir(s, q.din, q.dout)
               m == Market(s, dir, q.amt, IF dir = "bid" THEN MaxTick ELSE MinTick)
           IN IF ~IsZero(q.fee) \/ dir = "none" THEN No
              ELSE IF ~m.ok THEN No ELSE Yes(<<q.dout, m.out>>)
      [] q.k = "calc_in" -> No
      [] q.k = "spot" ->
           LET dir == PairDir(s, q.base, q.quote) IN
           IF dir = "none" THEN No
           ELSE IF dir = "ask" THEN Yes(<<PriceOf(s.nb)[1]>>)
           ELSE Yes(<<Div(SpotOne, PriceOf(s.na)[1])>>)
      [] q.k = "liq" -> Yes(<< <<s.base, s.liq.ask>>, <<s.quote, s.liq.bid>> >>)
      [] q.k = "active" -> Yes(<<s.active>>)
      [] q.k = "fee" -> Yes(<<s.fee>>)
      [] q.k = "swap_fee" -> Yes(<<Zero>>)
      [] q.k = "denoms" -> Yes(<<s.quote, s.base>>)
      [] q.k = "state" -> Yes(<<s.quote, s.base, s.nb, s.na>>)
      [] q.k = "auth" -> Yes(<<CASE q.who = "admin" -> s.admin [] q.who = "aoff" -> s.aoff
                                 [] q.who = "mod" -> s.mod [] OTHER -> s.moff>>)
      [] q.k = "all_ticks" ->
           LET ts == SetToSortSeq({t \in DOMAIN s.tk : /\ Unset(q.from) \/ t >= q.from
                                                       /\ Unset(q.to) \/ t <= q.to}, LAMBDA a, b : a < b)
               cut == Take(ts, Limit(q.limit, Len(ts)))
           IN Yes([i \in 1..Len(cut) |-> TickRow(s, cut[i])])
      [] q.k = "ticks_by_id" ->
           IF \E i \in DOMAIN q.ids : q.ids[i] \notin DOMAIN s.tk THEN No
           ELSE Yes([i \in 1..Len(q.ids) |-> TickRow(s, q.ids[i])])
      [] q.k = "by_owner" ->
           LET mine == {i \in DOMAIN s.ord : s.ord[i].owner = q.owner}
               in == {i \in mine : /\ Unset(q.from) \/ AtLeast(s.ord[i].tick, i, q.from)
                                   /\ Unset(q.to) \/ AtMost(s.ord[i].tick, i, q.to)}
               cut == Take(Listed(s, in), Limit(q.limit, 100))
           IN Yes(<<Cardinality(mine), [j \in 1..Len(cut) |-> Row(s.ord[cut[j]], cut[j])]>>)
      [] q.k = "by_tick" ->
           LET in == {i \in DOMAIN s.ord : /\ s.ord[i].tick = q.tick
                                           /\ Unset(q.from) \/ i >= q.from
                                           /\ Unset(q.to) \/ i <= q.to}
               cut == Take(Listed(s, in), Limit(q.limit, Cardinality(in)))
           IN Yes(<<Cardinality(in), [j \in 1..Len(cut) |-> Row(s.ord[cut[j]], cut[j])]>>)
      [] q.k = "unreal" ->
           IF \E i \in DOMAIN q.ids : q.ids[i] \notin DOMAIN s.tk THEN No
           ELSE Yes([i \in 1..Len(q.ids) |->
                       <<q.ids[i], HeadPos(s.tk[q.ids[i]].ask), HeadPos(s.tk[q.ids[i]].bid)>>])
      [] q.k = "price" ->
           IF q.tick < MinTick \/ q.tick > MaxTick THEN No ELSE Yes(<<PriceOf(q.tick)[1]>>)
=============================================================================

----------------------------- MODULE TickQueue ------------------------------
(***************************************************************************)
(* One side of a tick the way the code keeps it (order.rs, tick.rs).       *)
(*                                                                         *)
(*   tal    resting volume               ctt   volume ever placed          *)
(*   etas   fill frontier: swapped plus realized cancelled volume          *)
(*   crc    cancelled volume realized into etas so far                     *)
(*   sync   value of etas when cancels were last realized                  *)
(*   tree   the cancels (SumTree)                                          *)
(*   ord    id -> [qty, etas]: unclaimed size and start in the queue       *)
(*                                                                         *)
(* Nothing is stored per order when it is filled: an order is filled where *)
(* the frontier has passed it, and the frontier is only brought forward    *)
(* over cancels lazily, by Sync, when somebody cancels or claims.          *)
(***************************************************************************)
EXTENDS SumTree
LOCAL INSTANCE Integers
LOCAL INSTANCE FiniteSets

EmptyQ == [tal |-> Zero, ctt |-> Zero, etas |-> Zero, crc |-> Zero, sync |-> Zero,
           tree |-> EmptyTree, ord |-> << >>]

QLow(a, b) == IF Lt(a, b) THEN a ELSE b

Sync(q) ==
    IF q.sync = q.etas THEN q
    ELSE LET now == PrefixSum(q.tree, q.etas, q.crc)
         IN [q EXCEPT !.etas = Plus(@, Minus(now, q.crc)), !.crc = now, !.sync = q.etas]

QPlace(q, i, v) ==
    [q EXCEPT !.ord = [x \in DOMAIN @ \cup {i} |-> IF x = i THEN [qty |-> v, etas |-> q.ctt] ELSE @[x]],
              !.tal = Plus(@, v), !.ctt = Plus(@, v)]

QFill(q, v) == [q EXCEPT !.tal = Minus(@, v), !.etas = Plus(@, v)]

\* both answer [ok, q, a]; a refused message is rolled back
QCancel(q, i) ==
    LET y == Sync(q)  o == q.ord[i]
    IN IF Lt(o.etas, y.etas) THEN [ok |-> FALSE, q |-> q, a |-> Zero]
       ELSE [ok |-> TRUE, a |-> o.qty,
             q |-> [y EXCEPT !.tree = Insert(@, LeafOf(o.etas, o.qty)),
                             !.ord = [x \in DOMAIN @ \ {i} |-> @[x]],
                             !.tal = Minus(@, o.qty)]]

QClaim(q, i) ==
    LET y == Sync(q)  o == q.ord[i]
        a == QLow(Minus(y.etas, o.etas), o.qty)
        left == [qty |-> Minus(o.qty, a), etas |-> Plus(o.etas, a)]
    IN IF Le(y.etas, o.etas) THEN [ok |-> FALSE, q |-> q, a |-> Zero]
       ELSE [ok |-> TRUE, a |-> a,
             q |-> [y EXCEPT !.ord = IF left.qty = Zero THEN [x \in DOMAIN @ \ {i} |-> @[x]]
                                     ELSE [@ EXCEPT ![i] = left]]]

\* what anybody can compute from what is published
Published(q) == Plus(q.etas, Minus(PrefixSum(q.tree, q.etas, q.crc), q.crc))
Claimable(q, i) == LET h == Published(q)  o == q.ord[i] IN
    IF Le(h, o.etas) THEN Zero ELSE QLow(Minus(h, o.etas), o.qty)

-----------------------------------------------------------------------------
QueueSound(q) ==
    /\ TreeSound(q.tree)
    /\ Logarithmic(q.tree)
    /\ Le(q.crc, q.tree.sum)
    /\ Le(q.etas, q.ctt)                      \* the guard of sync_tick never fires
    /\ Le(q.crc, q.etas)
    /\ Le(q.sync, q.etas)
    \* synchronising is idempotent and never goes back
    /\ LET y == Sync(q) IN /\ Le(q.etas, y.etas) /\ Le(q.crc, y.crc) /\ Le(y.etas, y.ctt)
                           /\ Sync(y).etas = y.etas /\ Sync(y).crc = y.crc
                           /\ Le(y.etas, Published(q)) /\ (q.sync # q.etas => y.etas = Published(q))
=============================================================================

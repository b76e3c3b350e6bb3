----------------------------- MODULE Sym_Queue ------------------------------
(***************************************************************************)
(* One tick side with unbounded amounts: an inductive invariant.           *)
(*                                                                         *)
(* MC_Queue explores the same layers with TLC for small amounts.  Here the *)
(* amounts are arbitrary integers and the number of messages is arbitrary; *)
(* bounded is only the number N of orders ever placed.  Apalache shows     *)
(*   Init => IndInv,   IndInv /\ Next => IndInv'     (claimed or cancelled *)
(* orders keep their slot), and that in every such state                   *)
(*   IndInv => Answers : the offset scheme accepts and pays exactly what   *)
(* the explicit queue says.                                                *)
(*                                                                         *)
(* Explicit queue (Orderbook.tla):  fil[i], filled but unclaimed, given    *)
(* out oldest first by Fill.  Offset scheme (TickQueue.tla): etas, crc,    *)
(* sync and the cancelled intervals.                                       *)
(***************************************************************************)
EXTENDS Integers, Apalache

CONSTANT
    \* @type: Int;
    N

Slots == 1..N
\* @type: Int => Int;
Self1(i) == i
Seq1N == MkSeq(N, Self1)

VARIABLES
    \* @type: Int;
    n,          \* orders placed so far
    \* @type: Int -> Int;
    size,
    \* @type: Int -> Int;
    claimed,
    \* @type: Int -> Bool;
    gone,       \* cancelled
    \* @type: Int -> Int;
    fil,
    \* @type: Int;
    swp,        \* volume ever swapped
    \* @type: Int;
    tal,
    \* @type: Int;
    ctt,
    \* @type: Int;
    etas,
    \* @type: Int;
    crc,
    \* @type: Int;
    sync

vars == <<n, size, claimed, gone, fil, swp, tal, ctt, etas, crc, sync>>

\* sums over the slots before i, and over all of them
SumBelow(i, F(_)) == LET Add(a, j) == IF j < i THEN a + F(j) ELSE a IN ApaFoldSet(Add, 0, Slots)
SumAll(F(_)) == LET Add(a, j) == a + F(j) IN ApaFoldSet(Add, 0, Slots)

Start(i) == LET F(j) == size[j] IN SumBelow(i, F)
Pos(i) == Start(i) + claimed[i]
Qty(i) == size[i] - claimed[i]
Live(i) == i <= n /\ ~gone[i] /\ claimed[i] < size[i]
Free(i) == IF Live(i) THEN Qty(i) - fil[i] ELSE 0
MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a <= b THEN b ELSE a
Clamp(a, hi) == MaxI(0, MinI(a, hi))

\* the fill frontier over the cancels among the first k orders
FrontierUpTo(k) ==
    LET Skip(h, i) == IF i <= k /\ i <= n /\ gone[i] /\ Pos(i) <= h THEN h + Qty(i) ELSE h
    IN ApaFoldSeqLeft(Skip, etas - crc, Seq1N)
Frontier == FrontierUpTo(N)

\* Sync of TickQueue: realize the cancels the frontier has passed
SyncEtas == IF sync = etas THEN etas ELSE Frontier
SyncCrc == IF sync = etas THEN crc ELSE Frontier - (etas - crc)
SyncSync == IF sync = etas THEN sync ELSE etas

-----------------------------------------------------------------------------
Init ==
    /\ n = 0 /\ swp = 0 /\ tal = 0 /\ ctt = 0 /\ etas = 0 /\ crc = 0 /\ sync = 0
    /\ size = [i \in Slots |-> 0] /\ claimed = [i \in Slots |-> 0]
    /\ gone = [i \in Slots |-> FALSE] /\ fil = [i \in Slots |-> 0]

Place ==
    \E v \in Int :
        /\ n < N /\ v > 0
        /\ n' = n + 1
        /\ size' = [size EXCEPT ![n + 1] = v]
        /\ tal' = tal + v /\ ctt' = ctt + v
        /\ UNCHANGED <<claimed, gone, fil, swp, etas, crc, sync>>

Fill ==
    \E v \in Int :
        /\ v > 0 /\ v <= tal
        /\ fil' = [i \in Slots |-> IF Live(i)
                      THEN LET F(j) == Free(j) IN fil[i] + Clamp(v - SumBelow(i, F), Free(i))
                      ELSE fil[i]]
        /\ swp' = swp + v /\ tal' = tal - v /\ etas' = etas + v
        /\ UNCHANGED <<n, size, claimed, gone, ctt, crc, sync>>

Cancel ==
    \E i \in Slots :
        /\ Live(i) /\ SyncEtas <= Pos(i)
        /\ etas' = SyncEtas /\ crc' = SyncCrc /\ sync' = SyncSync
        /\ gone' = [gone EXCEPT ![i] = TRUE]
        /\ tal' = tal - Qty(i)
        /\ UNCHANGED <<n, size, claimed, fil, swp, ctt>>

Claim ==
    \E i \in Slots :
        /\ Live(i) /\ Pos(i) < SyncEtas
        /\ etas' = SyncEtas /\ crc' = SyncCrc /\ sync' = SyncSync
        /\ claimed' = [claimed EXCEPT ![i] = @ + MinI(SyncEtas - Pos(i), Qty(i))]
        /\ fil' = [fil EXCEPT ![i] = 0]
        /\ UNCHANGED <<n, size, gone, swp, tal, ctt>>

Next == Place \/ Fill \/ Cancel \/ Claim

-----------------------------------------------------------------------------
\* what the offset scheme answers is what the explicit queue says
Answers == \A i \in Slots : Live(i) =>
    /\ (Pos(i) < SyncEtas) <=> (fil[i] > 0)                           \* claim accepted
    /\ fil[i] > 0 => MinI(SyncEtas - Pos(i), Qty(i)) = fil[i]         \* and for how much
    /\ (SyncEtas <= Pos(i)) <=> (fil[i] = 0)                          \* cancel accepted
    /\ fil[i] = Clamp(Frontier - Pos(i), Qty(i))                      \* published claimable amount
    /\ SyncEtas <= ctt                                                \* guard of sync_tick never fires

\* strict time priority
Priority == \A i, j \in Slots : (i < j /\ Live(i) /\ Live(j) /\ fil[j] > 0) => fil[i] = Qty(i)

Totals ==
    /\ LET F(j) == Free(j) IN tal = SumAll(F)
    /\ LET F(j) == size[j] IN ctt = SumAll(F)
    /\ LET F(j) == claimed[j] + (IF Live(j) THEN fil[j] ELSE 0) IN swp = SumAll(F)

Types ==
    /\ n \in 0..N
    /\ \A i \in Slots :
         /\ i > n => size[i] = 0 /\ claimed[i] = 0 /\ ~gone[i] /\ fil[i] = 0
         /\ i <= n => size[i] > 0
         /\ claimed[i] >= 0 /\ claimed[i] <= size[i]
         /\ gone[i] => claimed[i] < size[i] /\ fil[i] = 0
         /\ fil[i] >= 0 /\ fil[i] <= Qty(i)
         /\ (fil[i] > 0 => Live(i))

Offsets ==
    /\ etas - crc = swp /\ crc >= 0 /\ sync <= etas /\ sync >= 0
    \* the cancels realized so far are an initial part of all cancels, up to the frontier
    /\ \E k \in 0..N : etas = FrontierUpTo(k) /\
           LET F(j) == IF j <= k /\ gone[j] THEN Qty(j) ELSE 0 IN crc = SumAll(F)
    /\ \A i \in Slots : Live(i) => fil[i] = Clamp(Frontier - Pos(i), Qty(i))
    \* nothing to synchronise: every cancel before etas is realized
    /\ sync = etas => LET F(j) == IF gone[j] /\ Pos(j) < etas THEN Qty(j) ELSE 0 IN crc = SumAll(F)
    \* orders behind the frontier that cannot be filled any more
    /\ \A i \in Slots : (i <= n /\ ~gone[i] /\ claimed[i] = size[i]) => Pos(i) <= Frontier
    /\ Frontier <= ctt

IndInv == Types /\ Totals /\ Offsets
Promised == Answers /\ Priority

\* an arbitrary state satisfying the invariant
IndInit ==
    /\ n \in 0..N
    /\ size \in [Slots -> Int]
    /\ claimed \in [Slots -> Int]
    /\ gone \in [Slots -> BOOLEAN]
    /\ fil \in [Slots -> Int]
    /\ swp \in Int /\ tal \in Int /\ ctt \in Int /\ etas \in Int /\ crc \in Int /\ sync \in Int
    /\ IndInv
=============================================================================

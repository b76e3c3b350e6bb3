------------------------------ MODULE Sym_Tree ------------------------------
(***************************************************************************)
(* The walk that sums up what a synchronisation has to skip, on every tree *)
(* of up to four leaves and every balanced one of up to eight, whatever    *)
(* its positions and volumes.                                              *)
(*                                                                         *)
(* MC_Queue builds the trees by small unit cancels.  Here the tree is any  *)
(* sound one in heap form (children of i: 2i and 2i+1, no right child      *)
(* without a left one), with arbitrary integers; `last` is the frontier    *)
(* after the last synchronisation, `target` the present one.               *)
(* Levels is 3 or 4.  Twin = {0} leaves the shape open; otherwise it is the *)
(* set of nodes with two children, everything below them being leaves (the *)
(* solver needs a fixed shape at four levels).                             *)
(* Apalache shows that PrefixWalk (SumTree.tla, tree.rs), which descends a *)
(* single path, answers what going over all cancels in queue order says:   *)
(* a cancel counts if the frontier, brought forward over the not yet       *)
(* realized cancels before it, has reached it.  Sym_Queue uses that very   *)
(* sum (Skipped) and shows that it is what the explicit queue needs.       *)
(***************************************************************************)
EXTENDS Integers, Apalache

CONSTANTS
    \* @type: Int;
    Levels,
    \* @type: Set(Int);
    Twin

Nodes == IF Levels = 3 THEN 1..7 ELSE 1..15
Inner == IF Levels = 3 THEN 1..3 ELSE 1..7
\* @type: (Int -> Int) => Bool;
Shaped(k) == 0 \in Twin \/ \A i \in Nodes : k[i] = (IF i \in Twin THEN 2 ELSE IF i \div 2 \in Twin THEN 1 ELSE 0)

VARIABLES
    \* @type: Int -> Int;
    kind,       \* 0 nothing, 1 leaf, 2 node
    \* @type: Int -> Int;
    lo,
    \* @type: Int -> Int;
    hi,
    \* @type: Int -> Int;
    sum,
    \* @type: Int;
    last,
    \* @type: Int;
    target

vars == <<kind, lo, hi, sum, last, target>>

Sound ==
    /\ \A i \in Nodes : kind[i] \in {0, 1, 2} /\ (kind[i] = 2 => i \in Inner)
    /\ kind[1] = 2
    /\ \A i \in Inner : /\ kind[2 * i] # 0 <=> kind[i] = 2
                        /\ kind[2 * i + 1] # 0 => kind[i] = 2
    /\ \A i \in Nodes : /\ kind[i] = 0 => lo[i] = 0 /\ hi[i] = 0 /\ sum[i] = 0
                        /\ kind[i] = 1 => sum[i] > 0 /\ lo[i] >= 0 /\ hi[i] = lo[i] + sum[i]
    /\ \A i \in Inner : kind[i] = 2 =>
            /\ lo[i] = lo[2 * i]
            /\ sum[i] = sum[2 * i] + sum[2 * i + 1]
            /\ IF kind[2 * i + 1] = 0 THEN hi[i] = hi[2 * i]
               ELSE hi[2 * i] <= lo[2 * i + 1] /\ hi[i] = hi[2 * i + 1]

Leaves == {i \in Nodes : kind[i] = 1}

\* what the last synchronisation has realized; it left nothing half passed
Prev == LET Add(a, i) == IF kind[i] = 1 /\ lo[i] < last THEN a + sum[i] ELSE a IN ApaFoldSet(Add, 0, Nodes)
Settled == \A i \in Leaves : hi[i] <= last \/ lo[i] >= last

Init ==
    /\ kind \in [Nodes -> Int]
    /\ lo \in [Nodes -> Int]
    /\ hi \in [Nodes -> Int]
    /\ sum \in [Nodes -> Int]
    /\ last \in Int /\ target \in Int
    /\ 0 <= last /\ last <= target
    /\ Shaped(kind)
    /\ Sound
    /\ Settled

Next == UNCHANGED vars

-----------------------------------------------------------------------------
Sat(a, b) == IF a < b THEN 0 ELSE a - b

At4(i, cur, t) == IF t < lo[i] THEN 0 ELSE cur
\* one step of the walk, W standing for the walk one level down
\* @type: (Int, Int, Int, (Int, Int, Int) => Int) => Int;
Step(i, cur, t, W(_, _, _)) ==
    LET a == 2 * i
        b == 2 * i + 1
        ahead == t + Sat(sum[a], Sat(Prev, cur - sum[i]))
    IN IF t < lo[i] THEN 0
       ELSE IF hi[i] <= t THEN cur
       ELSE IF kind[i] = 1 THEN cur
       ELSE IF kind[b] # 0 /\ lo[b] <= ahead THEN W(b, cur, ahead)
       ELSE IF t < lo[a] THEN 0
       ELSE IF t < hi[a] THEN W(a, cur - sum[b], t)
       ELSE IF kind[b] = 0 THEN cur
       ELSE IF t < lo[b] THEN cur - sum[b]
       ELSE IF t <= hi[b] THEN W(b, cur, t)
       ELSE cur
At3(i, cur, t) == IF Levels = 3 THEN At4(i, cur, t) ELSE Step(i, cur, t, At4)
At2(i, cur, t) == Step(i, cur, t, At3)
Walk == Step(1, sum[1], target, At2)

\* over all cancels in queue order: bef is the volume of the cancels before a node
Here(i, bef) == lo[i] <= target + Sat(bef, Prev)
\* @type: (Int, Int, (Int, Int) => <<Bool, Int>>) => <<Bool, Int>>;
Pass(i, bef, P(_, _)) ==
    IF kind[i] = 0 THEN <<TRUE, 0>>
    ELSE IF kind[i] = 1 THEN (IF Here(i, bef) THEN <<TRUE, sum[i]>> ELSE <<FALSE, 0>>)
    ELSE LET x == P(2 * i, bef)
             y == P(2 * i + 1, bef + sum[2 * i])
         IN IF x[1] THEN <<y[1], x[2] + y[2]>> ELSE x
Pass4(i, bef) == IF kind[i] = 1 /\ Here(i, bef) THEN <<TRUE, sum[i]>> ELSE <<kind[i] = 0, 0>>
Pass3(i, bef) == IF Levels = 3 THEN Pass4(i, bef) ELSE Pass(i, bef, Pass4)
Pass2(i, bef) == Pass(i, bef, Pass3)
Skipped == Pass(1, 0, Pass2)[2]

Exact == Walk = Skipped
=============================================================================

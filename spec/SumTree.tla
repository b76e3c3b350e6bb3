------------------------------ MODULE SumTree -------------------------------
(***************************************************************************)
(* The tree in which a tick side keeps its cancels (sumtree/node.rs and    *)
(* sumtree/tree.rs): an AVL tree whose leaves are the cancelled intervals  *)
(* [min, max) of the queue in queue order, and whose inner nodes carry the *)
(* interval they span, the volume below them and their height.             *)
(*                                                                         *)
(* Insertion follows the eight cases of TreeNode::insert with a rebalance  *)
(* on the way back, and PrefixSum is the walk of tree.rs that adds up what *)
(* a synchronisation has to skip, in time proportional to the height.      *)
(***************************************************************************)
EXTENDS Num, Sequences

LOCAL INSTANCE Integers

Nil == [k |-> "nil", l |-> <<>>, r |-> <<>>, min |-> Zero, max |-> Zero, sum |-> Zero, w |-> 0]
Broken == [Nil EXCEPT !.k = "broken"]
LeafOf(p, v) == [k |-> "leaf", l |-> <<>>, r |-> <<>>, min |-> p, max |-> Plus(p, v), sum |-> v, w |-> 1]

IsNil(n) == n.k = "nil"
IsLeaf(n) == n.k = "leaf"
IsNode(n) == n.k = "node"
Left(n) == n.l[1]
Right(n) == n.r[1]
MaxOf(a, b) == IF a < b THEN b ELSE a
LowOf(a, b) == IF Lt(a, b) THEN a ELSE b
HighOf(a, b) == IF Lt(a, b) THEN b ELSE a
Sat(a, b) == IF Lt(a, b) THEN Zero ELSE Minus(a, b)

\* an inner node in agreement with its children (sync_range_and_value)
Mk(a, b) ==
    IF a.k = "broken" \/ b.k = "broken" THEN Broken
    ELSE [k |-> "node", l |-> <<a>>, r |-> <<b>>,
          min |-> IF IsNil(a) THEN b.min ELSE IF IsNil(b) THEN a.min ELSE LowOf(a.min, b.min),
          max |-> IF IsNil(a) THEN b.max ELSE IF IsNil(b) THEN a.max ELSE HighOf(a.max, b.max),
          sum |-> Plus(a.sum, b.sum),
          w |-> MaxOf(a.w, b.w) + 1]

EmptyTree == [Mk(Nil, Nil) EXCEPT !.w = 0]

-----------------------------------------------------------------------------
Balance(n) == IF ~IsNode(n) THEN 0 ELSE Right(n).w - Left(n).w
RotateRight(n) == LET a == Left(n) IN Mk(Left(a), Mk(Right(a), Right(n)))
RotateLeft(n) == LET b == Right(n) IN Mk(Mk(Left(n), Left(b)), Right(b))

Rebalance(n) ==
    LET bf == Balance(n) IN
    IF n.k = "broken" \/ (bf <= 1 /\ bf >= -1) THEN n
    ELSE CASE bf > 0 /\ Balance(Right(n)) >= 0 -> RotateLeft(n)
           [] bf < 0 /\ Balance(Left(n)) <= 0 -> RotateRight(n)
           [] bf > 0 -> RotateLeft(Mk(Left(n), RotateRight(Right(n))))
           [] OTHER -> RotateRight(Mk(RotateLeft(Left(n)), Right(n)))

\* what rotation an insertion ends with at this node (for coverage goals)
Rotation(n) == LET bf == Balance(n) IN
    IF bf <= 1 /\ bf >= -1 THEN "none"
    ELSE IF bf > 0 THEN (IF Balance(Right(n)) >= 0 THEN "RR" ELSE "RL")
    ELSE (IF Balance(Left(n)) <= 0 THEN "LL" ELSE "LR")

Split(a, x) == IF Le(a.max, x.min) THEN Mk(a, x)
               ELSE IF Le(x.max, a.min) THEN Mk(x, a) ELSE Broken

InsertCase(n, x) ==
    LET a == Left(n)  b == Right(n)
        inLeft == ~IsNil(a) /\ Lt(x.min, a.max)
        inRight == ~IsNil(b) /\ Le(b.min, x.min)
    IN CASE IsNode(a) /\ inLeft -> 1
         [] IsNode(b) /\ inRight -> 2
         [] IsNode(a) /\ IsNode(b) -> 3
         [] IsLeaf(a) /\ ~IsNil(b) /\ ~inRight -> 4
         [] IsLeaf(b) /\ ~IsNil(a) /\ ~inLeft -> 5
         [] ~IsNil(a) /\ Le(x.max, a.min) /\ IsNil(b) -> 6
         [] IsNil(a) -> 7
         [] IsNil(b) -> 8
         [] OTHER -> 9

RECURSIVE Insert(_, _)
Insert(n, x) ==
    LET a == Left(n)  b == Right(n)  c == InsertCase(n, x)
    IN CASE c \in {1, 3} -> Rebalance(Mk(Insert(a, x), b))
         [] c = 2 -> Rebalance(Mk(a, Insert(b, x)))
         [] c = 4 -> Rebalance(Mk(Split(a, x), b))
         [] c = 5 -> Rebalance(Mk(a, Split(b, x)))
         [] c = 6 -> Mk(x, a)
         [] c = 7 -> Mk(x, b)
         [] c = 8 -> Mk(a, x)
         [] OTHER -> Broken

\* the path of cases and rotations of an insertion
RECURSIVE InsertPath(_, _)
InsertPath(n, x) ==
    LET a == Left(n)  b == Right(n)  c == InsertCase(n, x)
        res == CASE c \in {1, 3} -> Mk(Insert(a, x), b)
                 [] c = 2 -> Mk(a, Insert(b, x))
                 [] c = 4 -> Mk(Split(a, x), b)
                 [] c = 5 -> Mk(a, Split(b, x))
                 [] OTHER -> Mk(a, x)
        here == {<<"case", c>>, <<"rotation", Rotation(res)>>}
    IN IF c \in {1, 3} THEN here \cup InsertPath(a, x)
       ELSE IF c = 2 THEN here \cup InsertPath(b, x) ELSE here

-----------------------------------------------------------------------------
(* prefix_sum_walk: current sum, target, sum of the previous synchronisation *)
RECURSIVE PrefixWalk(_, _, _, _)
PrefixWalk(n, cur, target, prev) ==
    LET a == Left(n)  b == Right(n)
        sumAt == Minus(cur, n.sum)
        unr == Sat(a.sum, Sat(prev, sumAt))
        ahead == Plus(target, unr)
    IN CASE Lt(target, n.min) -> Zero
         [] Le(n.max, target) -> cur
         [] IsLeaf(n) -> cur
         [] ~IsNil(a) /\ ~IsNil(b) /\ Le(b.min, ahead) -> PrefixWalk(b, cur, ahead, prev)
         [] ~IsNil(a) /\ Lt(target, a.min) -> Zero
         [] ~IsNil(a) /\ Lt(target, a.max) -> PrefixWalk(a, Minus(cur, b.sum), target, prev)
         [] IsNil(b) -> cur
         [] Lt(target, b.min) -> Minus(cur, b.sum)
         [] Le(target, b.max) -> PrefixWalk(b, cur, target, prev)
         [] OTHER -> cur

\* the branches such a walk takes (for coverage goals)
RECURSIVE WalkPath(_, _, _, _)
WalkPath(n, cur, target, prev) ==
    LET a == Left(n)  b == Right(n)
        ahead == Plus(target, Sat(a.sum, Sat(prev, Minus(cur, n.sum))))
    IN CASE Lt(target, n.min) -> <<"below">>
         [] Le(n.max, target) -> <<"above">>
         [] IsLeaf(n) -> <<"leaf">>
         [] ~IsNil(a) /\ ~IsNil(b) /\ Le(b.min, ahead) ->
              <<IF target = ahead THEN "right" ELSE "resync">> \o WalkPath(b, cur, ahead, prev)
         [] ~IsNil(a) /\ Lt(target, a.min) -> <<"below left">>
         [] ~IsNil(a) /\ Lt(target, a.max) -> <<"left">> \o WalkPath(a, Minus(cur, b.sum), target, prev)
         [] IsNil(b) -> <<"no right">>
         [] Lt(target, b.min) -> <<"between">>
         [] Le(target, b.max) -> <<"right late">> \o WalkPath(b, cur, target, prev)
         [] OTHER -> <<"beyond">>

PrefixSum(tree, target, prev) ==
    IF IsNil(Left(tree)) /\ IsNil(Right(tree)) THEN Zero
    ELSE PrefixWalk(tree, tree.sum, target, prev)

-----------------------------------------------------------------------------
(* What the tree has to be *)
RECURSIVE InOrder(_)
InOrder(n) == IF IsNil(n) THEN <<>>
              ELSE IF IsLeaf(n) THEN <<[p |-> n.min, v |-> n.sum]>>
              ELSE InOrder(Left(n)) \o InOrder(Right(n))

RECURSIVE Sound(_)
Sound(n) ==
    \/ IsLeaf(n) /\ Lt(Zero, n.sum)
    \/ /\ IsNode(n)
       /\ ~IsNil(Left(n))                                  \* left-leaning
       /\ LET a == Left(n)  b == Right(n) IN
          /\ Sound(a)
          /\ n.sum = Plus(a.sum, b.sum)
          /\ n.w = MaxOf(a.w, b.w) + 1
          /\ n.w - 1 - (IF a.w < b.w THEN a.w ELSE b.w) <= 1
          /\ IF IsNil(b) THEN n.min = a.min /\ n.max = a.max
             ELSE Sound(b) /\ Le(a.max, b.min) /\ n.min = a.min /\ n.max = b.max

TreeSound(tree) == tree = EmptyTree \/ Sound(tree)
RECURSIVE Height(_)
Height(n) == IF ~IsNode(n) THEN (IF IsNil(n) THEN 0 ELSE 1)
             ELSE MaxOf(Height(Left(n)), Height(Right(n))) + 1
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* an AVL tree of height h has at least 2^((h-1)/2) leaves
Logarithmic(tree) == LET k == Len(InOrder(tree)) IN k = 0 \/ Pow2((Height(tree) - 1) \div 2) <= k
=============================================================================

----------------------------- MODULE TreeFacts ------------------------------
(* Facts about a stored cancel tree, given as a sequence of nodes            *)
(*   [id, leaf, l, r, p, lo, hi, v, w]   (0 = no node)                       *)
EXTENDS Num, Sequences, FiniteSets, FiniteSetsExt, TLC
LOCAL INSTANCE Integers

NodeMap(nodes) == [i \in {nodes[k].id : k \in DOMAIN nodes} |->
                     nodes[CHOOSE k \in DOMAIN nodes : nodes[k].id = i]]

Bad(why) == [why |-> why, leaves |-> <<>>, sum |-> Zero, lo |-> Zero, hi |-> Zero, h |-> 0]
MaxI(a, b) == IF a > b THEN a ELSE b

\* walk the subtree at id; fuel bounds the depth so that cycles end
RECURSIVE Scan(_, _, _, _)
Scan(m, id, parent, fuel) ==
    IF fuel = 0 THEN Bad("too deep")
    ELSE IF id \notin DOMAIN m THEN Bad("dangling child")
    ELSE LET n == m[id] IN
      IF n.p # parent THEN Bad("wrong parent link")
      ELSE IF n.leaf THEN
        IF n.l # 0 \/ n.r # 0 THEN Bad("leaf with children")
        ELSE [why |-> "", leaves |-> <<[p |-> n.lo, v |-> n.v]>>, sum |-> n.v, lo |-> n.lo, hi |-> n.hi, h |-> 1]
      ELSE IF n.l = 0 THEN Bad("inner node without left child")
      ELSE
        LET a == Scan(m, n.l, id, fuel - 1) IN
        IF a.why # "" THEN a
        ELSE LET b == IF n.r = 0 THEN [why |-> "", leaves |-> <<>>, sum |-> Zero, lo |-> a.lo, hi |-> a.hi, h |-> 0]
                      ELSE Scan(m, n.r, id, fuel - 1)
                 h == 1 + MaxI(a.h, b.h)
             IN IF b.why # "" THEN b
                ELSE IF n.r # 0 /\ Lt(b.lo, a.hi) THEN Bad("children out of order")
                ELSE IF n.v # Plus(a.sum, b.sum) THEN Bad("wrong sum")
                ELSE IF n.lo # a.lo \/ n.hi # b.hi THEN Bad("wrong range")
                ELSE IF n.w # h THEN Bad("wrong height")
                ELSE IF a.h - b.h > 1 \/ b.h - a.h > 1 THEN Bad("unbalanced")
                ELSE [why |-> "", leaves |-> a.leaves \o b.leaves, sum |-> n.v, lo |-> a.lo, hi |-> b.hi, h |-> h]

(* "" if the dump is a balanced search tree with exact sums whose leaves are *)
(* exactly the given cancelled intervals in order                            *)
TreeVerdict(d, leaves) ==
    LET m == NodeMap(d.nodes) IN
    IF d.bad # <<>> THEN ToString(d.bad)
    ELSE IF d.root \notin DOMAIN m THEN (IF leaves = <<>> THEN "" ELSE "no root")
    ELSE IF m[d.root].leaf THEN "root is a leaf"
    ELSE IF m[d.root].l = 0 /\ m[d.root].r = 0 THEN (IF leaves = <<>> THEN "" ELSE "empty tree")
    ELSE LET s == Scan(m, d.root, 0, 60) IN
         IF s.why # "" THEN s.why
         ELSE IF s.leaves # leaves THEN "leaves differ from the cancels"
         ELSE ""
=============================================================================

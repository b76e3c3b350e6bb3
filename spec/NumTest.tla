------------------------------ MODULE NumTest ------------------------------
(* Self-test of the arbitrary-precision overrides of Num against native      *)
(* integer arithmetic, and of identities beyond 32 bits.                     *)
EXTENDS Num, Integers, Sequences, TLC
S == {-1000000, -999, -25, -3, -1, 0, 1, 2, 3, 7, 18, 19, 25, 999, 1000, 4095, 40000, 2147483647}
B == {"0", "1", "2", "999999999999999999", "1000000000000000000", "340282366920938463463374607431768211455",
      "115792089237316195423570985008687907853269984665640564039457584007913129639935"}
Small == {i \in S : i >= -40000 /\ i <= 40000}
ASSUME \A i \in S : N(i) = ToString(i)
ASSUME \A i, j \in Small : /\ Plus(N(i), N(j)) = ToString(i + j)
                           /\ Minus(N(i), N(j)) = ToString(i - j)
                           /\ Times(N(i), N(j)) = ToString(i * j)
                           /\ j > 0 => Div(N(i), N(j)) = ToString(i \div j)
                           /\ Lt(N(i), N(j)) = (i < j) /\ Le(N(i), N(j)) = (i <= j)
\* ring and division identities on big values
ASSUME \A a, b \in B : /\ Plus(a, b) = Plus(b, a) /\ Minus(Plus(a, b), b) = a
                       /\ Times(a, b) = Times(b, a)
                       /\ b # "0" => /\ Div(Times(a, b), b) = a
                                     /\ LET q == Div(a, b) r == Minus(a, Times(q, b)) IN Le(Zero, r) /\ Lt(r, b)
                       /\ Le(a, b) = ~Lt(b, a)
ASSUME Times("1000000000000000000", "1000000000000000000") = "1000000000000000000000000000000000000"
ASSUME Plus("340282366920938463463374607431768211455", "1") = "340282366920938463463374607431768211456"
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================

------------------------------ MODULE TickMath ------------------------------
(* The price grid and exact valuation at a tick price.                       *)
(* A price is a rational <<n, d>> = quote units per base unit.               *)
EXTENDS Num
LOCAL INSTANCE Integers

MinTickId == -108000000
MaxTickId == 182402823
TicksPerDecade == 9000000

Scale18 == "1000000000000000000"

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN One ELSE Times(N(10), Pow10(k - 1))
Pow10Tab == [k \in 0..40 |-> Pow10(k)]

(* tick = 9000000 * k + j, 0 <= j < 9000000:  price = 10^k * (1 + j / 10^6)  *)
(* in units of 10^-18:  (10^6 + j) * 10^(12 + k), exact because k >= -12     *)
PriceAtomics(t) ==
    LET k == t \div TicksPerDecade
        j == t % TicksPerDecade
    IN Times(N(1000000 + j), Pow10Tab[12 + k])

GridPrice(t) == <<PriceAtomics(t), Scale18>>
=============================================================================

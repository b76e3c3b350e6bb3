------------------------------ MODULE MC_Grid -------------------------------
(***************************************************************************)
(* The price grid with exact numbers: every decade boundary, the ends of   *)
(* the range and a walk of probes inside each decade.                      *)
(***************************************************************************)
EXTENDS TickMath, Sequences
LOCAL INSTANCE Integers
CONSTANTS Stride
VARIABLE t
E12 == "1000000000000"
Ten(k) == Pow10Tab[18 + k]                  \* 10^k in units of 10^-18
K(x) == x \div TicksPerDecade
StepOf(k) == Pow10Tab[12 + k]               \* 10^(k-6) in units of 10^-18
Init == t = MinTickId
Up(x) == IF x > MaxTickId THEN MaxTickId ELSE x
\* from each probe its neighbours and the next probe (Stride divides a decade)
Next == /\ t < MaxTickId
        /\ t' \in IF t % Stride = 0 THEN {t + 1, Up(t + Stride - 1), Up(t + Stride)} ELSE {Up((t \div Stride + 1) * Stride)}
\* exact, rising by even steps, and at powers of ten where it has to be
Exact == LET k == K(t)  j == t - TicksPerDecade * k IN
    /\ j >= 0 /\ j < TicksPerDecade /\ k >= -12
    /\ PriceAtomics(t) = Plus(Ten(k), Times(N(j), StepOf(k)))
    /\ j = 0 => PriceAtomics(t) = Ten(k)
    /\ t < MaxTickId => /\ Lt(PriceAtomics(t), PriceAtomics(t + 1))
                        /\ Minus(PriceAtomics(t + 1), PriceAtomics(t)) = StepOf(k)
    /\ Lt(Zero, PriceAtomics(t))
Ends == /\ PriceAtomics(MinTickId) = "1000000"
        /\ PriceAtomics(MaxTickId) = "340282300000000000000000000000000000000"
Rises == [][Lt(PriceAtomics(t), PriceAtomics(t'))]_t
Spec == Init /\ [][Next]_t
=============================================================================

-------------------------------- MODULE Num --------------------------------
(* Arithmetic vocabulary of the specification, arbitrary-precision variant.  *)
(* A number is the canonical decimal string of an integer.  The definitions  *)
(* below give the meaning; TLC evaluates them through the Java operator      *)
(* overrides in /verif/java/verif/NumOverrides.java (java.math.BigInteger),  *)
(* which NumTest.tla checks against native arithmetic.                       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

IntOf(s) == CHOOSE i \in Int : ToString(i) = s

N(i) == ToString(i)
Zero == "0"
One == "1"
Plus(a, b) == N(IntOf(a) + IntOf(b))
Minus(a, b) == N(IntOf(a) - IntOf(b))
Times(a, b) == N(IntOf(a) * IntOf(b))
Div(a, b) == N(IntOf(a) \div IntOf(b))     \* floor division, b > 0
Lt(a, b) == IntOf(a) < IntOf(b)
Le(a, b) == IntOf(a) <= IntOf(b)
=============================================================================

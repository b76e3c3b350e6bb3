-------------------------------- MODULE Num --------------------------------
(* Arithmetic vocabulary of the specification, exhaustive-model variant:     *)
(* numbers are TLC's native integers.  The variant in ../num-big implements  *)
(* the same operators on decimal strings of arbitrary length and is used     *)
(* when validating traces of the implementation (128/256-bit amounts).       *)
LOCAL INSTANCE Integers

Zero == 0
One == 1
N(i) == i
Plus(a, b) == a + b
Minus(a, b) == a - b
Times(a, b) == a * b
Div(a, b) == a \div b          \* floor division, b > 0
Lt(a, b) == a < b
Le(a, b) == a <= b
=============================================================================

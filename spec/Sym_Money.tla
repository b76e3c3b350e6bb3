----------------------------- MODULE Sym_Money ------------------------------
(***************************************************************************)
(* Rounding and solvency at one tick with unbounded amounts.               *)
(*                                                                         *)
(* N orders rest on a tick whose exact price is Num/Den: an amount x of    *)
(* the resting token is worth x*Num/Den of the other.  Market orders take  *)
(* volume oldest first and are charged the value of the whole take rounded *)
(* up, once; claims pay the value of the filled part rounded down, each    *)
(* time.  cash is what the tick side has received and not yet paid out.    *)
(* Inductive invariant: cash covers what all claims together would be      *)
(* paid, however fills and claims are cut; and no step lowers the surplus  *)
(* (KeepSurplus).  Deal are the facts a walk over ticks relies on.         *)
(***************************************************************************)
EXTENDS Integers, Apalache

CONSTANTS
    \* @type: Int;
    N,
    \* @type: Int;
    Num,
    \* @type: Int;
    Den

Slots == 1..N

VARIABLES
    \* @type: Int -> Int;
    qty,        \* unclaimed size, 0 for an empty slot; slots in order of age
    \* @type: Int -> Int;
    fil,        \* filled, unclaimed
    \* @type: Int;
    cash,
    \* @type: Int;
    offer,      \* an arbitrary input of a market order
    \* @type: Int;
    part,       \* an arbitrary first piece of it
    \* @type: Int;
    surplus0    \* surplus before the last step

vars == <<qty, fil, cash, offer, part, surplus0>>

ValDn(x) == (x * Num) \div Den
ValUp(x) == (x * Num + Den - 1) \div Den
Buys(y) == (y * Den) \div Num           \* resting volume an input buys
MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a <= b THEN b ELSE a
Clamp(a, hi) == MaxI(0, MinI(a, hi))
SumBelow(i, F(_)) == LET Add(a, j) == IF j < i THEN a + F(j) ELSE a IN ApaFoldSet(Add, 0, Slots)
SumAll(F(_)) == LET Add(a, j) == a + F(j) IN ApaFoldSet(Add, 0, Slots)
Free(j) == qty[j] - fil[j]
Resting == SumAll(Free)
Owed == LET F(j) == ValDn(fil[j]) IN SumAll(F)

Init == /\ qty = [i \in Slots |-> 0] /\ fil = [i \in Slots |-> 0]
        /\ cash = 0 /\ surplus0 = 0 /\ offer = 0 /\ part = 0

\* an order joins behind everything in the queue
Place == \E v \in Int : \E i \in Slots :
    /\ v > 0 /\ \A j \in Slots : j >= i => qty[j] = 0
    /\ qty' = [qty EXCEPT ![i] = v]
    /\ UNCHANGED <<fil, cash>>

\* cancelled orders and completely claimed ones leave; the slots behind move up
Leave == \E i \in Slots :
    /\ qty[i] > 0 /\ fil[i] = 0
    /\ qty' = [j \in Slots |-> IF j < i THEN qty[j] ELSE IF j = N THEN 0 ELSE qty[j + 1]]
    /\ fil' = [j \in Slots |-> IF j < i THEN fil[j] ELSE IF j = N THEN 0 ELSE fil[j + 1]]
    /\ UNCHANGED cash

Swap == \E v \in Int :
    /\ v = MinI(Buys(offer), Resting) /\ v > 0
    /\ fil' = [i \in Slots |-> fil[i] + Clamp(v - SumBelow(i, Free), Free(i))]
    /\ cash' = cash + ValUp(v)
    /\ UNCHANGED qty

Claim == \E i \in Slots :
    /\ fil[i] > 0
    /\ cash' = cash - ValDn(fil[i])
    /\ qty' = [qty EXCEPT ![i] = @ - fil[i]]
    /\ fil' = [fil EXCEPT ![i] = 0]

\* a completely claimed order keeps its slot, empty, until it is closed up
Gap == \E i \in Slots :
    /\ i < N /\ qty[i] = 0
    /\ qty' = [j \in Slots |-> IF j < i THEN qty[j] ELSE IF j = N THEN 0 ELSE qty[j + 1]]
    /\ fil' = [j \in Slots |-> IF j < i THEN fil[j] ELSE IF j = N THEN 0 ELSE fil[j + 1]]
    /\ UNCHANGED cash

Next == /\ offer' \in Int /\ offer' >= 0
        /\ part' \in Int /\ part' >= 0 /\ part' <= offer'
        /\ surplus0' = cash - Owed
        /\ (Place \/ Leave \/ Swap \/ Claim \/ Gap)

-----------------------------------------------------------------------------
Queue == /\ \A i \in Slots : fil[i] >= 0 /\ fil[i] <= qty[i]
         \* oldest first
         /\ \A i, j \in Slots : (i < j /\ fil[j] > 0) => fil[i] = qty[i]
Solvent == Owed <= cash
KeepSurplus == surplus0 <= cash - Owed
IndInv == Queue /\ Solvent /\ KeepSurplus /\ offer >= part /\ part >= 0

\* a market order's charge never exceeds its input, and when the tick is not
\* emptied what is left of the input buys nothing more here
Deal == LET v == MinI(Buys(offer), Resting) IN
    /\ ValUp(v) <= offer
    /\ v < Resting => Buys(offer - ValUp(v)) = 0
    /\ Buys(ValUp(v)) >= v               \* charged at least what was taken
    /\ v > 0 => ValUp(v) > 0

\* in two pieces a market order gets no more here, and if the pieces empty the
\* tick, no more is left of the input for the ticks behind
NoGain == LET v == MinI(Buys(offer), Resting)
              v1 == MinI(Buys(part), Resting)
              v2 == MinI(Buys(offer - part), Resting - v1)
          IN /\ v1 + v2 <= v
             /\ ValUp(v1 + v2) <= ValUp(v1) + ValUp(v2)

IndInit == /\ qty \in [Slots -> Int] /\ fil \in [Slots -> Int]
           /\ cash \in Int /\ offer \in Int /\ part \in Int /\ surplus0 \in Int
           /\ IndInv
=============================================================================

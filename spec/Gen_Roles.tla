----------------------------- MODULE Gen_Roles -----------------------------
(***************************************************************************)
(* Behaviours for the implementation, taken from the model of the roles:   *)
(* for every configuration message, every standing of its sender and of    *)
(* the address it names, and every state of the offers and the switch, a   *)
(* shortest schedule that gets there - refused messages included - and     *)
(* trading messages in each of those states.  Run with one worker.         *)
(***************************************************************************)
EXTENDS MC_Roles, Json
LOCAL INSTANCE Integers

VARIABLE hist
View == s

Tradings == {IF op.k = "place" THEN [op EXCEPT !.funds = <<[d |-> "q", a |-> 1]>>] ELSE op : op \in Trades}
Funded == {[op EXCEPT !.funds = <<[d |-> "q", a |-> 1]>>] : op \in {op \in AuthOps : Uses(op) /\ op.sender = s.admin /\ op.addr \in {"a", "x"}}}

Standing(bk, p) == <<p = bk.admin, p = bk.mod, p = bk.aoff, p = bk.moff>>
Relevant(bk) == <<bk.admin = Nobody, bk.mod = Nobody, bk.aoff = Nobody, bk.moff = Nobody, bk.active>>
Goal(bk, op, r) ==
    IF op.k \in {"auth", "sudo"}
    THEN <<op.k, op.act, op.funds, r.ok, Standing(bk, op.sender), op.addr = "?", Standing(bk, op.addr), op.addr = op.sender,
           op.fee, op.flag, Relevant(bk)>>
    ELSE <<op.k, r.ok, r.why, bk.active, bk.fee, bk.recip, bk.admin = Nobody, bk.mod = Nobody>>

InitGen == Init /\ hist = <<>> /\ TLCSet(1, {})
DoGen(op) == LET r == Step(s, op) IN
    /\ s' = (IF op.k \in {"auth", "sudo"} THEN [r.st EXCEPT !.bal = s.bal] ELSE s)   \* neither trading nor donations lead anywhere new
    /\ UNCHANGED <<lastA, lastM>> /\ hist' = Append(hist, op)
    /\ LET g == Goal(s, op, r) IN
       IF g \in TLCGet(1) THEN TRUE
       ELSE TLCSet(1, TLCGet(1) \cup {g}) /\ PrintT("GEN|" \o ToJson(hist'))
NextGen == \E op \in Ops \cup Tradings \cup Funded : DoGen(op)
SpecGen == InitGen /\ [][NextGen]_<<vars, hist>>
=============================================================================

------------------------------ MODULE MC_Roles ------------------------------
(***************************************************************************)
(* Roles, fee, recipient and switch for every schedule of configuration    *)
(* messages from everybody and from the chain, with one order resting.     *)
(* Properties judges every step; History adds what only a history shows:   *)
(* a role is only ever taken over by who was offered it last.              *)
(***************************************************************************)
EXTENDS Properties
LOCAL INSTANCE Integers

CONSTANTS People, FeeRates
VARIABLES s, lastA, lastM     \* last effective offer made for each role
vars == <<s, lastA, lastM>>

Order0 == [tick |-> 0, dir |-> "bid", owner |-> "u", qty |-> 4, fil |-> 2, pos |-> 0, bounty |-> NoBounty, placed |-> 4, at |-> 0]
Book0 == [quote |-> "q", base |-> "b", nb |-> 0, na |-> MaxTick, oid |-> 1,
          ord |-> [i \in {0} |-> Order0],
          tk |-> [t \in {0} |-> [ask |-> EmptySide, bid |-> [tal |-> 2, ctt |-> 4, swp |-> 2, can |-> {}]]],
          liq |-> [ask |-> 0, bid |-> 2], bal |-> [x \in {"q", "b"} |-> 2],
          active |-> TRUE, fee |-> 0, recip |-> "r", admin |-> "a", aoff |-> Nobody, mod |-> "m", moff |-> Nobody]

Acts == {"transfer_admin", "cancel_transfer", "reject_admin", "claim_admin", "renounce",
         "offer_mod", "reject_mod", "claim_mod", "set_active", "set_fee", "set_recip"}
M(k, who) == [k |-> k, sender |-> who, funds |-> <<>>, blk |-> {}]
AuthOps == {M("auth", w) @@ [act |-> a, addr |-> x, fee |-> f, flag |-> b] :
              w \in People, a \in Acts, x \in People \cup {"?"}, f \in FeeRates, b \in BOOLEAN}
Uses(op) == /\ (op.act \notin {"transfer_admin", "offer_mod", "set_recip"} => op.addr = "a")
            /\ (op.act = "set_recip" => op.addr \in {"x", "?"})
            /\ (op.act # "set_fee" => op.fee = CHOOSE f \in FeeRates : TRUE)
            /\ (op.act # "set_active" => op.flag)
SudoOps == {M("sudo", "chain") @@ [act |-> a, addr |-> x, fee |-> 0, flag |-> b] :
              a \in {"transfer_admin", "remove_admin", "set_active", "swap_out"}, x \in People \cup {"?"}, b \in BOOLEAN}
Trades == {M("place", "u") @@ [tick |-> 0, dir |-> "bid", qty |-> 1, bounty |-> NoBounty, now |-> 0],
           M("cancel", "u") @@ [tick |-> 0, id |-> 0], M("claim", "u") @@ [tick |-> 0, id |-> 0],
           M("batch", "u") @@ [items |-> << <<0, 0>> >>],
           M("swap", "u") @@ [din |-> "b", dout |-> "q", amt |-> 1, min |-> 0, fee |-> 0, target |-> "none", bound |-> 0]}
Ops == {op \in AuthOps : Uses(op)} \cup SudoOps

Init == s = Book0 /\ lastA = Nobody /\ lastM = Nobody
Do(op) == LET r == Step(s, op)  v == Violated(s, op, r) IN
    /\ Assert(v = {}, <<"violated", v, op, r>>)
    /\ r.ok /\ s' = r.st
    /\ lastA' = IF op.k = "auth" /\ op.act = "transfer_admin" THEN op.addr ELSE lastA
    /\ lastM' = IF op.k = "auth" /\ op.act = "offer_mod" THEN op.addr ELSE lastM
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

\* trading is possible exactly while active, and is what it was before any pause
TradeInv == \A op \in Trades :
    LET o2 == IF op.k = "place" THEN [op EXCEPT !.funds = <<[d |-> "q", a |-> 1]>>] ELSE op
        r == Core(s, o2)  r0 == Core([s EXCEPT !.active = TRUE], o2)
    IN IF s.active THEN r = r0 ELSE ~r.ok /\ r.why = "inactive"
History == /\ s.aoff \in {Nobody, lastA} /\ s.moff \in {Nobody, lastM}
           /\ s.ord = Book0.ord /\ s.tk = Book0.tk /\ s.bal = Book0.bal
           /\ s.admin # "?" /\ s.mod # "?" /\ s.recip # "?" /\ Le(s.fee, MaxFee)
\* a change of holder follows an offer to exactly that address
Handover == [][/\ (s'.mod # s.mod => s'.mod = lastM /\ s.moff = lastM)
               /\ (s'.admin # s.admin => s'.admin = Nobody \/ (s.aoff = s'.admin /\ lastA = s'.admin)
                                         \/ \E x \in People : Step(s, M("sudo", "chain") @@
                                               [act |-> "transfer_admin", addr |-> x, fee |-> 0, flag |-> TRUE]).st = s')]_vars
Valid(a) == a # "?"
P3 == {"a", "m", "x"}
P4 == {"a", "m", "x", "y"}
Lo == -1
Flat(t) == <<1, 1>>
NoRate == -1
=============================================================================

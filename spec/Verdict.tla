------------------------------ MODULE Verdict -------------------------------
(* Which properties a difference between specification and implementation    *)
(* breaks: by message, facet, and (for messages accepted against the         *)
(* specification) the reason the specification rejects them.                 *)
EXTENDS Orderbook
LOCAL INSTANCE Integers

Trading == {"place", "cancel", "claim", "batch", "swap"}

\* the property that states what the message does
Home(op) ==
    CASE op.k = "place" -> {"C10"}
      [] op.k = "cancel" -> {"C08"}
      [] op.k = "claim" -> {"C06"}
      [] op.k = "batch" -> {"C09"}
      [] op.k = "swap" -> {"C05"}
      [] op.k \in {"create", "migrate"} -> {"C21"}
      [] op.k \in {"auth", "sudo"} -> IF op.act = "set_active" THEN {"C15"}
                                      ELSE IF op.act = "swap_out" THEN {"C05"} ELSE {"C14"}
      [] OTHER -> {"C20"}

\* accepted although the specification rejects it
Over(op, why) ==
    CASE why = "inactive" -> {"C15"}
      [] why = "payment" -> {"C16"}
      [] why = "tick" -> Home(op) \cup {"C17"}
      [] why = "bounty" -> Home(op) \cup {"C07"}
      [] why = "liquidity" -> Home(op) \cup {"C03"}
      [] why = "side" -> Home(op) \cup {"C03"}
      [] why = "fee" /\ op.k = "auth" -> Home(op) \cup {"C07"}
      [] OTHER -> Home(op)

\* rejected although the specification accepts it
HasBounty(s, i) == i \in DOMAIN s.ord /\ s.ord[i].bounty # NoBounty
Under(op, s, f) ==
    Home(op)
    \cup (IF f = "acc-.arith" /\ op.k \in {"claim", "swap"} THEN {"C04"} ELSE {})
    \cup (IF op.k = "place" /\ op.bounty # NoBounty THEN {"C07"} ELSE {})
    \cup (IF op.k = "place" THEN {"C17"} ELSE {})
    \cup (IF op.k = "swap" THEN {"C03", "C04"} ELSE {})
    \cup (IF op.k = "claim" THEN {"C22"} ELSE {})          \* claimable, yet refused
    \cup (IF op.k = "claim" /\ (~IsZero(s.fee) \/ HasBounty(s, op.id)) THEN {"C07"} ELSE {})
    \cup (IF ~s.active THEN {"C15"} ELSE {})
    \cup (IF op.k \in Trading /\ op.blk # {} THEN {"C16"} ELSE {})
    \cup (IF op.k = "auth" /\ op.act = "set_fee" THEN {"C07"} ELSE {})

\* payments: pay.missing is one that is owed and not made at all
Paid(op, f) ==
    (CASE op.k = "claim" -> {"C06", "C07"} \cup (IF f = "pay.amount" THEN {"C04"} ELSE {})
       [] op.k = "batch" -> {"C09", "C06", "C07"} \cup (IF f = "pay.amount" THEN {"C04"} ELSE {})
       [] op.k = "swap" -> {"C05", "C04"}
       [] OTHER -> Home(op))
    \cup (IF f = "pay.missing" THEN {"C16"} ELSE {})

\* a difference in the state after the message.  Whoever makes it: an order whose
\* filled part, size or existence is wrong is next claimed and cancelled wrongly
StateFacet(op, f) ==
    CASE f \in {"own.gone", "own.extra", "own.qty", "own.pos", "own.meta"} ->
             Home(op) \cup (IF op.k = "batch" THEN {"C06"} ELSE {})
                      \cup (IF op.k \in {"claim", "batch"} /\ f = "own.pos" THEN {"C02"} ELSE {})
      [] f \in {"own.bounty", "hit.bounty", "oth.bounty"} -> Home(op) \cup {"C07", "C20"}
      [] f = "own.fil" -> Home(op) \cup {"C02", "C06", "C08"}
      [] f = "hit.fil" -> {"C02", "C06", "C08"}
      [] f = "hit.pos" -> {"C02", "C06"}
      [] f \in {"hit.gone", "hit.extra", "hit.qty"} -> {"C06", "C08", "C20"}
      [] f = "hit.meta" -> {"C06", "C20"}
      [] f = "oth.fil" -> {"C20", "C02", "C06", "C08"}
      [] f = "oth.pos" -> {"C20", "C02"}
      [] f \in {"oth.gone", "oth.extra", "oth.qty"} -> {"C20", "C06", "C08"}
      [] f = "oth.meta" -> {"C20"}
      [] f \in {"tick.tal", "tick.ctt", "tick.swp", "liq"} ->
             {"C11"} \cup (IF op.k \in {"place", "cancel", "swap"} THEN Home(op) ELSE {})
                     \cup (IF op.k = "swap" THEN {"C03", "C04"} ELSE {})
      [] f \in {"otick.tal", "otick.ctt", "otick.swp", "tickset"} -> {"C11", "C20"}
      [] f = "ptr" -> {"C11", "C12", "C03"} \cup (IF op.k = "place" THEN {"C10"} ELSE {})
      [] f = "oid" -> {"C10"}
      [] f = "active" -> {"C15"}
      [] f \in {"fee", "recip"} -> {"C14", "C07"}
      [] f \in {"admin", "mod"} -> {"C14"}
      [] f = "denoms" -> {"C21"}
      [] f = "bal" -> {"C01"} \cup Home(op)
      [] OTHER -> {}

\* what a configuration message is meant to change
Settings(op) ==
    CASE op.k \notin {"auth", "sudo"} -> {}
      [] op.act = "set_active" -> {"active"}
      [] op.act = "set_fee" -> {"fee"}
      [] op.act = "set_recip" -> {"recip"}
      [] op.act \in {"offer_mod", "reject_mod", "claim_mod"} -> {"mod"}
      [] op.act \in {"transfer_admin", "cancel_transfer", "reject_admin", "claim_admin", "renounce", "remove_admin"} -> {"admin"}
      [] OTHER -> {}

\* in messages that are not meant to change that kind of state
Beyond(op, f) ==
    (IF op.k \notin Trading /\ op.k # "create" /\ f \notin Settings(op) THEN {"C20"} ELSE {})
    \cup (IF op.k \in Trading /\ f \in {"active", "fee", "recip", "admin", "mod", "denoms"} THEN {"C20"} ELSE {})
    \cup (IF op.k \in {"migrate", "create"} THEN {"C21"} ELSE {})
    \cup (IF op.k \in {"auth", "sudo"} /\ op.act = "set_active" THEN {"C15"} ELSE {})    \* pausing keeps everything
    \cup (IF op.k = "batch" THEN {"C09"} ELSE {})

\* messages by which owners leave the book (profile "exit"), and an owner's own claim or
\* cancel that is refused: somebody's money is stuck
Stuck == {"acc-", "acc-.arith", "pay.amount", "pay.missing", "bal", "own.gone", "own.extra", "own.qty", "own.fil",
          "hit.gone", "hit.extra", "hit.qty", "hit.fil", "oth.gone", "oth.extra", "oth.qty", "oth.fil",
          "tick.tal", "liq", "inv.tal", "inv.liq", "bad.claim"}
Leaving(op, f, s) ==
    IF \/ "exit" \in DOMAIN op /\ f \in Stuck
       \/ /\ op.k \in {"claim", "cancel"} /\ f \in {"acc-", "acc-.arith"} /\ op.blk = {}
          /\ op.id \in DOMAIN s.ord /\ s.ord[op.id].owner = op.sender
    THEN {"C23"} ELSE {}

\* messages to a book that was written by the code as released
Kept(op) == IF "kept" \in DOMAIN op THEN {"C21"} ELSE {}

Props(op, f, why, ok, s) ==
    Kept(op) \cup Leaving(op, f, s) \cup
    CASE f = "acc+" -> Over(op, why)
      [] f \in {"acc-", "acc-.arith"} -> Under(op, s, f)
      [] f = "q.paused" -> {"C15"}
      [] f \in {"pay.amount", "pay.split", "pay.missing"} -> Paid(op, f)
      [] f \in {"prio.skipped", "prio.beyond", "prio.ownside"} -> {"C03"}
      [] f = "prio.partial" -> {"C03", "C05"}
      [] f \in {"charge.under", "charge.over"} -> {"C04", "C05"}
      [] f \in {"pub.cl", "pub.hp", "q.unreal"} -> {"C22"}
      [] f \in {"at", "ev", "data"} -> {"C19"}
      [] f = "batch.state" -> {"C09"}
      [] f = "batch.ev" -> {"C09", "C19"}
      [] f \in {"quote", "q.calc_out", "q.calc_in", "q.spot", "q.swap_fee"} -> {"C12"}
      [] f = "q.exec" -> {"C03", "C04", "C05"}
      [] f \in {"q.liq", "q.state", "inv.tal", "inv.liq", "inv.ptr"} -> {"C11"}
      [] f = "q.active" -> {"C15"}
      [] f = "q.auth" -> {"C14"}
      [] f = "q.fee" -> {"C07", "C14"}
      [] f = "q.denoms" -> {"C21"}
      [] f = "q.price" -> {"C17"}
      [] f \in {"q.all_ticks", "q.ticks_by_id", "q.by_owner", "q.by_tick", "q.order"} -> {"C13"}
      [] f = "split" -> {"C24"}
      [] f = "inv.fifo" -> {"C02"}
      [] f \in {"inv.solvent", "inv.surplus"} -> {"C01"}
      [] f \in {"cost", "cost.growth", "tree"} -> {"C18"}
      [] f = "bad.claim" -> {"C02", "C04", "C06", "C22"}      \* a claim that breaks down
      [] f = "bad.unreal" -> {"C22"}
      [] f \in {"bad.record", "bad.fraction"} -> {"C10", "C11", "C20"}
      [] f = "trace" -> {"C16", "C20"}
      [] OTHER -> StateFacet(op, f) \cup Beyond(op, f) \cup (IF ok THEN {} ELSE {"C16", "C20"})
=============================================================================

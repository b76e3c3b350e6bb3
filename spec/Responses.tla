----------------------------- MODULE Responses ------------------------------
(* What an accepted message reports: attributes, claim events, return data.  *)
EXTENDS Orderbook
LOCAL INSTANCE Integers

Bool(b) == IF b THEN "true" ELSE "false"

\* s: state before the message, r: its result
ClaimEvent(s, sender, c) ==
    << <<"sender", sender>>, <<"tick_id", ToString(c.o.tick)>>, <<"order_id", ToString(c.id)>>,
       <<"quantity_remaining", c.left>>, <<"owner", c.o.owner>>, <<"order_direction", c.o.dir>>,
       <<"amount_claimed", c.net>>, <<"placed_quantity", c.o.placed>>,
       <<"fully_claimed", Bool(IsZero(c.left))>>,
       <<"order_denom", RestDenom(s, c.o.dir)>>, <<"output_denom", EarnDenom(s, c.o.dir)>> >>

Method(op) ==
    CASE op.k = "place" -> "placeLimit"
      [] op.k = "cancel" -> "cancelLimit"
      [] op.k = "claim" -> "claimLimit"
      [] op.k = "batch" -> "batchClaimLimit"
      [] op.k = "swap" -> "swapExactAmountIn"
      [] op.k = "create" -> "instantiate"
      [] op.k = "sudo" -> (CASE op.act = "transfer_admin" -> "sudo_transfer_admin"
                             [] op.act = "remove_admin" -> "sudo_remove_admin"
                             [] op.act = "set_active" -> "set_active"
                             [] OTHER -> "")
      [] op.k = "auth" -> (CASE op.act = "transfer_admin" -> "transfer_admin"
                             [] op.act = "cancel_transfer" -> "cancel_transfer_admin"
                             [] op.act = "reject_admin" -> "reject_admin_transfer"
                             [] op.act = "claim_admin" -> "claim_admin"
                             [] op.act = "renounce" -> "renounce_adminship"
                             [] op.act = "offer_mod" -> "offer_moderator"
                             [] op.act = "reject_mod" -> "reject_moderator_offer"
                             [] op.act = "claim_mod" -> "claim_moderator"
                             [] op.act = "set_active" -> "set_active"
                             [] op.act = "set_fee" -> "set_maker_fee"
                             [] op.act = "set_recip" -> "set_maker_fee_recipient"
                             [] OTHER -> "")
      [] OTHER -> ""

Details(s, op, r) ==
    CASE op.k = "place" ->
           << <<"owner", op.sender>>, <<"tick_id", ToString(op.tick)>>, <<"order_id", ToString(r.info.id)>>,
              <<"order_direction", op.dir>>, <<"quantity", op.qty>>,
              <<"order_denom", RestDenom(s, op.dir)>>, <<"output_denom", EarnDenom(s, op.dir)>> >>
      [] op.k = "cancel" ->
           << <<"owner", op.sender>>, <<"tick_id", ToString(op.tick)>>, <<"order_id", ToString(op.id)>>,
              <<"order_direction", r.info.o.dir>>, <<"quantity", r.info.o.qty>>,
              <<"initial_quantity", r.info.o.placed>>,
              <<"order_denom", RestDenom(s, r.info.o.dir)>>, <<"output_denom", EarnDenom(s, r.info.o.dir)>> >>
      [] op.k = "batch" -> << <<"sender", op.sender>> >>
      [] op.k = "swap" ->
           << <<"sender", op.sender>>, <<"token_in", op.amt \o op.din>>, <<"token_out_denom", op.dout>>,
              <<"token_out_min_amount", op.min>>, <<"output_quantity", r.info.out>> >>
      [] op.k = "create" -> << <<"quote_denom", op.quote>>, <<"base_denom", op.base>> >>
      [] op.k = "sudo" -> (CASE op.act = "transfer_admin" -> << <<"new_admin", op.addr>> >>
                             [] op.act = "set_active" -> << <<"active", Bool(op.flag)>> >>
                             [] OTHER -> <<>>)
      [] op.k = "auth" -> (CASE op.act = "transfer_admin" -> << <<"new_admin", op.addr>> >>
                             [] op.act = "offer_mod" -> << <<"new_moderator", op.addr>> >>
                             [] op.act = "set_active" -> << <<"active", Bool(op.flag)>> >>
                             [] op.act = "set_fee" -> << <<"maker_fee", op.fee>> >>
                             [] op.act = "set_recip" -> << <<"maker_fee_recipient", op.addr>> >>
                             [] OTHER -> <<>>)
      [] OTHER -> <<>>

Attrs(s, op, r) == (IF Method(op) = "" THEN <<>> ELSE << <<"method", Method(op)>> >>) \o Details(s, op, r)

Events(s, op, r) == IF op.k \in {"claim", "batch"}
                    THEN [i \in 1..Len(r.info) |-> ClaimEvent(s, op.sender, r.info[i])]
                    ELSE <<>>

Data(op, r) == IF op.k = "swap" THEN r.info.out ELSE ""

\* every expected pair is reported, and its key with no other value
Reports(obs, exp) ==
    \A i \in DOMAIN exp :
        LET vals == {obs[j][2] : j \in {j \in DOMAIN obs : obs[j][1] = exp[i][1]}}
        IN vals = {exp[i][2]}
=============================================================================

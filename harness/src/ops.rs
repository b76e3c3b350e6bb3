//! Executes one operation (JSON) on the chain; runs queries (JSON).  Messages and answers
//! go through their wire format, the way the chain and its clients see them.
use crate::chain::{Chain, Msg, TxOut};
use crate::obs::tick_int;
use cosmwasm_std::{Decimal, Decimal256, Uint128, Uint256};
use serde_json::{json, Value};
use std::str::FromStr;

fn s(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or("").to_string()
}
pub fn u(v: &Value, k: &str) -> u128 {
    s(v, k).parse().unwrap_or(0)
}
/// 64-bit ids: "<k>x" overrides the 32-bit rendering in "<k>"
fn tick_of(v: &Value, k: &str) -> i64 {
    match v.get(format!("{k}x")) {
        Some(x) => x.as_str().unwrap().parse().unwrap(),
        None => v[k].as_i64().unwrap(),
    }
}
pub fn tick_arg(v: &Value) -> i64 {
    tick_of(v, "tick")
}
fn id_of(v: &Value, k: &str) -> u64 {
    match v.get(format!("{k}x")) {
        Some(x) => x.as_str().unwrap().parse().unwrap(),
        None => v[k].as_u64().unwrap(),
    }
}
fn dec256(atomics: &str) -> Decimal256 {
    Decimal256::new(Uint256::from_str(atomics).unwrap())
}
fn dec128(atomics: &str) -> Decimal {
    Decimal::new(Uint128::from_str(atomics).unwrap())
}
fn funds_of(op: &Value) -> Vec<(String, u128)> {
    op["funds"]
        .as_array()
        .map(|a| a.iter().map(|c| (s(c, "d"), u(c, "a"))).collect())
        .unwrap_or_default()
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

pub fn run(ch: &mut Chain, op: &Value) -> TxOut {
    run_mode(ch, op, true)
}
/// what the message would do, without doing it
pub fn dry(ch: &Chain, op: &Value) -> TxOut {
    run_mode(&mut ch.clone(), op, false)
}
fn run_mode(ch: &mut Chain, op: &Value, commit: bool) -> TxOut {
    let blk = strs(&op["blk"]);
    let sender = s(op, "sender");
    if let Some(n) = op["now"].as_str() {
        ch.now = n.parse().unwrap();
    }
    let mut funds = funds_of(op);
    let msg = match op["k"].as_str().unwrap() {
        "create" => {
            ch.supplies = vec![];
            if op["qsupply"].as_bool().unwrap() {
                ch.supplies.push((s(op, "quote"), 1000));
            }
            if op["bsupply"].as_bool().unwrap() {
                ch.supplies.push((s(op, "base"), 1));
            }
            Msg::Instantiate(json!({"base_denom": s(op, "base"), "quote_denom": s(op, "quote")}))
        }
        "place" => Msg::Execute(json!({"place_limit": {
            "tick_id": tick_of(op, "tick"),
            "order_direction": s(op, "dir"),
            "quantity": u(op, "qty").to_string(),
            "claim_bounty": match op["bounty"].as_str().unwrap() {
                "none" => Value::Null,
                a => json!(dec256(a).to_string()),
            },
        }})),
        "cancel" => Msg::Execute(json!({"cancel_limit": {"tick_id": tick_of(op, "tick"), "order_id": ch.id_out(id_of(op, "id"))}})),
        "claim" => Msg::Execute(json!({"claim_limit": {"tick_id": tick_of(op, "tick"), "order_id": ch.id_out(id_of(op, "id"))}})),
        "batch" => Msg::Execute(json!({"batch_claim": {"orders":
            op["items"].as_array().unwrap().iter().map(|x| json!([x[0], ch.id_out(x[1].as_u64().unwrap())])).collect::<Vec<_>>()}})),
        "auth" => {
            let a = s(op, "addr");
            Msg::Execute(json!({"auth": match op["act"].as_str().unwrap() {
                "transfer_admin" => json!({"transfer_admin": {"new_admin": a}}),
                "cancel_transfer" => json!({"cancel_admin_transfer": {}}),
                "reject_admin" => json!({"reject_admin_transfer": {}}),
                "claim_admin" => json!({"claim_admin": {}}),
                "renounce" => json!({"renounce_adminship": {}}),
                "offer_mod" => json!({"offer_moderator": {"new_moderator": a}}),
                "reject_mod" => json!({"reject_moderator_offer": {}}),
                "claim_mod" => json!({"claim_moderator": {}}),
                "set_active" => json!({"set_active": {"active": op["flag"]}}),
                "set_fee" => json!({"set_maker_fee": {"fee": dec256(&s(op, "fee")).to_string()}}),
                "set_recip" => json!({"set_maker_fee_recipient": {"recipient": a}}),
                x => panic!("auth act {x}"),
            }}))
        }
        "swap" => {
            // the pool module moves the offered tokens in first
            funds = vec![(s(op, "din"), u(op, "amt"))];
            let mut m = json!({
                "sender": sender,
                "token_in": {"denom": s(op, "din"), "amount": u(op, "amt").to_string()},
                "token_out_denom": s(op, "dout"),
                "token_out_min_amount": u(op, "min").to_string(),
                "swap_fee": dec128(&s(op, "fee")).to_string(),
            });
            if op["target"] == "none" {
                Msg::Sudo(json!({"swap_exact_amount_in": m}))
            } else {
                m["target_tick"] = json!(tick_of(op, "bound"));
                Msg::Sudo(json!({"swap_to_tick": m}))
            }
        }
        "sudo" => {
            let a = s(op, "addr");
            Msg::Sudo(match op["act"].as_str().unwrap() {
                "transfer_admin" => json!({"transfer_admin": {"new_admin": a}}),
                "remove_admin" => json!({"remove_admin": {}}),
                "set_active" => json!({"set_active": {"active": op["flag"]}}),
                "swap_out" => json!({"swap_exact_amount_out": {"sender": sender, "token_in_denom": "quote",
                    "token_in_max_amount": "1000", "token_out": {"denom": "base", "amount": "1"}, "swap_fee": "0"}}),
                x => panic!("sudo act {x}"),
            })
        }
        "migrate" => {
            if let Some(name) = op["store"].as_str() {
                ch.store.m = crate::legacy::stored(name);
            }
            Msg::Migrate
        }
        "donate" => Msg::None,
        k => panic!("op {k}"),
    };
    let is_swap = op["k"] == "swap";
    let mut out = ch.tx_mode(&sender, &funds, msg, &blk, commit);
    if ch.id0 > 0 {
        let ids = out.attrs.iter_mut().chain(out.events.iter_mut().flat_map(|e| e.1.iter_mut()));
        for a in ids.filter(|a| a.0 == "order_id") {
            if let Ok(i) = a.1.parse::<u64>() {
                a.1 = ch.id_in(i).to_string();
            }
        }
    }
    if op["k"] == "create" && out.ok && commit {
        if let Some(i) = op["ids"].as_str() {
            ch.age(i.parse().unwrap());
        }
    }
    if op["act"] == "set_fee" {
        // rates are recorded in units of 10^-18
        for a in out.attrs.iter_mut().filter(|a| a.0 == "maker_fee") {
            if let Ok(d) = Decimal256::from_str(&a.1) {
                a.1 = d.atomics().to_string();
            }
        }
    }
    if is_swap && out.ok {
        // return data as plain text
        let d: Option<Value> = out.data.as_ref().and_then(|b| serde_json::from_slice(b.as_slice()).ok());
        out.data = d.map(|d| cosmwasm_std::Binary::from(d["token_out_amount"].as_str().unwrap_or("?").as_bytes()));
    }
    out
}

/// atomics of a decimal in a response
fn atomics(v: &Value) -> String {
    v.as_str().and_then(|x| Decimal256::from_str(x).ok()).map_or("?".into(), |d| d.atomics().to_string())
}
fn dec(v: &Value) -> Decimal256 {
    v.as_str().and_then(|x| Decimal256::from_str(x).ok()).unwrap_or(Decimal256::MAX)
}
fn tick_id(v: &Value) -> i64 {
    tick_int(v["tick_id"].as_i64().unwrap_or(i64::MIN))
}
fn rows(v: &Value, k: &str, f: impl Fn(&Value) -> Value) -> Value {
    v[k].as_array().map_or(json!("?"), |a| json!(a.iter().map(f).collect::<Vec<_>>()))
}
fn order_row(ch: &Chain, o: &Value) -> Value {
    json!([tick_id(o), ch.id_in(o["order_id"].as_u64().unwrap_or(u64::MAX)), o["order_direction"], o["owner"], o["quantity"], atomics(&o["etas"]),
        if o["claim_bounty"].is_null() { "none".into() } else { atomics(&o["claim_bounty"]) },
        o["placed_quantity"], o["placed_at"]])
}
fn d0(d: Decimal256) -> String {
    let e18 = Uint256::from_u128(1_000_000_000_000_000_000);
    if (d.atomics() % e18).is_zero() {
        (d.atomics() / e18).to_string()
    } else {
        "-77".into()
    }
}
fn dsub(a: Decimal256, b: Decimal256) -> String {
    if a >= b {
        d0(a - b)
    } else {
        format!("-{}", d0(b - a))
    }
}
fn tick_row(t: &Value) -> Value {
    let f = |v: &Value| {
        json!([d0(dec(&v["total_amount_of_liquidity"])), d0(dec(&v["cumulative_total_value"])),
               dsub(dec(&v["effective_total_amount_swapped"]), dec(&v["cumulative_realized_cancels"]))])
    };
    json!([tick_id(t), f(&t["tick_state"]["ask_values"]), f(&t["tick_state"]["bid_values"])])
}
/// page limits: "huge" is more than anything listed
fn lim(v: &Value) -> Value {
    if v.as_str() == Some("huge") {
        return json!(4_294_967_295u64);
    }
    opt(v)
}
/// "none" stands for an absent value
fn opt(v: &Value) -> Value {
    if v.as_str() == Some("none") {
        Value::Null
    } else {
        v.clone()
    }
}

/// an order as the bound of a listing
fn bound(ch: &Chain, v: &Value) -> Value {
    match (v.as_array(), v.as_u64()) {
        (Some(k), _) => json!([k[0], ch.id_out(k[1].as_u64().unwrap())]),
        (_, Some(i)) => json!(ch.id_out(i)),
        _ => opt(v),
    }
}

/// Runs one query; the answer is a canonical JSON value the specification can compute too.
pub fn query(ch: &Chain, q: &Value) -> Value {
    let before = ch.store.m.len();
    let r: Result<Value, String> = match q["k"].as_str().unwrap() {
        "calc_out" => {
            let m = json!({"token_in": {"denom": q["din"], "amount": u(q, "amt").to_string()}, "token_out_denom": q["dout"],
                "swap_fee": dec128(&s(q, "fee")).to_string()});
            ch.query(&if q["alt"] == true { json!({"calc_out_amt_given_in": m}) } else { json!({"calc_out_amount_given_in": m}) })
                .map(|r| json!([r["token_out"]["denom"], r["token_out"]["amount"]]))
        }
        "calc_in" => ch.query(&json!({"calc_in_amt_given_out": {}})).map(|_| json!(["", ""])),
        "spot" => ch
            .query(&json!({"spot_price": {"quote_asset_denom": q["quote"], "base_asset_denom": q["base"]}}))
            .map(|r| json!([atomics(&r["spot_price"])])),
        "liq" => ch
            .query(&json!({"get_total_pool_liquidity": {}}))
            .map(|r| rows(&r, "total_pool_liquidity", |c| json!([c["denom"], c["amount"]]))),
        "active" => ch.query(&json!({"is_active": {}})).map(|b| json!([b])),
        "fee" => ch.query(&json!({"get_maker_fee": {}})).map(|r| json!([atomics(&r)])),
        "swap_fee" => ch.query(&json!({"get_swap_fee": {}})).map(|r| json!([atomics(&r["swap_fee"])])),
        "denoms" => ch.query(&json!({"denoms": {}})).map(|r| json!([r["quote_denom"], r["base_denom"]])),
        "state" => ch.query(&json!({"orderbook_state": {}})).map(|r| {
            let t = |k: &str| json!(tick_int(r[k].as_i64().unwrap_or(i64::MIN)));
            json!([r["quote_denom"], r["base_denom"], t("next_bid_tick"), t("next_ask_tick")])
        }),
        "auth" => {
            let m = match q["who"].as_str().unwrap() {
                "admin" => json!({"admin": {}}),
                "aoff" => json!({"admin_offer": {}}),
                "mod" => json!({"moderator": {}}),
                _ => json!({"moderator_offer": {}}),
            };
            ch.query(&json!({"auth": m})).map(|r| json!([if r.is_null() { json!("") } else { r }]))
        }
        "all_ticks" => ch
            .query(&json!({"all_ticks": {"start_from": opt(&q["from"]), "end_at": opt(&q["to"]), "limit": lim(&q["limit"])}}))
            .map(|r| rows(&r, "ticks", tick_row)),
        "ticks_by_id" => ch.query(&json!({"ticks_by_id": {"tick_ids": q["ids"]}})).map(|r| rows(&r, "ticks", tick_row)),
        "by_owner" => ch
            .query(&json!({"orders_by_owner": {"owner": q["owner"], "start_from": bound(ch, &q["from"]), "end_at": bound(ch, &q["to"]),
                "limit": lim(&q["limit"])}}))
            .map(|r| json!([r["count"], rows(&r, "orders", |o| order_row(ch, o))])),
        "by_tick" => ch
            .query(&json!({"orders_by_tick": {"tick_id": q["tick"], "start_from": bound(ch, &q["from"]), "end_at": bound(ch, &q["to"]),
                "limit": lim(&q["limit"])}}))
            .map(|r| json!([r["count"], rows(&r, "orders", |o| order_row(ch, o))])),
        "unreal" => {
            // published cancels still to be skipped, on top of the published position
            let ticks = ch.query(&json!({"ticks_by_id": {"tick_ids": q["ids"]}}));
            ch.query(&json!({"get_unrealized_cancels": {"tick_ids": q["ids"]}})).and_then(|r| {
                let ticks = ticks?;
                let (a, b) = (r["ticks"].as_array().cloned().unwrap_or_default(), ticks["ticks"].as_array().cloned().unwrap_or_default());
                let at = |t: &Value, x: &Value, side: &str| {
                    d0(dec(&t["tick_state"][format!("{side}_values")]["effective_total_amount_swapped"])
                        .saturating_add(dec(&x["unrealized_cancels"][format!("{side}_unrealized_cancels")])))
                };
                Ok(json!(a.iter().zip(b.iter()).map(|(x, t)| json!([tick_id(x), at(t, x, "ask"), at(t, x, "bid")])).collect::<Vec<_>>()))
            })
        }
        "price" => sumtree_orderbook::tick_math::tick_to_price(tick_of(q, "tick"))
            .map(|p| json!([p.atomics().to_string()]))
            .map_err(|e| e.to_string()),
        k => panic!("query {k}"),
    };
    let mut out = q.clone();
    if q["k"] == "calc_out" {
        // what a market order of this amount really yields here
        let op = json!({"k": "swap", "sender": "quoter", "din": q["din"], "amt": q["amt"], "dout": q["dout"], "min": "0",
            "fee": q["fee"], "target": "none", "bound": 0, "blk": []});
        let x = dry(ch, &op);
        let got: Vec<&String> = x.pay.iter().filter(|p| q["dout"] == p.1.as_str()).map(|p| &p.2).collect();
        out["x"] = json!(if x.ok && got.len() == 1 { got[0].clone() } else { "none".to_string() });
    }
    match r {
        Ok(v) => {
            out["ok"] = json!(true);
            out["r"] = v;
        }
        Err(e) => {
            out["ok"] = json!(false);
            out["r"] = json!([]);
            out["e"] = json!(e);
        }
    }
    assert_eq!(before, ch.store.m.len());
    out
}

//! Projection of the contract's stored state onto the specification's state.
//! Storage is decoded with definitions of our own, so that a defect in the
//! contract's own accessors or queries cannot hide a difference.
use crate::chain::Chain;
use cosmwasm_std::{Decimal256, Order, Timestamp, Uint128, Uint256};
use cw_storage_plus::{Item, Map};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::str::FromStr;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RawOrder {
    pub tick_id: i64,
    pub order_id: u64,
    pub order_direction: String,
    pub owner: String,
    pub quantity: Uint128,
    pub etas: Decimal256,
    pub claim_bounty: Option<Decimal256>,
    pub placed_quantity: Uint128,
    #[serde(default)]
    pub placed_at: Timestamp,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RawValues {
    pub total_amount_of_liquidity: Decimal256,
    pub cumulative_total_value: Decimal256,
    pub effective_total_amount_swapped: Decimal256,
    pub cumulative_realized_cancels: Decimal256,
    #[serde(default)]
    pub last_tick_sync_etas: Decimal256,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RawTick {
    pub ask_values: RawValues,
    pub bid_values: RawValues,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RawBook {
    pub quote_denom: String,
    pub base_denom: String,
    pub next_bid_tick: i64,
    pub next_ask_tick: i64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum RawNodeType {
    Leaf { value: Decimal256, etas: Decimal256 },
    Internal { accumulator: Decimal256, range: (Decimal256, Decimal256), weight: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RawNode {
    pub key: u64,
    pub tick_id: i64,
    pub direction: String,
    pub left: Option<u64>,
    pub right: Option<u64>,
    pub parent: Option<u64>,
    pub node_type: RawNodeType,
}

const ORDERS: Map<(i64, u64), RawOrder> = Map::new("orders");
const TICKS: Map<i64, RawTick> = Map::new("tick_state");
const BOOK: Item<RawBook> = Item::new("orderbook");
const LIQ: Map<&str, Decimal256> = Map::new("direction_liquidity");
const ORDER_ID: Item<u64> = Item::new("order_id");
const IS_ACTIVE: Item<bool> = Item::new("is_active");
const MAKER_FEE: Item<Decimal256> = Item::new("maker_fee");
const MAKER_FEE_RECIPIENT: Item<String> = Item::new("maker_fee_recipient");
const ADMIN: Item<String> = Item::new("admin");
const ADMIN_OFFER: Item<String> = Item::new("admin_offer");
const MODERATOR: Item<String> = Item::new("moderator");
const MODERATOR_OFFER: Item<String> = Item::new("moderator_offer");
const NODES: Map<(i64, u64), RawNode> = Map::new("nodes");
const TREE: Map<(i64, String), u64> = Map::new("tree");

#[derive(Clone, Debug, PartialEq)]
pub struct OrderView {
    pub tick: i64,
    pub dir: String,
    pub owner: String,
    pub qty: u128,
    pub cl: String, // claimable as published
    pub fi: String, // what a claim would settle
    pub pos: String,
    pub bounty: String,
    pub placed: String,
    pub at: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct SideView {
    pub tal: String,
    pub ctt: String,
    pub swp: String,
    pub hp: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Obs {
    pub orders: BTreeMap<u64, OrderView>,
    pub ticks: BTreeMap<i64, (SideView, SideView)>, // ask, bid
    pub misc: BTreeMap<String, Value>,
    pub bal: BTreeMap<String, String>,
    pub bad: Vec<(String, String)>, // (kind, what)
}

/// books with more orders are probed partially
const PROBE_CAP: usize = 40;

pub fn tick_int(t: i64) -> i64 {
    t.clamp(i32::MIN as i64 + 1, i32::MAX as i64)
}

/// Whole-number rendering of a Decimal256; fractions are reported in `bad`.
fn int(d: Decimal256, what: &str, bad: &mut Vec<(String, String)>) -> String {
    let a = d.atomics();
    let e18 = Uint256::from_u128(1_000_000_000_000_000_000);
    if !(a % e18).is_zero() {
        bad.push(("fraction".into(), what.into()));
    }
    (a / e18).to_string()
}
/// a - b as a signed decimal string
fn sub(a: Decimal256, b: Decimal256, what: &str, bad: &mut Vec<(String, String)>) -> String {
    if a >= b {
        int(a - b, what, bad)
    } else {
        format!("-{}", int(b - a, what, bad))
    }
}

fn dir_name(d: &str) -> String {
    d.to_lowercase()
}

pub fn observe(ch: &Chain) -> Obs {
    let st = &ch.store;
    let mut o = Obs::default();
    let mut bad = vec![];
    // book
    match BOOK.load(st) {
        Ok(b) => {
            o.misc.insert("quote".into(), json!(b.quote_denom));
            o.misc.insert("base".into(), json!(b.base_denom));
            o.misc.insert("nb".into(), json!(tick_int(b.next_bid_tick)));
            o.misc.insert("na".into(), json!(tick_int(b.next_ask_tick)));
        }
        Err(_) => {
            o.misc.insert("quote".into(), json!(""));
            o.misc.insert("base".into(), json!(""));
            o.misc.insert("nb".into(), json!(0));
            o.misc.insert("na".into(), json!(0));
            if !ch.store.m.is_empty() {
                bad.push(("record".into(), "no orderbook".into()));
            }
        }
    }
    o.misc.insert("oid".into(), json!(ch.id_in(ORDER_ID.may_load(st).ok().flatten().unwrap_or(ch.id0))));
    for d in ["ask", "bid"] {
        let v = LIQ.may_load(st, d).ok().flatten().unwrap_or_default();
        o.misc.insert(format!("liq_{d}"), json!(int(v, "liquidity", &mut bad)));
    }
    o.misc.insert("active".into(), json!(IS_ACTIVE.may_load(st).ok().flatten().unwrap_or(true)));
    o.misc.insert(
        "fee".into(),
        json!(MAKER_FEE.may_load(st).ok().flatten().unwrap_or_default().atomics().to_string()),
    );
    for (k, item) in [
        ("recip", &MAKER_FEE_RECIPIENT),
        ("admin", &ADMIN),
        ("aoff", &ADMIN_OFFER),
        ("mod", &MODERATOR),
        ("moff", &MODERATOR_OFFER),
    ] {
        o.misc.insert(k.into(), json!(item.may_load(st).ok().flatten().unwrap_or_default()));
    }
    // ticks
    let mut ticks: BTreeMap<i64, RawTick> = BTreeMap::new();
    for r in TICKS.range(st, None, None, Order::Ascending) {
        match r {
            Ok((t, v)) => {
                ticks.insert(t, v);
            }
            Err(e) => bad.push(("record".into(), format!("tick record: {e}"))),
        }
    }
    // unrealized cancels as published
    let mut unreal: BTreeMap<i64, (Decimal256, Decimal256)> = BTreeMap::new();
    for t in ticks.keys() {
        let dec = |v: &Value| v.as_str().and_then(|x| Decimal256::from_str(x).ok());
        match ch.query(&json!({"get_unrealized_cancels": {"tick_ids": [t]}})) {
            Ok(r) => {
                let u = &r["ticks"][0]["unrealized_cancels"];
                match (dec(&u["ask_unrealized_cancels"]), dec(&u["bid_unrealized_cancels"])) {
                    (Some(a), Some(b)) if r["ticks"][0]["tick_id"] == *t => {
                        unreal.insert(*t, (a, b));
                    }
                    _ => bad.push(("unreal".into(), "unrealized cancels of the wrong tick".into())),
                }
            }
            Err(e) => bad.push(("unreal".into(), e)),
        }
    }
    let zero = (Decimal256::zero(), Decimal256::zero());
    for (t, v) in &ticks {
        let u = unreal.get(t).unwrap_or(&zero);
        let mut side = |x: &RawValues, u: Decimal256| SideView {
            tal: int(x.total_amount_of_liquidity, "tal", &mut bad),
            ctt: int(x.cumulative_total_value, "ctt", &mut bad),
            swp: sub(x.effective_total_amount_swapped, x.cumulative_realized_cancels, "swapped", &mut bad),
            hp: int(x.effective_total_amount_swapped.saturating_add(u), "frontier", &mut bad),
        };
        let a = side(&v.ask_values, u.0);
        let b = side(&v.bid_values, u.1);
        o.ticks.insert(tick_int(*t), (a, b));
    }
    // orders
    for r in ORDERS.range(st, None, None, Order::Ascending) {
        match r {
            Ok(((t, id), x)) => {
                if x.tick_id != t || x.order_id != id {
                    bad.push(("record".into(), format!("order {id} stored under a foreign key")));
                }
                let dir = dir_name(&x.order_direction);
                let (etas, un) = match ticks.get(&t) {
                    Some(v) => {
                        let u = unreal.get(&t).unwrap_or(&zero);
                        if dir == "ask" {
                            (v.ask_values.effective_total_amount_swapped, u.0)
                        } else {
                            (v.bid_values.effective_total_amount_swapped, u.1)
                        }
                    }
                    None => zero,
                };
                let q = Decimal256::from_ratio(x.quantity, 1u128);
                let cl = etas.saturating_add(un).saturating_sub(x.etas).min(q);
                let n_orders = o.orders.len();
                let fi = if n_orders < PROBE_CAP || n_orders % 16 == 0 {
                    let load = |s: &dyn cosmwasm_std::Storage| ORDERS.may_load(s, (t, id)).ok().flatten().map(|o| o.quantity.u128());
                    match ch.probe_claim(t, id, &load) {
                        Ok(x) => x.to_string(),
                        Err(e) => {
                            bad.push(("claim".into(), e));
                            "0".into()
                        }
                    }
                } else {
                    String::new()
                };
                let view = OrderView {
                    tick: tick_int(t),
                    dir,
                    owner: x.owner.clone(),
                    qty: x.quantity.u128(),
                    fi: if fi.is_empty() { int(cl, "claimable", &mut bad) } else { fi },
                    cl: int(cl, "claimable", &mut bad),
                    pos: int(x.etas, "position", &mut bad),
                    bounty: x.claim_bounty.map_or("none".to_string(), |b| b.atomics().to_string()),
                    placed: x.placed_quantity.to_string(),
                    at: x.placed_at.nanos().to_string(),
                };
                if o.orders.insert(ch.id_in(id), view).is_some() {
                    bad.push(("record".into(), format!("two orders with id {id}")));
                }
            }
            Err(e) => bad.push(("record".into(), format!("order record: {e}"))),
        }
    }
    for (d, a) in &ch.bal {
        o.bal.insert(d.clone(), a.to_string());
    }
    o.bad = bad;
    o
}

fn order_json(v: &OrderView) -> Value {
    json!({"tick": v.tick, "dir": v.dir, "owner": v.owner, "qty": v.qty.to_string(), "cl": v.cl, "fi": v.fi, "pos": v.pos,
           "bounty": v.bounty, "placed": v.placed, "at": v.at})
}
fn side_json(v: &SideView) -> Value {
    json!({"tal": v.tal, "ctt": v.ctt, "swp": v.swp, "hp": v.hp})
}

/// what changed from a to b
pub fn delta(a: &Obs, b: &Obs) -> Value {
    let mut set = vec![];
    let mut del = vec![];
    for (i, v) in &b.orders {
        if a.orders.get(i) != Some(v) {
            set.push(json!([i, order_json(v)]));
        }
    }
    for i in a.orders.keys() {
        if !b.orders.contains_key(i) {
            del.push(json!(i));
        }
    }
    let mut tk = vec![];
    let mut tdel = vec![];
    for (t, v) in &b.ticks {
        if a.ticks.get(t) != Some(v) {
            tk.push(json!([t, {"ask": side_json(&v.0), "bid": side_json(&v.1)}]));
        }
    }
    for t in a.ticks.keys() {
        if !b.ticks.contains_key(t) {
            tdel.push(json!(t));
        }
    }
    let mut bal = vec![];
    for (d, x) in &b.bal {
        if a.bal.get(d) != Some(x) {
            bal.push(json!([d, x]));
        }
    }
    let misc: Vec<Value> = b
        .misc
        .iter()
        .filter(|(k, v)| a.misc.get(*k) != Some(*v))
        .map(|(k, v)| json!([k, v]))
        .collect();
    json!({"o": set, "od": del, "t": tk, "td": tdel, "b": bal, "m": misc, "bad": b.bad})
}

/// Dump of one stored cancel tree.
pub fn tree_json(ch: &Chain, tick: i64, dir: &str) -> Value {
    let st = &ch.store;
    let root = TREE.may_load(st, (tick, dir.to_string())).ok().flatten().unwrap_or(0);
    let mut bad: Vec<(String, String)> = vec![];
    let mut nodes: Vec<Value> = vec![];
    let mut max_int = vec![];
    for r in NODES.prefix(tick).range(st, None, None, Order::Ascending) {
        match r {
            Ok((id, n)) => {
                if dir_name(&n.direction) != dir {
                    continue;
                }
                if n.key != id || n.tick_id != tick {
                    max_int.push(id);
                    bad.push(("node".into(), format!("node {id} under a foreign key")));
                }
                let (leaf, lo, hi, val, w) = match &n.node_type {
                    RawNodeType::Leaf { value, etas } => (true, *etas, etas.saturating_add(*value), *value, 1),
                    RawNodeType::Internal { accumulator, range, weight } => {
                        (false, range.0, range.1, *accumulator, *weight)
                    }
                };
                nodes.push(json!({"id": id, "leaf": leaf, "l": n.left.unwrap_or(0), "r": n.right.unwrap_or(0),
                    "p": n.parent.unwrap_or(0), "lo": int(lo, "node", &mut bad), "hi": int(hi, "node", &mut bad),
                    "v": int(val, "node", &mut bad), "w": w}));
            }
            Err(e) => bad.push(("node".into(), format!("node record: {e}"))),
        }
    }
    json!({"tick": tick_int(tick), "dir": dir, "root": root, "nodes": nodes, "bad": bad})
}

pub fn has_tree(ch: &Chain, tick: i64, dir: &str) -> bool {
    TREE.may_load(&ch.store, (tick, dir.to_string())).ok().flatten().is_some()
}

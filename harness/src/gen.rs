//! Random drivers: generate messages biased towards boundaries of the current state.
use crate::chain::Chain;
use crate::obs::{self, Obs};
use crate::ops;
use crate::rec::{Extra, Rec};
use crate::rng::Rng;
use cosmwasm_std::Uint256;
use serde_json::{json, Value};
use std::str::FromStr;

pub const MIN_TICK: i64 = -108_000_000;
pub const MAX_TICK: i64 = 182_402_823;
const CAP: u128 = 1 << 127;
pub const GOV: &str = "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp";
const BREAKER: &str = "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl";
const FEE_SINK: &str = "osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6";
pub const USERS: [&str; 5] = ["alice", "bob", "carol", "dave", "keeper"];

/// price of a tick in 10^-18, from the definition of the grid
pub fn atomics(t: i64) -> u128 {
    let k = t.div_euclid(9_000_000);
    let j = t.rem_euclid(9_000_000);
    (1_000_000 + j) as u128 * 10u128.pow((12 + k) as u32)
}
const E18: u128 = 1_000_000_000_000_000_000;
fn to128(x: Uint256) -> u128 {
    u128::from_str(&x.to_string()).unwrap_or(u128::MAX)
}
/// input needed for volume v resting on side at tick t, rounded up
pub fn cost(side: &str, v: u128, t: i64) -> u128 {
    let (n, d) = if side == "ask" { (atomics(t), E18) } else { (E18, atomics(t)) };
    let x = Uint256::from(v).checked_multiply_ratio(n, d).unwrap_or(Uint256::MAX);
    let back = x.checked_multiply_ratio(d, n).unwrap_or(Uint256::MAX);
    let _ = back;
    let rem = Uint256::from(v).checked_mul(Uint256::from(n)).map(|p| !(p % Uint256::from(d)).is_zero()).unwrap_or(true);
    to128(x).saturating_add(rem as u128)
}

#[derive(Clone)]
pub struct Prof {
    pub name: &'static str,
    pub chains: usize,
    pub len: usize,
    /// weights: place cancel claim batch swap auth sudo migrate donate
    pub w: [u64; 9],
    pub ticks: fn(&mut Rng) -> Vec<i64>,
    pub maxq: u128,
    pub small: bool,
    pub bounty: u64, // percent of orders with a bounty
    pub fee: u64,    // percent of chains that start with a maker fee
    pub bad: u64,    // percent of deliberately bad messages
    pub blk: u64,    // percent of messages with undeliverable payments
    pub target: u64, // percent of swaps with a target tick
    pub q: usize,    // random queries per message
    pub live: usize, // soft limit on live orders
    pub zig: bool,   // deep cancel patterns
    pub heavy: bool, // the whole supply of a token passes through the book again and again
}

fn near(r: &mut Rng) -> Vec<i64> {
    let base = *r.pick(&[-1i64, 0, 0, 1, 5_000_000, -5_000_000, 999_999, 9_000_000, -9_000_000]);
    let mut v = vec![base, base + 1];
    for _ in 0..r.below(3) {
        v.push(base + r.range(-3, 3));
    }
    v.push(base + r.range(-2_000_000, 2_000_000));
    v
}
fn anywhere(r: &mut Rng) -> Vec<i64> {
    (0..r.range(2, 6)).map(|_| r.range(-80_000_000, 80_000_000)).collect()
}
fn edges(r: &mut Rng) -> Vec<i64> {
    let mut v = vec![];
    for _ in 0..r.range(2, 5) {
        let d = 9_000_000 * r.range(-12, 20) + *r.pick(&[-1i64, 0, 0, 1]);
        v.push(match r.below(6) {
            0 => MIN_TICK + r.range(0, 3),
            1 => MAX_TICK - r.range(0, 3),
            2 => r.range(MIN_TICK, MAX_TICK),
            3 => r.range(150_000_000, MAX_TICK),
            _ => d.clamp(MIN_TICK, MAX_TICK),
        });
    }
    v
}
fn single(r: &mut Rng) -> Vec<i64> {
    vec![*r.pick(&[0i64, 0, 0, 1_000_000, -4_000_000, 9_000_000, 3, -18_000_000])]
}
fn zero(_: &mut Rng) -> Vec<i64> {
    vec![0]
}
fn pair(r: &mut Rng) -> Vec<i64> {
    let a = r.range(-10, 10);
    vec![a, a + r.range(1, 1_000_000)]
}
fn many(r: &mut Rng) -> Vec<i64> {
    let n = r.range(5, 30);
    (0..n).map(|i| (i - n / 2) * 1_000 + r.range(0, 2)).collect()
}

fn base(name: &'static str) -> Prof {
    Prof {
        name,
        chains: 16,
        len: 60,
        w: [40, 12, 18, 4, 24, 1, 1, 0, 1],
        ticks: near,
        maxq: 1 << 40,
        small: true,
        bounty: 30,
        fee: 50,
        bad: 8,
        blk: 0,
        target: 20,
        q: 2,
        live: 14,
        zig: false,
        heavy: false,
    }
}

pub fn profile(name: &str) -> Prof {
    let b = |n| base(n);
    match name {
        "core" => b("core"),
        "prices" => Prof { ticks: anywhere, maxq: 1 << 90, small: false, ..b("prices") },
        "extreme" => Prof { ticks: edges, maxq: 1 << 112, small: false, ..b("extreme") },
        "dust" => Prof { ticks: anywhere, maxq: 30, small: true, fee: 80, bounty: 60, ..b("dust") },
        "queue" => Prof { ticks: single, maxq: 9, w: [34, 24, 22, 3, 26, 0, 0, 0, 0], bad: 2, len: 120, chains: 12, live: 16, bounty: 0, fee: 0, target: 5, q: 1, ..b("queue") },
        "zigzag" => Prof { ticks: zero, maxq: 5, w: [30, 34, 14, 2, 24, 0, 0, 0, 0], bad: 1, len: 160, chains: 10, live: 30, bounty: 0, fee: 0, target: 5, q: 1, zig: true, ..b("zigzag") },
        "sides" => Prof { ticks: pair, maxq: 12, w: [36, 18, 18, 3, 26, 0, 0, 0, 0], bad: 2, len: 90, ..b("sides") },
        "fees" => Prof { fee: 100, bounty: 80, maxq: 100_000, small: false, w: [34, 5, 30, 8, 26, 6, 0, 0, 0], ..b("fees") },
        "roles" => Prof { w: [4, 2, 2, 1, 3, 70, 14, 2, 1], bad: 0, live: 4, chains: 24, len: 60, ..b("roles") },
        "pause" => Prof { w: [26, 10, 12, 6, 18, 20, 8, 1, 1], live: 8, chains: 20, len: 60, ..b("pause") },
        "fault" => Prof { fee: 80, bounty: 60, blk: 45, maxq: 1000, w: [30, 14, 26, 10, 26, 2, 0, 0, 0], ..b("fault") },
        "listing" => Prof { ticks: many, w: [80, 8, 6, 1, 10, 0, 0, 0, 0], bad: 2, len: 180, chains: 4, live: 400, q: 4, bounty: 10, ..b("listing") },
        "batch" => Prof { w: [40, 8, 6, 26, 26, 1, 0, 0, 0], maxq: 20, len: 80, ..b("batch") },
        "bad" => Prof { bad: 55, ..b("bad") },
        "targets" => Prof { target: 85, ticks: many, w: [46, 6, 8, 1, 40, 0, 0, 0, 0], live: 30, ..b("targets") },
        "deep" => Prof { ticks: zero, maxq: 4, w: [30, 40, 8, 0, 10, 0, 0, 0, 0], bad: 0, len: 900, chains: 2, live: 300, bounty: 0, fee: 0, target: 0, q: 0, zig: true, ..b("deep") },
        "volume" => Prof { ticks: single, maxq: 1 << 126, small: false, heavy: true, w: [36, 14, 22, 3, 30, 0, 0, 0, 0], bad: 2, len: 100, chains: 12, bounty: 10, fee: 30, ..b("volume") },
        "migrate" => Prof { w: [30, 8, 10, 2, 18, 6, 2, 14, 1], len: 50, ..b("migrate") },
        "admin" => Prof { w: [20, 8, 10, 4, 16, 24, 4, 2, 1], fee: 60, len: 60, ..b("admin") },
        n => panic!("profile {n}"),
    }
}

pub struct Sim<'a> {
    pub ch: Chain,
    pub o: Obs,
    pub at: usize,
    pub rec: &'a mut Rec,
    pub prof: String,
    pub deposited: [u128; 3], // quote, base, other
    /// what the tokens and people are called in this history, if not by their plain names
    pub names: Vec<(&'static str, &'static str)>,
    pub heavy: bool,
}

const TOKEN_NAMES: [[(&str, &str); 2]; 3] = [
    [("uquote", "aquote"), ("ubase", "zbase")],
    [("uquote", "ibc/498A0751C798A0D9A389AA3691123DADA57DAA4FE165D5C75894505B876BA6E4"), ("ubase", "factory/osmo1z6r6qdknhgsc0zeracktgpcxf43j6sekq07nw8sxduc9lg0qjjlqfu25e3/alloyed/allBTC")],
    [("uquote", "uq"), ("ubase", "uquoted")],
];
const PEOPLE_NAMES: [&[(&str, &str)]; 3] = [
    &[],
    &[("bob", "alicea"), ("carol", "alic"), ("dave", "bobby")],
    &[("alice", "osmo1cyyzpxplxdzkeea7kwsydadg87357qnahakaks"), ("bob", "osmo1cyyzpxplxdzkeea7kwsydadg87357qnahakakt"),
      ("carol", "osmo14hj2tavq8fpesdwxxcu44rty3hh90vhujrvcmstl4zr3txmfvw9sq2r9g9")],
];

/// every name in an operation or query, replaced
fn rename(v: &Value, names: &[(&str, &str)]) -> Value {
    match v {
        Value::String(s) => json!(names.iter().find(|n| n.0 == s).map_or(s.as_str(), |n| n.1)),
        Value::Array(a) => a.iter().map(|x| rename(x, names)).collect(),
        Value::Object(o) => o.iter().map(|(k, x)| (k.clone(), rename(x, names))).collect(),
        _ => v.clone(),
    }
}

pub fn create_op(quote: &str, base: &str) -> Value {
    json!({"k": "create", "sender": "creator", "quote": quote, "base": base, "qsupply": true, "bsupply": true,
           "dflrecip": FEE_SINK, "dfladmin": GOV, "dflmod": BREAKER, "funds": [], "now": "1000000000", "blk": []})
}

impl<'a> Sim<'a> {
    pub fn new(rec: &'a mut Rec, prof: &str) -> Self {
        Self::aged(rec, prof, 0)
    }
    /// a book that has given out ids identifiers before
    pub fn aged(rec: &'a mut Rec, prof: &str, ids: u64) -> Self {
        Self::named(rec, prof, ids, vec![])
    }
    pub fn named(rec: &'a mut Rec, prof: &str, ids: u64, names: Vec<(&'static str, &'static str)>) -> Self {
        let ch = Chain::new(1_000_000_000, vec![]);
        let o = obs::observe(&ch);
        let mut s = Sim { ch, o, at: 0, rec, prof: prof.into(), deposited: [0; 3], names, heavy: false };
        let mut op = create_op("uquote", "ubase");
        if ids > 0 {
            op["ids"] = json!(ids.to_string());
        }
        s.act(&op);
        s
    }
    pub fn misc(&self, k: &str) -> String {
        self.o.misc[k].as_str().unwrap_or("").to_string()
    }
    pub fn act(&mut self, op: &Value) -> bool {
        let named = rename(op, &self.names);
        let (n, out, next) = self.rec.step(&mut self.ch, &self.o, self.at, &self.prof, &named);
        self.at = n;
        self.o = next;
        if out.ok {
            for c in op["funds"].as_array().unwrap_or(&vec![]) {
                self.note(c["d"].as_str().unwrap(), ops::u(c, "a"));
            }
            if op["k"] == "swap" {
                self.note(op["din"].as_str().unwrap(), ops::u(op, "amt"));
            }
        }
        out.ok
    }
    fn note(&mut self, d: &str, a: u128) {
        let i = match d {
            "uquote" => 0,
            "ubase" => 1,
            _ => 2,
        };
        self.deposited[i] = self.deposited[i].saturating_add(a);
    }
    pub fn room(&self, d: &str) -> u128 {
        let i = match d {
            "uquote" => 0,
            "ubase" => 1,
            _ => 2,
        };
        if self.heavy {
            // all there is of the token, less what the book holds
            let d = self.names.iter().find(|n| n.0 == d).map_or(d, |n| n.1);
            return u128::MAX - self.o.bal.get(d).and_then(|x| x.parse().ok()).unwrap_or(0);
        }
        CAP.saturating_sub(self.deposited[i])
    }
    pub fn extra(&mut self, ex: &Extra) {
        let ex = Extra { queries: ex.queries.iter().map(|q| rename(q, &self.names)).collect(), trees: ex.trees.clone() };
        self.rec.extra(&self.ch, self.at, &ex);
    }
    pub fn tal(&self, t: i64, side: &str) -> u128 {
        self.o.ticks.get(&t).map_or(0, |v| if side == "ask" { &v.0 } else { &v.1 }.tal.parse().unwrap_or(0))
    }
    /// ticks with liquidity on side, best first
    pub fn liquid(&self, side: &str) -> Vec<i64> {
        let mut v: Vec<i64> = self.o.ticks.keys().copied().filter(|t| self.tal(*t, side) > 0).collect();
        if side == "bid" {
            v.reverse();
        }
        v
    }
}

pub fn rest_denom(dir: &str) -> &'static str {
    if dir == "bid" {
        "uquote"
    } else {
        "ubase"
    }
}
pub fn opp(dir: &str) -> &'static str {
    if dir == "bid" {
        "ask"
    } else {
        "bid"
    }
}
fn coin(d: &str, a: u128) -> Value {
    json!({"d": d, "a": a.to_string()})
}

pub fn place(sender: &str, tick: i64, dir: &str, qty: u128, bounty: &str, now: u64) -> Value {
    json!({"k": "place", "sender": sender, "tick": tick, "dir": dir, "qty": qty.to_string(), "bounty": bounty,
           "funds": [coin(rest_denom(dir), qty)], "now": now.to_string(), "blk": []})
}
pub fn cancel(sender: &str, tick: i64, id: u64) -> Value {
    json!({"k": "cancel", "sender": sender, "tick": tick, "id": id, "funds": [], "blk": []})
}
pub fn claim(sender: &str, tick: i64, id: u64) -> Value {
    json!({"k": "claim", "sender": sender, "tick": tick, "id": id, "funds": [], "blk": []})
}
pub fn batch(sender: &str, items: &[(i64, u64)]) -> Value {
    json!({"k": "batch", "sender": sender, "items": items.iter().map(|(t,i)| json!([t,i])).collect::<Vec<_>>(), "funds": [], "blk": []})
}
/// market order of direction dir
pub fn swap(sender: &str, dir: &str, amt: u128, min: u128, target: Option<i64>, now: u64) -> Value {
    json!({"k": "swap", "sender": sender, "din": rest_denom(dir), "amt": amt.to_string(), "dout": rest_denom(opp(dir)),
           "min": min.to_string(), "fee": "0", "target": if target.is_some() {"tick"} else {"none"},
           "bound": target.unwrap_or(0), "now": now.to_string(), "blk": []})
}
pub fn auth(sender: &str, act: &str, addr: &str, flag: bool, fee: u128) -> Value {
    json!({"k": "auth", "act": act, "sender": sender, "addr": addr, "flag": flag, "fee": fee.to_string(), "funds": [], "blk": []})
}
pub fn sudo(act: &str, addr: &str, flag: bool) -> Value {
    json!({"k": "sudo", "act": act, "sender": "chain", "addr": addr, "flag": flag, "funds": [], "blk": []})
}

pub struct Gen<'p> {
    pub r: Rng,
    pub p: &'p Prof,
    pub ticks: Vec<i64>,
}

impl<'p> Gen<'p> {
    fn user(&mut self) -> String {
        self.r.pick(&USERS).to_string()
    }
    /// mostly users; sometimes whoever holds a role, which must make no difference
    fn anyone(&mut self, s: &Sim, privileged: u64) -> String {
        if self.r.chance(privileged) {
            let v: Vec<String> = ["admin", "mod", "aoff", "moff", "recip"].iter().map(|k| s.misc(k)).filter(|x| !x.is_empty()).collect();
            if !v.is_empty() {
                return self.r.pick(&v).clone();
            }
        }
        self.user()
    }
    fn actor(&mut self, s: &Sim) -> String {
        let mut v: Vec<String> = vec!["alice".into(), "bob".into(), "carol".into(), GOV.into(), BREAKER.into()];
        for k in ["admin", "aoff", "mod", "moff", "admin", "mod", "aoff", "moff", "admin"] {
            let x = s.misc(k);
            if !x.is_empty() {
                v.push(x);
            }
        }
        self.r.pick(&v).clone()
    }
    fn addr(&mut self, s: &Sim) -> String {
        match self.r.below(12) {
            0 => "X".into(),
            1 => "ALICE".into(),
            2 => "".into(),
            3 | 4 => self.actor(s),
            _ => self.user(),
        }
    }
    fn qty(&mut self, s: &Sim, d: &str) -> u128 {
        let m = self.p.maxq;
        let q = if self.p.small && self.r.chance(80) {
            self.r.range(1, (m.min(20)) as i64) as u128
        } else if self.r.chance(if self.p.heavy { 70 } else { 5 }) {
            m - if self.p.heavy { self.r.log(m / 2) } else { 0 }
        } else {
            self.r.log(m)
        };
        q.min((s.room(d) / 2).max(1))
    }
    pub fn place(&mut self, s: &Sim) -> Value {
        let dir = *self.r.pick(&["ask", "bid"]);
        let t = *self.r.pick(&self.ticks.clone());
        let q = self.qty(s, rest_denom(dir));
        let b = if self.r.chance(self.p.bounty) {
            match self.r.below(6) {
                0 => "0".to_string(),
                1 | 2 => "10000000000000000".to_string(),
                3 => self.r.log(10_000_000_000_000_000).to_string(),
                _ => (self.r.range(1, 100) as u128 * 100_000_000_000_000).to_string(),
            }
        } else {
            "none".to_string()
        };
        let u = self.anyone(s, 3);
        let mut op = place(&u, t, dir, q, &b, s.ch.now);
        if self.r.chance(self.p.bad) {
            match self.r.below(13) {
                0 => op["bounty"] = json!("10000000000000001"),
                1 => op["bounty"] = json!(self.r.log(1 << 120).to_string()),
                2 => op["funds"] = json!([coin(rest_denom(dir), q + 1)]),
                3 => op["funds"] = json!([coin(rest_denom(dir), (q - 1).max(1))]),
                4 => op["funds"] = json!([coin(rest_denom(opp(dir)), q)]),
                5 => op["funds"] = json!([coin(rest_denom(dir), q), coin("uother", 1)]),
                6 => op["funds"] = json!([]),
                7 => {
                    op["qty"] = json!("0");
                    op["funds"] = if self.r.chance(50) { json!([]) } else { json!([coin(rest_denom(dir), 1)]) };
                }
                8 => op["tick"] = json!(*self.r.pick(&[MIN_TICK - 1, MAX_TICK + 1, MAX_TICK + 1000, MIN_TICK - 9_000_000])),
                9 => {
                    let x = *self.r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, 1i64 << 40, -(1i64 << 40), (1i64 << 32), (1i64 << 32) - 5]);
                    op["tick"] = json!(obs::tick_int(x));
                    op["tickx"] = json!(x.to_string());
                }
                10 => op["tick"] = json!(*self.r.pick(&[MIN_TICK, MAX_TICK])),
                11 => op["funds"] = json!([coin("uother", q)]),
                _ => op["funds"] = json!([coin(rest_denom(dir), 1), coin(rest_denom(opp(dir)), q)]),
            }
        }
        op
    }
    fn pick_order(&mut self, s: &Sim, filled: Option<bool>) -> Option<(u64, i64, String)> {
        let all: Vec<(&u64, &obs::OrderView)> = s.o.orders.iter().collect();
        if all.is_empty() {
            return None;
        }
        if let Some(f) = filled {
            let sub: Vec<_> = all.iter().filter(|(_, o)| (o.cl != "0") == f).collect();
            if !sub.is_empty() {
                let (i, o) = sub[self.r.below(sub.len() as u64) as usize];
                return Some((**i, o.tick, o.owner.clone()));
            }
        }
        let (i, o) = all[self.r.below(all.len() as u64) as usize];
        Some((*i, o.tick, o.owner.clone()))
    }
    fn strange(&mut self, s: &Sim, op: &mut Value) {
        match self.r.below(7) {
            0 => op["id"] = json!(s.o.misc["oid"].as_u64().unwrap_or(0) + self.r.below(3)),
            1 => op["tick"] = json!(*self.r.pick(&self.ticks.clone())),
            2 => op["tick"] = json!(op["tick"].as_i64().unwrap() + 1),
            3 => op["funds"] = json!([coin(*self.r.pick(&["uquote", "ubase", "uother"]), 1 + self.r.below(5) as u128)]),
            4 => {
                op["id"] = json!(i32::MAX);
                op["idx"] = json!(u64::MAX.to_string());
            }
            5 => op["tick"] = json!(*self.r.pick(&[MIN_TICK - 1, MAX_TICK + 1, MIN_TICK, MAX_TICK])),
            _ => op["id"] = json!(self.r.below(s.o.misc["oid"].as_u64().unwrap_or(0) + 1)),
        }
    }
    pub fn cancel(&mut self, s: &Sim) -> Value {
        let pref = if self.r.chance(75) { Some(false) } else { Some(true) };
        let pick = if self.p.zig && self.r.chance(60) { self.zigpick(s) } else { self.pick_order(s, pref) };
        let (id, t, owner) = pick.unwrap_or((0, 0, "alice".into()));
        let mut op = cancel(&owner, t, id);
        if self.r.chance(self.p.bad + 6) {
            op["sender"] = json!(self.anyone(s, 50));
        }
        if self.r.chance(self.p.bad) {
            self.strange(s, &mut op);
        }
        op
    }
    /// cancel targets that unbalance a naive tree: alternate ends, middles, runs
    fn zigpick(&mut self, s: &Sim) -> Option<(u64, i64, String)> {
        let v: Vec<(&u64, &obs::OrderView)> = s.o.orders.iter().filter(|(_, o)| o.cl == "0").collect();
        if v.is_empty() {
            return None;
        }
        let n = v.len();
        let i = match (s.at / 24) % 5 {
            0 => 0,
            1 => n - 1,
            2 => if s.at % 2 == 0 { 0 } else { n - 1 },
            3 => n / 2,
            _ => (n / 2 + (s.at % 3)).min(n - 1),
        };
        Some((*v[i].0, v[i].1.tick, v[i].1.owner.clone()))
    }
    pub fn claim(&mut self, s: &Sim) -> Value {
        let pref = if self.r.chance(85) { Some(true) } else { None };
        let (id, t, _) = self.pick_order(s, pref).unwrap_or((0, 0, "alice".into()));
        let mut op = claim(&self.anyone(s, 5), t, id);
        if self.r.chance(self.p.bad) {
            self.strange(s, &mut op);
        }
        op
    }
    pub fn batch(&mut self, s: &Sim) -> Value {
        let mut items: Vec<(i64, u64)> = vec![];
        for _ in 0..self.r.below(7) {
            let pref = if self.r.chance(70) { Some(true) } else { None };
            if let Some((id, t, _)) = self.pick_order(s, pref) {
                items.push((t, id));
            }
            match self.r.below(12) {
                0 => items.push((0, 4_000_000)),
                1 => items.push((*self.r.pick(&self.ticks.clone()), self.r.below(20))),
                2 => items.push((77, 0)),
                3 => {
                    if let Some(x) = items.last().copied() {
                        items.push(x);
                    }
                }
                _ => {}
            }
        }
        if self.r.chance(8) {
            let n = *self.r.pick(&[99usize, 100, 100, 101, 101, 150]);
            let mut i = 0;
            let keys: Vec<(i64, u64)> = s.o.orders.iter().map(|(i, o)| (o.tick, *i)).collect();
            while items.len() < n {
                items.push(if keys.is_empty() || self.r.chance(30) { (0, 3_000_000 + i as u64) } else { *self.r.pick(&keys) });
                i += 1;
            }
            items.truncate(n);
            self.r.shuffle(&mut items);
        }
        let mut op = batch(&self.anyone(s, 5), &items);
        if self.r.chance(self.p.bad / 3) {
            op["funds"] = json!([coin("uquote", 1)]);
        }
        op
    }
    /// input amounts worth trying
    pub fn amount(&mut self, s: &Sim, dir: &str) -> u128 {
        let side = opp(dir);
        let ts = s.liquid(side);
        let max = s.room(rest_denom(dir));
        let a = if ts.is_empty() {
            self.r.log(1000)
        } else {
            let k = self.r.below(ts.len().min(4) as u64) as usize;
            // all ticks before k, then something on tick k
            let mut a: u128 = 0;
            for t in &ts[..k] {
                a = a.saturating_add(cost(side, s.tal(*t, side), *t));
            }
            let t = ts[k];
            let tal = s.tal(t, side);
            let free: Vec<u128> = s
                .o
                .orders
                .values()
                .filter(|o| o.tick == t && o.dir == side)
                .map(|o| o.qty.saturating_sub(o.cl.parse().unwrap_or(0)))
                .filter(|f| *f > 0)
                .collect();
            let v = match self.r.below(8) {
                0 => tal,
                1 => tal.saturating_add(1),
                2 => self.r.log(tal),
                3 | 4 => {
                    // up to an order's end
                    let n = self.r.below(free.len() as u64 + 1) as usize;
                    free[..n].iter().fold(0u128, |a, b| a.saturating_add(*b))
                }
                5 => free.first().copied().unwrap_or(1) / 2,
                6 => self.r.range(1, 4) as u128,
                _ => tal / 2,
            };
            let a = a.saturating_add(cost(side, v.max(1).min(tal.saturating_add(1)), t));
            match self.r.below(8) {
                0 => a.saturating_add(1),
                1 => a.saturating_sub(1),
                2 => a.saturating_add(self.r.log(1 << 70)),
                3 => self.r.log(a.max(1)),
                _ => a,
            }
        };
        a.max(1).min(max)
    }
    pub fn swap(&mut self, s: &Sim) -> Value {
        let mut dir = *self.r.pick(&["ask", "bid"]);
        if s.liquid(opp(dir)).is_empty() && self.r.chance(85) {
            dir = opp(dir);
        }
        let amt = self.amount(s, dir);
        let target = if self.r.chance(self.p.target) {
            let mut c: Vec<i64> = s.o.ticks.keys().copied().collect();
            c.push(s.o.misc["nb"].as_i64().unwrap());
            c.push(s.o.misc["na"].as_i64().unwrap());
            c.push(MIN_TICK);
            c.push(MAX_TICK);
            c.push(*self.r.pick(&[MIN_TICK - 1, MAX_TICK + 1, 0]));
            let live = s.liquid(opp(dir));
            c.extend(live.iter());
            c.extend(live.iter());
            Some(*self.r.pick(&c) + *self.r.pick(&[0i64, 0, 0, 1, -1]))
        } else {
            None
        };
        let u = self.anyone(s, 3);
        let mut op = swap(&u, dir, amt, 0, target, s.ch.now);
        if self.r.chance(35) {
            let d = ops::dry(&s.ch, &op);
            let out: u128 = d.pay.iter().filter(|p| p.1 == rest_denom(opp(dir))).map(|p| p.2.parse().unwrap_or(0)).next().unwrap_or(1);
            let min = match self.r.below(5) {
                0 => out.saturating_add(1),
                1 => out.saturating_sub(1),
                2 => out.saturating_mul(2),
                _ => out,
            };
            op["min"] = json!(min.to_string());
        }
        if self.r.chance(self.p.bad) {
            match self.r.below(8) {
                0 => op["fee"] = json!(self.r.log(1 << 50).to_string()),
                1 => op["dout"] = op["din"].clone(),
                2 => op["dout"] = json!("uother"),
                3 => op["din"] = json!("uother"),
                4 => op["amt"] = json!("0"),
                5 => op["sender"] = json!("X"),
                6 => {
                    op["target"] = json!("tick");
                    let x = *self.r.pick(&[i64::MAX, i64::MIN, 1i64 << 35, -(1i64 << 35), (1i64 << 32)]);
                    op["bound"] = json!(obs::tick_int(x));
                    op["boundx"] = json!(x.to_string());
                }
                _ => op["fee"] = json!("1"),
            }
        }
        op
    }
    pub fn auth(&mut self, s: &Sim) -> Value {
        let acts = ["transfer_admin", "cancel_transfer", "reject_admin", "claim_admin", "renounce", "offer_mod", "reject_mod",
            "claim_mod", "set_active", "set_fee", "set_recip"];
        let act = *self.r.pick(&acts);
        let act = if act == "renounce" && self.r.chance(85) { "transfer_admin" } else { act };
        let right = match act {
            "claim_admin" | "reject_admin" => s.misc("aoff"),
            "claim_mod" | "reject_mod" => s.misc("moff"),
            "set_active" => if self.r.chance(50) { s.misc("mod") } else { s.misc("admin") },
            _ => s.misc("admin"),
        };
        let sender = if self.r.chance(62) && !right.is_empty() { right } else { self.actor(s) };
        let fee = match self.r.below(7) {
            0 => 50_000_000_000_000_001,
            1 => 50_000_000_000_000_000,
            2 => 0,
            3 => self.r.log(1 << 120),
            _ => self.r.below(50_000_000_000_000_000) as u128,
        };
        let flag = match s.o.misc["active"].as_bool() {
            Some(false) => self.r.chance(75),
            _ => self.r.chance(40),
        };
        auth(&sender, act, &self.addr(s), flag, fee)
    }
    pub fn sudo(&mut self, s: &Sim) -> Value {
        let act = *self.r.pick(&["transfer_admin", "transfer_admin", "remove_admin", "set_active", "set_active", "swap_out"]);
        let flag = self.r.chance(70);
        sudo(act, &self.addr(s), flag)
    }
    pub fn donate(&mut self) -> Value {
        json!({"k": "donate", "sender": "carol", "funds": [coin(*self.r.pick(&["uquote", "ubase", "uother"]), 1 + self.r.below(50) as u128)], "blk": []})
    }
    pub fn next(&mut self, s: &Sim) -> Value {
        let mut w = self.p.w;
        let live = s.o.orders.len();
        if live > self.p.live {
            w[0] /= 5;
        }
        if live < 3 && w[0] > 0 {
            w[0] *= 3;
        }
        let total: u64 = w.iter().sum();
        let mut x = self.r.below(total);
        let mut k = 0;
        while x >= w[k] {
            x -= w[k];
            k += 1;
        }
        let mut op = match k {
            0 => self.place(s),
            1 => self.cancel(s),
            2 => self.claim(s),
            3 => self.batch(s),
            4 => self.swap(s),
            5 => self.auth(s),
            6 => self.sudo(s),
            7 => json!({"k": "migrate", "sender": "chain", "funds": [], "blk": []}),
            _ => self.donate(),
        };
        if self.r.chance(self.p.blk) {
            let mut c: Vec<String> = vec![s.misc("recip"), s.misc("recip"), op["sender"].as_str().unwrap_or("").into(), self.user()];
            for o in s.o.orders.values() {
                c.push(o.owner.clone());
            }
            let mut blk = vec![self.r.pick(&c).clone()];
            if self.r.chance(30) {
                blk.push(self.r.pick(&c).clone());
            }
            op["blk"] = json!(blk);
        }
        op
    }
    fn bound_pair(&mut self, s: &Sim) -> Value {
        if self.r.chance(50) {
            return json!("none");
        }
        match self.pick_order(s, None) {
            Some((i, t, _)) => json!([t + *self.r.pick(&[0i64, 0, 0, 1, -1]), (i as i64 + *self.r.pick(&[0i64, 0, 0, 1, -1])).max(0)]),
            None => json!([0, 0]),
        }
    }
    fn limit(&mut self) -> Value {
        match self.r.below(7) {
            0 | 1 => json!("none"),
            2 => json!(*self.r.pick(&[0u64, 101, 127, 128, 255, 256, 257, 300, 511, 512, 65_535, 65_536, 65_537, 2_000_000_000])),
            3 => json!(1),
            4 => json!(self.r.below(130)),
            5 => json!(*self.r.pick(&["none", "huge", "huge"])),
            _ => json!(self.r.below(6)),
        }
    }
    pub fn query(&mut self, s: &Sim) -> Value {
        let known: Vec<i64> = s.o.ticks.keys().copied().collect();
        match self.r.below(20) {
            0..=3 => {
                let dir = *self.r.pick(&["ask", "bid"]);
                let amt = self.amount(s, dir);
                let mut q = json!({"k": "calc_out", "din": rest_denom(dir), "amt": amt.to_string(), "dout": rest_denom(opp(dir)),
                    "fee": "0", "alt": self.r.chance(50)});
                if self.r.chance(12) {
                    match self.r.below(4) {
                        0 => q["fee"] = json!(self.r.log(1 << 60).to_string()),
                        1 => q["dout"] = json!(*self.r.pick(&["uother", "uquote", "ubase"])),
                        2 => q["amt"] = json!("0"),
                        _ => q["din"] = json!("uother"),
                    }
                }
                q
            }
            4 | 5 => {
                let mut q = json!({"k": "spot", "quote": "uquote", "base": "ubase"});
                if self.r.chance(50) {
                    q = json!({"k": "spot", "quote": "ubase", "base": "uquote"});
                }
                if self.r.chance(10) {
                    q["quote"] = json!(*self.r.pick(&["uother", "uquote", "ubase"]));
                }
                q
            }
            6 => json!({"k": "liq"}),
            7 => json!({"k": *self.r.pick(&["active", "fee", "swap_fee", "denoms", "state", "calc_in"])}),
            8 => json!({"k": "auth", "who": *self.r.pick(&["admin", "aoff", "mod", "moff"])}),
            9 | 10 => {
                let b = |g: &mut Self| if g.r.chance(55) || known.is_empty() { json!("none") } else { json!(*g.r.pick(&known) + *g.r.pick(&[0i64, 0, 1, -1])) };
                json!({"k": "all_ticks", "from": b(self), "to": b(self), "limit": self.limit()})
            }
            11 => {
                let mut ids: Vec<i64> = vec![];
                for _ in 0..self.r.below(4) {
                    if !known.is_empty() {
                        ids.push(*self.r.pick(&known));
                    }
                }
                if self.r.chance(12) {
                    ids.push(123);
                }
                json!({"k": "ticks_by_id", "ids": ids})
            }
            12..=14 => {
                let owner = self.anyone(s, 5);
                json!({"k": "by_owner", "owner": owner, "from": self.bound_pair(s), "to": self.bound_pair(s), "limit": self.limit()})
            }
            15 | 16 => {
                let t = if known.is_empty() || self.r.chance(8) { 55 } else { *self.r.pick(&known) };
                let b = |g: &mut Self| {
                    if g.r.chance(50) {
                        json!("none")
                    } else {
                        json!(g.r.below(s.o.misc["oid"].as_u64().unwrap_or(0) + 2))
                    }
                };
                json!({"k": "by_tick", "tick": t, "from": b(self), "to": b(self), "limit": self.limit()})
            }
            17 | 18 => {
                let mut ids: Vec<i64> = vec![];
                for _ in 0..1 + self.r.below(3) {
                    if !known.is_empty() {
                        ids.push(*self.r.pick(&known));
                    }
                }
                if self.r.chance(8) {
                    ids.push(123);
                }
                json!({"k": "unreal", "ids": ids})
            }
            _ => {
                let t = if self.r.chance(50) { self.r.range(MIN_TICK, MAX_TICK) } else { 9_000_000 * self.r.range(-13, 21) + self.r.range(-2, 2) };
                json!({"k": "price", "tick": t})
            }
        }
    }
}

/// every query on every subject: the full picture at the end of a run
pub fn full_queries(s: &Sim) -> Vec<Value> {
    let mut q = vec![];
    for k in ["liq", "active", "fee", "swap_fee", "denoms", "state"] {
        q.push(json!({"k": k}));
    }
    for w in ["admin", "aoff", "mod", "moff"] {
        q.push(json!({"k": "auth", "who": w}));
    }
    q.push(json!({"k": "spot", "quote": "uquote", "base": "ubase"}));
    q.push(json!({"k": "spot", "quote": "ubase", "base": "uquote"}));
    q.push(json!({"k": "all_ticks", "from": "none", "to": "none", "limit": "none"}));
    let ids: Vec<i64> = s.o.ticks.keys().copied().collect();
    q.push(json!({"k": "ticks_by_id", "ids": ids}));
    q.push(json!({"k": "unreal", "ids": ids}));
    for u in USERS {
        // page through everything the owner has
        let mut from = json!("none");
        for _ in 0..8 {
            let qq = json!({"k": "by_owner", "owner": u, "from": from, "to": "none", "limit": 3});
            let a = ops::query(&s.ch, &qq);
            q.push(qq);
            let rows = a["r"][1].as_array().cloned().unwrap_or_default();
            if rows.len() < 3 {
                break;
            }
            let l = rows.last().unwrap();
            from = json!([l[0], l[1].as_u64().unwrap_or(0) + 1]);
        }
        q.push(json!({"k": "by_owner", "owner": u, "from": "none", "to": "none", "limit": "none"}));
    }
    for t in ids {
        q.push(json!({"k": "by_tick", "tick": t, "from": "none", "to": "none", "limit": "none"}));
    }
    q
}

fn setting(r: &mut Rng) -> (u64, Vec<(&'static str, &'static str)>) {
    // some books are old: identifiers have passed, or are about to pass, a round number
    let ids = if r.chance(35) { *r.pick(&[250u64, 65_530, (1 << 24) - 3, (1 << 32) - 6, (1 << 32) + 40, (1 << 53) - 5, (1 << 63) - 6]) } else { 0 };
    let mut names = vec![];
    if r.chance(40) {
        names.extend(*r.pick(&TOKEN_NAMES));
        names.extend_from_slice(*r.pick(&PEOPLE_NAMES));
    }
    (ids, names)
}
fn stream(p: &Prof, c: usize) -> u64 {
    c as u64 * 1000 + p.name.bytes().fold(0u64, |a, b| a * 31 + b as u64)
}
/// whether the first history of this seed has plain names and identifiers from zero
pub fn plain(p: &Prof, seed: u64) -> bool {
    let mut r = Rng::new(seed, stream(p, 0));
    (p.ticks)(&mut r);
    let (ids, names) = setting(&mut r);
    ids == 0 && names.is_empty()
}

pub fn drive(rec: &mut Rec, p: &Prof, seed: u64) {
    for c in 0..p.chains {
        let stream = stream(p, c);
        let mut r = Rng::new(seed, stream);
        let ticks = (p.ticks)(&mut r);
        let (ids, names) = setting(&mut r);
        let mut s = Sim::named(rec, p.name, ids, names);
        s.heavy = p.heavy;
        let mut g = Gen { r, p, ticks };
        if g.r.chance(p.fee) {
            let fee = match g.r.below(3) {
                0 => 50_000_000_000_000_000,
                _ => g.r.below(50_000_000_000_000_000) as u128,
            };
            s.act(&auth(GOV, "set_fee", "", false, fee));
            if g.r.chance(40) {
                let to = g.user();
                s.act(&auth(GOV, "set_recip", &to, false, 0));
            }
        }
        for step in 0..p.len {
            if g.r.chance(30) {
                // blocks follow each other in seconds; nobody may come for months
                let gap = if g.r.chance(6) { *g.r.pick(&[3_600_000_000_000u64, 90_000_000_000_000, 700_000_000_000_000, 9_000_000_000_000_000, 40_000_000_000_000_000]) } else { 10_000_000_000 };
                s.ch.now += 1 + g.r.below(gap);
            }
            let op = g.next(&s);
            let ok = s.act(&op);
            let mut ex = Extra::default();
            for _ in 0..p.q {
                let q = g.query(&s);
                ex.queries.push(q);
            }
            if step + 1 == p.len {
                ex.queries.extend(full_queries(&s));
            }
            let big = s.o.orders.len() > 60;
            if (ok && op["k"] == "cancel" && (!big || step % 40 == 0)) || step + 1 == p.len {
                for t in s.o.ticks.keys() {
                    for d in ["ask", "bid"] {
                        if obs::has_tree(&s.ch, *t, d) && (step + 1 == p.len || op["tick"] == *t) {
                            ex.trees.push((*t, d.to_string()));
                        }
                    }
                }
            }
            s.extra(&ex);
        }
    }
}

/// creation with good and bad parameters, each followed by a first trade
pub fn creations(rec: &mut Rec, seed: u64) {
    let mut r = Rng::new(seed, 77);
    let denoms = ["uquote", "ubase", "uother"];
    for q in denoms {
        for b in denoms {
            for (qs, bs) in [(true, true), (true, false), (false, true), (false, false)] {
                let mut op = create_op(q, b);
                op["qsupply"] = json!(qs);
                op["bsupply"] = json!(bs);
                if q == b {
                    op["qsupply"] = json!(qs || bs);
                    op["bsupply"] = json!(qs || bs);
                }
                op["sender"] = json!(*r.pick(&USERS));
                let ch = Chain::new(1_000_000_000, vec![]);
                let o = obs::observe(&ch);
                let mut s = Sim { ch, o, at: 0, rec, prof: "create".into(), deposited: [0; 3], names: vec![], heavy: false };
                if !s.act(&op) {
                    continue;
                }
                let mut qs = full_queries(&s);
                qs.push(json!({"k": "spot", "quote": q, "base": b}));
                qs.push(json!({"k": "spot", "quote": b, "base": q}));
                qs.push(json!({"k": "calc_out", "din": q, "amt": "1", "dout": b, "fee": "0", "alt": true}));
                s.extra(&Extra { queries: qs, trees: vec![] });
                for d in ["bid", "ask"] {
                    let (rest, earn) = if d == "bid" { (q, b) } else { (b, q) };
                    let t = r.range(-5, 5);
                    let id = s.o.misc["oid"].as_u64().unwrap_or(0);
                    let mut pl = place("alice", t, d, 4, "none", s.ch.now);
                    pl["funds"] = json!([coin(rest, 4)]);
                    s.act(&pl);
                    let mut sw = swap("bob", opp(d), 2, 0, None, s.ch.now);
                    sw["din"] = json!(earn);
                    sw["dout"] = json!(rest);
                    s.act(&sw);
                    s.act(&claim("carol", t, id));
                    s.act(&json!({"k": "migrate", "sender": "chain", "funds": [], "blk": []}));
                    let mut sw2 = sw.clone();
                    sw2["amt"] = json!("5");
                    s.act(&sw2);
                    s.act(&cancel("alice", t, id));
                    let f = full_queries(&s);
                    s.extra(&Extra { queries: f, trees: vec![] });
                }
            }
        }
    }
}

/// the price of many ticks, and ticks outside the range wherever a tick is given
pub fn grid(rec: &mut Rec, seed: u64, scale: f64) {
    let mut r = Rng::new(seed, 78);
    let mut ts: Vec<i64> = vec![];
    for k in -12..=20i64 {
        let b = 9_000_000 * k;
        for d in [-1_000_000, -2, -1, 0, 1, 2, 9, 10, 99, 1000, 999_999, 1_000_000, 4_500_000, 8_999_990] {
            ts.push(b + d);
        }
        for _ in 0..(60.0 * scale).ceil() as usize {
            let x = b + r.range(0, 8_999_999);
            ts.push(x);
            ts.push(x + 1);
        }
    }
    for d in 0..20 {
        ts.extend([MIN_TICK + d, MAX_TICK - d, MIN_TICK - 1 - d, MAX_TICK + 1 + d]);
    }
    ts.extend([2_000_000_000, -2_000_000_000]);
    let mut s = Sim::new(rec, "grid");
    for c in ts.chunks(40) {
        s.act(&json!({"k": "donate", "sender": "carol", "funds": [coin("uother", 1)], "blk": []}));
        let qs = c.iter().map(|t| json!({"k": "price", "tick": t})).collect();
        s.extra(&Extra { queries: qs, trees: vec![] });
    }
    // the grid as traders see it: one order, traded against at its price
    let n = (24.0 * scale).ceil() as usize;
    for i in 0..n {
        let mut s = Sim::new(s.rec, "grid");
        let t = match i % 4 {
            0 => (9_000_000 * r.range(-12, 20) + r.range(-1, 1)).clamp(MIN_TICK, MAX_TICK),
            1 => r.range(MIN_TICK, MAX_TICK),
            2 => *r.pick(&[MIN_TICK, MAX_TICK, MIN_TICK + 1, MAX_TICK - 1]),
            _ => r.range(-9_000_000, 9_000_000),
        };
        for d in ["bid", "ask"] {
            let q = r.log(1 << 100);
            s.act(&place("alice", t, d, q, "none", s.ch.now));
            let spot = vec![json!({"k": "spot", "quote": "uquote", "base": "ubase"}), json!({"k": "spot", "quote": "ubase", "base": "uquote"}),
                json!({"k": "calc_out", "din": rest_denom(opp(d)), "amt": cost(d, q, t).min(1 << 120).max(1).to_string(), "dout": rest_denom(d), "fee": "0", "alt": false})];
            s.extra(&Extra { queries: spot, trees: vec![] });
            let id = s.o.misc["oid"].as_u64().unwrap_or(1) - 1;
            let v = r.log(q);
            s.act(&swap("bob", opp(d), cost(d, v.max(1), t).max(1).min(1 << 120), 0, None, s.ch.now));
            s.act(&claim("carol", t, id));
        }
        for x in [MIN_TICK - 1, MAX_TICK + 1, MIN_TICK - r.range(1, 1_000_000), MAX_TICK + r.range(1, 1_000_000)] {
            let d = *r.pick(&["ask", "bid"]);
            s.act(&place("alice", x, d, 5, "none", s.ch.now));
            s.act(&swap("bob", d, 5, 0, Some(x), s.ch.now));
        }
        for x in [i64::MAX, i64::MIN, (1i64 << 32) + t, t - (1i64 << 32)] {
            let mut op = place("alice", 0, "ask", 5, "none", s.ch.now);
            op["tick"] = json!(obs::tick_int(x));
            op["tickx"] = json!(x.to_string());
            s.act(&op);
            let mut op = swap("bob", "bid", 5, 0, Some(0), s.ch.now);
            op["bound"] = json!(obs::tick_int(x));
            op["boundx"] = json!(x.to_string());
            s.act(&op);
        }
    }
}

/// books too wide for round numbers (64, 100, 128, 255) to go unnoticed: many ticks in use, many
/// orders of one owner and on one tick, swaps over all of them, large batches, long listings
pub fn wide(rec: &mut Rec, seed: u64, scale: f64) {
    for c in 0..(2.0 * scale).ceil() as usize {
        let mut r = Rng::new(seed, 79 + c as u64);
        let dir = ["ask", "bid"][(c + seed as usize) % 2];
        let oth = opp(dir);
        let (din, dout) = (rest_denom(oth), rest_denom(dir));
        let mut s = Sim::new(rec, "wide");
        // every other book is beyond what a byte can count
        let vast = c % 2 == 1;
        let n = if vast { r.range(258, 262) } else { r.range(131, 140) };
        let step = *r.pick(&[1i64, 7, 1_000, 150_000]);
        let sgn = if dir == "ask" { 1 } else { -1 };
        let mut order: Vec<i64> = (0..n).collect();
        r.shuffle(&mut order);
        // one crowded tick in the middle, at a price near 1
        let crowd = n / 2;
        for i in &order {
            let owner = if r.chance(90) { "alice" } else { "bob" };
            s.act(&place(owner, sgn * i * step, dir, r.range(2, 9) as u128, "none", s.ch.now));
        }
        for _ in 0..if vast { r.range(257, 260) } else { r.range(104, 110) } {
            s.act(&place("alice", sgn * crowd * step, dir, r.range(1, 3) as u128, "none", s.ch.now));
        }
        // a few on the other side too, behind the best price
        for i in 1..4 {
            s.act(&place("bob", -sgn * i * step, oth, 3, "none", s.ch.now));
        }
        let mut q = full_queries(&s);
        q.retain(|x| x["k"] != "by_owner" || x["limit"] == "none");
        q.retain(|x| x["k"] != "by_tick" || x["tick"] == sgn * crowd * step);
        for l in [json!(99), json!(100), json!(101), json!(128), json!(250), json!(256), json!(257), json!(65_536), json!("huge")] {
            q.push(json!({"k": "by_owner", "owner": "alice", "from": "none", "to": "none", "limit": l}));
        }
        for l in [json!(64), json!(100), json!(101), json!(105), json!(250), json!(256), json!(257), json!(300), json!(65_536), json!("huge")] {
            q.push(json!({"k": "by_tick", "tick": sgn * crowd * step, "from": "none", "to": "none", "limit": l}));
            q.push(json!({"k": "all_ticks", "from": "none", "to": "none", "limit": l}));
        }
        // page through the owner's orders
        let mut from = json!("none");
        let size = r.range(30, 90);
        for _ in 0..10 {
            let qq = json!({"k": "by_owner", "owner": "alice", "from": from, "to": "none", "limit": size});
            let rows = ops::query(&s.ch, &qq)["r"][1].as_array().cloned().unwrap_or_default();
            q.push(qq);
            if rows.len() < size as usize {
                break;
            }
            let l = rows.last().unwrap();
            from = json!([l[0], l[1].as_u64().unwrap_or(0) + 1]);
        }
        let total = |s: &Sim, k: usize| -> u128 { s.liquid(dir).iter().take(k).map(|t| cost(dir, s.tal(*t, dir), *t)).sum() };
        for k in [10, 64, 65, 100, 101, 127, 140, 254, 255, 256, 257] {
            q.push(json!({"k": "calc_out", "din": din, "amt": total(&s, k).to_string(), "dout": dout, "fee": "0", "alt": k % 2 == 0}));
        }
        s.extra(&Extra { queries: q, trees: vec![] });
        // what touches little of a crowded book costs little
        let live = s.liquid(dir);
        let mid = sgn * crowd * step;
        let some: Vec<u64> = s.o.orders.iter().filter(|(_, o)| o.tick == mid).map(|(i, _)| *i).collect();
        for (a, b) in [(1, 0), (4, 0), (4, 1), (40, 3)] {
            s.act(&swap("carol", oth, a, 0, Some(live[b]), s.ch.now));
        }
        s.act(&swap("carol", oth, 3, 0, None, s.ch.now));
        s.act(&swap("carol", oth, 3, 1_000, None, s.ch.now));
        s.act(&swap("carol", oth, total(&s, 3), 0, Some(mid), s.ch.now));
        s.act(&swap("carol", dir, 2, 0, None, s.ch.now));
        for i in [some[0], some[some.len() / 2], some[some.len() - 1]] {
            s.act(&claim("carol", mid, i));
            s.act(&cancel("carol", mid, i));
            s.act(&batch("carol", &[(mid, i)]));
            s.act(&batch("carol", &[(mid, 1 << 40), (mid, i)]));
            s.act(&batch("carol", &[(mid, i), (mid + 1, i), (mid, i)]));
            s.act(&cancel("alice", mid, i));
        }
        s.act(&claim("carol", mid, 1 << 40));
        s.act(&cancel("alice", mid, 1 << 40));
        s.act(&place("alice", mid, oth, 1, "none", s.ch.now));
        s.act(&place("alice", mid, dir, 1, "none", s.ch.now));
        s.act(&sudo("set_active", "", false));
        s.act(&sudo("set_active", "", true));
        // several ways to take it all, from the same book
        let fork = (s.ch.clone(), s.o.clone(), s.at, s.deposited);
        let mut after = vec![];
        for way in 0..4 {
            (s.ch, s.o, s.at, s.deposited) = fork.clone();
            let all = total(&s, 1000);
            let live = s.liquid(dir);
            let last = live[live.len() - 1];
            match way {
                0 => s.act(&swap("carol", oth, all + 5, 0, None, s.ch.now)),
                1 => s.act(&swap("carol", oth, total(&s, r.range(66, 99) as usize) + 1, 0, Some(last), s.ch.now)),
                2 => s.act(&swap("carol", oth, all, 0, Some(live[r.range(102, 125).min(live.len() as i64 - 1) as usize]), s.ch.now)),
                _ => s.act(&swap("carol", oth, total(&s, if vast { 257 } else { 129 }), 0, None, s.ch.now)),
            };
            after.push((s.ch.clone(), s.o.clone(), s.at, s.deposited));
        }
        for (way, fork) in after.into_iter().enumerate() {
            (s.ch, s.o, s.at, s.deposited) = fork;
            if way == 1 || way == 2 {
                let mut keys: Vec<(i64, u64)> = s.o.orders.iter().filter(|(_, o)| o.cl != "0").map(|(i, o)| (o.tick, *i)).collect();
                r.shuffle(&mut keys);
                keys.truncate(101);
                if keys.len() == 101 {
                    s.act(&batch("carol", &keys));
                }
                // far too many entries, whatever they are and however they are counted
                for n in [128, 200, 255, 256, 257, 300, 356, 512, 600, 1_025] {
                    let many: Vec<(i64, u64)> = keys.iter().cycle().take(n).copied().collect();
                    s.act(&batch("carol", &many));
                }
                keys.truncate(100);
                s.act(&batch("carol", &keys));
            }
            if way == 2 {
                // cancel from both ends and the middle of the crowded tick
                for _ in 0..12 {
                    let v: Vec<(u64, i64, String)> = s.o.orders.iter().filter(|(_, o)| o.cl == "0" && o.dir == dir).map(|(i, o)| (*i, o.tick, o.owner.clone())).collect();
                    if v.is_empty() {
                        break;
                    }
                    let (i, t, u) = v[*r.pick(&[0, v.len() - 1, v.len() / 2])].clone();
                    s.act(&cancel(&u, t, i));
                }
            }
            let mut q: Vec<Value> = [json!("none"), json!(100), json!(130)].iter().map(|l| json!({"k": "by_owner", "owner": "alice", "from": "none", "to": "none", "limit": l})).collect();
            q.push(json!({"k": "all_ticks", "from": "none", "to": "none", "limit": "none"}));
            q.push(json!({"k": "liq"}));
            let ids: Vec<i64> = s.o.ticks.keys().copied().collect();
            q.push(json!({"k": "ticks_by_id", "ids": ids}));
            q.push(json!({"k": "unreal", "ids": ids}));
            s.extra(&Extra { queries: q, trees: vec![] });
        }
    }
}

/// one tick that grows: at each size the same placement, swap and claims are made again, with the
/// fill frontier in the middle of the recorded cancels, so that their cost can be compared
pub fn ladder(rec: &mut Rec, _seed: u64, scale: f64) {
    let top = if scale > 4.0 { 9 } else { 8 };
    for dir in ["bid", "ask"] {
        let mut s = Sim::new(rec, "ladder");
        let id = |s: &Sim| s.o.misc.get("oid").and_then(|x| x.as_u64()).unwrap_or(0);
        // the cost on a tick without any cancel
        s.act(&place("bob", 0, dir, 2, "none", s.ch.now));
        s.act(&swap("dave", opp(dir), 1, 0, None, s.ch.now));
        s.act(&claim("dave", 0, 0));
        s.act(&swap("dave", opp(dir), 1, 0, None, s.ch.now));
        s.act(&claim("dave", 0, 0));
        let mut head: Option<u64> = None;
        for e in 0..=top {
            // so many cancels in this round: 1, 1, 2, 4, 8, ..
            let n: u64 = if e == 0 { 1 } else { 1 << (e - 1) };
            let a0 = id(&s);
            for _ in 0..n / 2 {
                s.act(&place("alice", 0, dir, 2, "none", s.ch.now));
            }
            let h = id(&s);
            s.act(&place("bob", 0, dir, 10, "none", s.ch.now));
            for _ in n / 2..n {
                s.act(&place("alice", 0, dir, 2, "none", s.ch.now));
            }
            s.act(&place("carol", 0, dir, 1000, "none", s.ch.now));
            for i in (a0..a0 + n + 1).filter(|i| *i != h) {
                s.act(&cancel("alice", 0, i));
            }
            if e == 0 {
                s.act(&swap("dave", opp(dir), 2, 0, None, s.ch.now));
                s.act(&claim("dave", 0, h));
                head = Some(h);
                continue;
            }
            // the rest of the last head and of what stands behind it, then into this round's head
            let old = head.unwrap_or(h);
            let left: u128 = s.o.orders.range(..h).map(|(_, o)| o.qty - o.fi.parse::<u128>().unwrap_or(0)).sum();
            s.act(&swap("dave", opp(dir), left + 3, 0, None, s.ch.now));
            s.act(&claim("dave", 0, old));
            s.act(&swap("dave", opp(dir), 1, 0, None, s.ch.now));
            s.act(&claim("dave", 0, h));
            head = Some(h);
        }
    }
}

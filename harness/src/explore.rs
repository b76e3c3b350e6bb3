//! Exhaustive exploration of the real contract within small scopes: every
//! message of a finite alphabet in every reachable state.
use crate::chain::Chain;
use crate::gen::{auth, batch, cancel, claim, create_op, place, sudo, swap};
use crate::obs::{self, Obs};
use crate::ops;
use crate::rec::{Extra, Rec};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};

pub const GOV: &str = "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp";

struct Scope {
    name: &'static str,
    setup: Vec<Value>,
    alphabet: Box<dyn Fn(&Obs) -> Vec<Value>>,
    queries: Box<dyn Fn(&Obs) -> Vec<Value>>,
    trees: bool,
}

fn free(o: &Obs, dir: &str) -> u128 {
    o.orders.values().filter(|x| x.dir == dir).map(|x| x.qty - x.fi.parse::<u128>().unwrap_or(0).min(x.qty)).sum()
}
fn placed(o: &Obs) -> u64 {
    o.misc["oid"].as_u64().unwrap_or(0)
}

fn lifecycle(o: &Obs, v: &mut Vec<Value>) {
    for (i, x) in &o.orders {
        v.push(cancel(&x.owner, x.tick, *i));
        v.push(claim("keeper", x.tick, *i));
    }
    // nobody else may cancel, whatever role they hold
    if let Some((i, x)) = o.orders.iter().next() {
        v.push(cancel(GOV, x.tick, *i));
        v.push(cancel("keeper", x.tick, *i));
    }
}
const OWN: [&str; 3] = ["alice", "bob", "carol"];

/// orders are placed one by one with sizes cycling through `sizes`
fn queue(name: &'static str, tick: i64, dir: &'static str, sizes: Vec<u128>, max: u64, swaps: Vec<u128>, first: u64) -> Scope {
    let mk = dir;
    let taker = if dir == "ask" { "bid" } else { "ask" };
    let sz = sizes.clone();
    let pl = move |i: u64| place(OWN[(i % 3) as usize], tick, mk, sz[i as usize % sz.len()], "none", 1_000_000_000 + i);
    let setup = (0..first).map(&pl).collect();
    Scope {
        name,
        setup,
        alphabet: Box::new(move |o| {
            let mut v = vec![];
            if placed(o) < max {
                v.push(pl(placed(o)));
            }
            lifecycle(o, &mut v);
            if free(o, dir) > 0 {
                for a in &swaps {
                    v.push(swap("dave", taker, *a, 0, None, 1));
                }
            }
            v
        }),
        queries: Box::new(move |o| if o.ticks.is_empty() { vec![] } else { vec![json!({"k": "unreal", "ids": [tick]})] }),
        trees: true,
    }
}

fn scopes(name: &str) -> Vec<Scope> {
    match name {
        // one queue at price 1: every interleaving of placing, cancelling, filling, claiming
        "queue" => vec![
            queue("queue4", 0, "ask", vec![2, 1, 2, 1], 4, vec![1, 2, 4], 0),
            queue("queue5", 0, "bid", vec![1, 2, 1, 1, 2], 5, vec![1, 3], 5),
        ],
        "queue6" => vec![queue("queue6", 0, "ask", vec![1, 2, 1, 1, 2, 1], 6, vec![1, 2, 4], 6)],
        "queue7" => vec![queue("queue7", 0, "bid", vec![1, 1, 2, 1, 1, 1, 1], 7, vec![1, 2, 3], 7)],
        // prices that do not divide evenly
        "round" => vec![
            queue("round-half", -5_000_000, "ask", vec![3, 2, 1], 3, vec![1, 2, 3], 0),
            queue("round-half-bid", -5_000_000, "bid", vec![2, 1, 2], 3, vec![1, 2, 3, 5], 0),
            queue("round-three", 2_333_333, "ask", vec![2, 1, 2], 3, vec![2, 3, 4, 7], 0),
            queue("round-three-bid", 2_333_333, "bid", vec![3, 4, 2], 3, vec![1, 2], 0),
        ],
        // two ticks and both sides, with targets
        "sides" => vec![Scope {
            name: "sides",
            setup: vec![],
            alphabet: Box::new(|o| {
                let n = placed(o);
                let mut v = vec![];
                if n < 4 {
                    let q = 1 + (n % 2) as u128;
                    for (t, d) in [(0i64, "ask"), (0, "bid"), (1_000_000, "ask"), (1_000_000, "bid")] {
                        v.push(place(OWN[(n % 3) as usize], t, d, q, "none", 7));
                    }
                }
                lifecycle(o, &mut v);
                for d in ["ask", "bid"] {
                    let side = if d == "ask" { "bid" } else { "ask" };
                    if free(o, side) == 0 {
                        continue;
                    }
                    v.push(swap("dave", d, 1, 0, None, 1));
                    v.push(swap("dave", d, 3, 0, None, 1));
                    v.push(swap("dave", d, 3, 0, Some(if d == "ask" { 1_000_000 } else { 0 }), 1));
                }
                v
            }),
            queries: Box::new(|o| {
                let mut q = vec![];
                if free(o, "ask") > 0 {
                    q.push(json!({"k": "calc_out", "din": "uquote", "amt": "3", "dout": "ubase", "fee": "0", "alt": false}));
                }
                if free(o, "bid") > 0 {
                    q.push(json!({"k": "calc_out", "din": "ubase", "amt": "2", "dout": "uquote", "fee": "0", "alt": true}));
                }
                q.push(json!({"k": "spot", "quote": "uquote", "base": "ubase"}));
                q
            }),
            trees: false,
        }],
        // all role and switch messages by everybody, to closure
        "roles" => vec![Scope {
            name: "roles",
            setup: vec![auth(GOV, "offer_mod", "bob", false, 0), auth("bob", "claim_mod", "", false, 0),
                        auth(GOV, "transfer_admin", "alice", false, 0), auth("alice", "claim_admin", "", false, 0)],
            alphabet: Box::new(|_| {
                let mut v = vec![];
                for s in ["alice", "bob", "carol"] {
                    for a in ["alice", "bob"] {
                        v.push(auth(s, "transfer_admin", a, false, 0));
                        v.push(auth(s, "offer_mod", a, false, 0));
                    }
                    for act in ["cancel_transfer", "reject_admin", "claim_admin", "renounce", "reject_mod", "claim_mod"] {
                        v.push(auth(s, act, "", false, 0));
                    }
                    for f in [true, false] {
                        v.push(auth(s, "set_active", "", f, 0));
                    }
                    v.push(auth(s, "set_fee", "", false, 50_000_000_000_000_001));
                    v.push(auth(s, "set_fee", "", false, 0));
                    v.push(auth(s, "set_recip", "osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6", false, 0));
                }
                v.push(sudo("transfer_admin", "bob", false));
                v.push(sudo("remove_admin", "", false));
                v.push(sudo("set_active", "", false));
                v.push(sudo("set_active", "", true));
                v
            }),
            queries: Box::new(|_| vec![json!({"k": "auth", "who": "admin"}), json!({"k": "auth", "who": "aoff"}),
                json!({"k": "auth", "who": "mod"}), json!({"k": "auth", "who": "moff"}), json!({"k": "active"})]),
            trees: false,
        }],
        // the switch against every message of a small book
        "pause" => vec![Scope {
            name: "pause",
            setup: vec![],
            alphabet: Box::new(|o| {
                let n = placed(o);
                let mut v = vec![];
                if n < 3 {
                    v.push(place("alice", 0, "ask", 2, "none", 7));
                } else {
                    v.push(place("bob", 0, "ask", 0, "none", 7));
                }
                lifecycle(o, &mut v);
                v.push(batch("keeper", &o.orders.iter().map(|(i, x)| (x.tick, *i)).collect::<Vec<_>>()));
                v.push(swap("dave", "bid", 1, 0, None, 1));
                v.push(swap("dave", "bid", 2, 0, Some(0), 1));
                for s in ["alice", GOV] {
                    v.push(auth(s, "set_active", "", false, 0));
                    v.push(auth(s, "set_active", "", true, 0));
                }
                v.push(sudo("set_active", "", false));
                v.push(sudo("set_active", "", true));
                v.push(json!({"k": "migrate", "sender": "chain", "funds": [], "blk": []}));
                v
            }),
            queries: Box::new(|o| {
                let mut q = vec![json!({"k": "active"}), json!({"k": "liq"}),
                    json!({"k": "by_owner", "owner": "alice", "from": "none", "to": "none", "limit": "none"})];
                if free(o, "ask") > 0 {
                    q.push(json!({"k": "calc_out", "din": "uquote", "amt": "1", "dout": "ubase", "fee": "0", "alt": false}));
                }
                q
            }),
            trees: false,
        }],
        // undeliverable payments at every point
        "fault" => vec![Scope {
            name: "fault",
            setup: vec![auth(GOV, "set_fee", "", false, 50_000_000_000_000_000), auth(GOV, "set_recip", "erin", false, 0)],
            alphabet: Box::new(|o| {
                let n = placed(o);
                let mut v = vec![];
                if n < 2 {
                    v.push(place(OWN[n as usize], 0, "ask", 200, "10000000000000000", 7));
                }
                let mut w = vec![];
                lifecycle(o, &mut w);
                w.push(batch("keeper", &o.orders.iter().map(|(i, x)| (x.tick, *i)).collect::<Vec<_>>()));
                w.push(swap("dave", "bid", 150, 0, None, 1));
                w.push(swap("dave", "bid", 300, 0, None, 1));
                w.push(swap("dave", "bid", 500, 0, Some(0), 1));
                for blk in [vec![], vec!["alice"], vec!["bob"], vec!["keeper"], vec!["erin"], vec!["dave"]] {
                    for x in &w {
                        let mut y = x.clone();
                        y["blk"] = json!(blk);
                        v.push(y);
                    }
                }
                v
            }),
            queries: Box::new(|_| vec![]),
            trees: false,
        }],
        // claims in batches: every order of every subset
        "batch" => vec![Scope {
            name: "batch",
            setup: (0..3).map(|i| place(OWN[i], (i as i64 % 2) * 1_000_000, "ask", 2, if i == 1 { "10000000000000000" } else { "none" }, 7)).collect(),
            alphabet: Box::new(|o| {
                let mut v = vec![];
                for (i, x) in &o.orders {
                    v.push(cancel(&x.owner, x.tick, *i));
                }
                if free(o, "ask") > 0 {
                    v.push(swap("dave", "bid", 2, 0, None, 1));
                    v.push(swap("dave", "bid", 3, 0, None, 1));
                }
                let all = [(0i64, 0u64), (1_000_000, 1), (0, 2), (1_000_000, 0), (5, 5)];
                for a in all {
                    v.push(batch("keeper", &[a]));
                    for b in all {
                        v.push(batch("keeper", &[a, b]));
                        if a != b {
                            v.push(batch("keeper", &[a, b, all[2]]));
                        }
                    }
                }
                v
            }),
            queries: Box::new(|_| vec![]),
            trees: false,
        }],
        n => panic!("scope {n}"),
    }
}

fn key(ch: &Chain) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    ch.store.m.hash(&mut h);
    for (d, a) in &ch.bal {
        d.hash(&mut h);
        a.to_string().hash(&mut h);
    }
    h.finish()
}

pub fn explore(rec: &mut Rec, name: &str, max: usize) {
    for sc in scopes(name) {
        let mut ch = Chain::new(1_000_000_000, vec![]);
        let mut o = obs::observe(&ch);
        let mut at = 0;
        let mut setup = vec![create_op("uquote", "ubase")];
        setup.extend(sc.setup.iter().cloned());
        for op in &setup {
            let (n, _, next) = rec.step(&mut ch, &o, at, sc.name, op);
            at = n;
            o = next;
        }
        let mut seen: HashSet<u64> = HashSet::new();
        seen.insert(key(&ch));
        let start = rec.nodes.len();
        let mut todo: VecDeque<(usize, Chain, Obs)> = VecDeque::new();
        todo.push_back((at, ch, o));
        while let Some((at, ch, o)) = todo.pop_front() {
            if rec.nodes.len() - start > max {
                eprintln!("{{\"scope\": \"{}\", \"truncated\": true}}", sc.name);
                break;
            }
            for op in (sc.alphabet)(&o) {
                let mut c = ch.clone();
                let (n, out, next) = rec.step(&mut c, &o, at, sc.name, &op);
                if out.ok && seen.insert(key(&c)) {
                    let mut ex = Extra { queries: (sc.queries)(&next), trees: vec![] };
                    if sc.trees && op["k"] == "cancel" {
                        let t = op["tick"].as_i64().unwrap();
                        for d in ["ask", "bid"] {
                            if obs::has_tree(&c, t, d) {
                                ex.trees.push((t, d.to_string()));
                            }
                        }
                    }
                    rec.extra(&c, n, &ex);
                    todo.push_back((n, c, next));
                }
            }
        }
        eprintln!("{{\"scope\": \"{}\", \"nodes\": {}, \"states\": {}}}", sc.name, rec.nodes.len() - start, seen.len());
    }
}

/// Runs recorded or generated operations: JSON lines {"op":…, "p": parent line (0 = new book), "q": queries}.
pub fn replay(rec: &mut Rec, path: &str) {
    let text = std::fs::read_to_string(path).expect("read");
    let lines: Vec<Value> = text.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).expect("json")).collect();
    // children of every line, to keep siblings contiguous
    let mut kids: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, l) in lines.iter().enumerate() {
        kids.entry(l["p"].as_u64().unwrap_or(i as u64) as usize).or_default().push(i + 1);
    }
    let mut todo: VecDeque<(usize, usize, Chain, Obs)> = VecDeque::new();
    for r in kids.get(&0).cloned().unwrap_or_default() {
        let mut ch = Chain::new(1_000_000_000, vec![]);
        let o = obs::observe(&ch);
        let (n, _, next) = one(rec, &mut ch, &o, 0, &lines[r - 1]);
        todo.push_back((r, n, ch, next));
        while let Some((line, at, ch, o)) = todo.pop_front() {
            for k in kids.get(&line).cloned().unwrap_or_default() {
                let mut c = ch.clone();
                let (n, _, next) = one(rec, &mut c, &o, at, &lines[k - 1]);
                todo.push_back((k, n, c, next));
            }
        }
    }
}
fn one(rec: &mut Rec, ch: &mut Chain, o: &Obs, at: usize, l: &Value) -> (usize, bool, Obs) {
    let (n, out, next) = rec.step(ch, o, at, l["prof"].as_str().unwrap_or("replay"), &l["op"]);
    let mut ex = Extra::default();
    for q in l["q"].as_array().cloned().unwrap_or_default() {
        ex.queries.push(q);
    }
    if out.ok && l["op"]["k"] == "cancel" {
        let t = ops::tick_arg(&l["op"]);
        for d in ["ask", "bid"] {
            if obs::has_tree(ch, t, d) {
                ex.trees.push((t, d.to_string()));
            }
        }
    }
    rec.extra(ch, n, &ex);
    (n, out.ok, next)
}

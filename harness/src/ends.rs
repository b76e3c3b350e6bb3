//! Winding a book up (profile "exit") and market orders in pieces (profile "split").
use crate::chain::*;
use crate::gen::*;
use crate::obs::{self, Obs};
use crate::ops;
use crate::rec::{Extra, Rec};
use crate::rng::Rng;
use serde_json::{json, Value};

type Fork = (Chain, Obs, usize, [u128; 3]);
fn fork(s: &Sim) -> Fork {
    (s.ch.clone(), s.o.clone(), s.at, s.deposited)
}
fn back(s: &mut Sim, f: &Fork) {
    (s.ch, s.o, s.at, s.deposited) = f.clone();
}

/// a book after some messages of that profile
fn grown<'a>(rec: &'a mut Rec, p: &'a Prof, prof: &str, mut r: Rng) -> (Sim<'a>, Gen<'a>) {
    let ticks = (p.ticks)(&mut r);
    let mut s = Sim::new(rec, prof);
    s.heavy = p.heavy;
    let len = r.range(p.len as i64 / 4, p.len as i64);
    let mut g = Gen { r, p, ticks };
    if g.r.chance(p.fee) {
        s.act(&auth(GOV, "set_fee", "", false, *g.r.pick(&[1, 997, 20_000_000_000_000_000, 50_000_000_000_000_000])));
    }
    for _ in 0..len {
        let op = g.next(&s);
        s.act(&op);
    }
    (s, g)
}

/// the next thing the owner of order i does to get out; none once it is gone
fn leave(s: &Sim, i: u64, tries: usize) -> Option<Value> {
    let o = s.o.orders.get(&i)?;
    let mut op = if (o.cl != "0") ^ (tries >= 2) { claim(&o.owner, o.tick, i) } else { cancel(&o.owner, o.tick, i) };
    op["exit"] = json!(true);
    Some(op)
}

pub fn exits(rec: &mut Rec, seed: u64, scale: f64) {
    let kinds = ["core", "queue", "zigzag", "extreme", "dust", "fees", "sides", "prices", "volume", "batch"];
    for (k, kind) in kinds.iter().enumerate() {
        for round in 0..scale.ceil() as u64 {
            let p = profile(kind);
            let (mut s, mut g) = grown(&mut *rec, &p, "exit", Rng::new(seed, 7_000 + 100 * k as u64 + round));
            if s.o.misc["active"] != json!(true) || s.o.orders.is_empty() {
                continue;
            }
            let start = fork(&s);
            let ids: Vec<u64> = s.o.orders.keys().copied().collect();
            let mut ways = vec![ids.clone(), ids.iter().rev().copied().collect(), ids.clone()];
            g.r.shuffle(&mut ways[2]);
            let mut begun = vec![];
            for w in &ways {
                back(&mut s, &start);
                let op = leave(&s, w[0], 0).unwrap();
                s.act(&op);
                begun.push(fork(&s));
            }
            for (w, f) in ways.iter().zip(begun) {
                back(&mut s, &f);
                for i in w {
                    for tries in 0..4 {
                        match leave(&s, *i, tries) {
                            Some(op) => s.act(&op),
                            None => break,
                        };
                    }
                }
                let mut trees = vec![];
                for t in s.o.ticks.keys() {
                    for d in ["ask", "bid"] {
                        if obs::has_tree(&s.ch, *t, d) {
                            trees.push((*t, d.to_string()));
                        }
                    }
                }
                s.extra(&Extra { queries: full_queries(&s), trees });
                // and the book goes on
                let mut t = g.ticks.clone();
                t.sort();
                let small = t[t.len() / 2];
                for dir in ["bid", "ask"] {
                    for u in ["alice", "bob"] {
                        let q = s.room(rest_denom(dir)).min(7);
                        if q > 0 {
                            let mut op = place(u, small, dir, q, "none", s.ch.now);
                            op["exit"] = json!(true);
                            s.act(&op);
                        }
                    }
                }
                let all: Vec<u64> = s.o.orders.keys().copied().collect();
                for dir in ["ask", "bid"] {
                    let amt = g.amount(&s, dir);
                    let mut op = swap("carol", dir, amt, 0, None, s.ch.now);
                    op["exit"] = json!(true);
                    s.act(&op);
                }
                for i in all {
                    for tries in 0..4 {
                        match leave(&s, i, tries) {
                            Some(op) => s.act(&op),
                            None => break,
                        };
                    }
                }
            }
        }
    }
}

pub fn pieces(rec: &mut Rec, seed: u64, scale: f64) {
    let kinds = ["core", "prices", "extreme", "dust", "sides", "targets", "volume"];
    for (k, kind) in kinds.iter().enumerate() {
        for round in 0..(2.0 * scale).ceil() as u64 {
            let p = profile(kind);
            let (mut s, mut g) = grown(&mut *rec, &p, "split", Rng::new(seed, 8_000 + 100 * k as u64 + round));
            for _ in 0..6 {
                if s.o.misc["active"] != json!(true) {
                    break;
                }
                let dir = if g.r.chance(50) { "ask" } else { "bid" };
                let dir = if s.liquid(opp(dir)).is_empty() { opp(dir) } else { dir };
                let live = s.liquid(opp(dir));
                if live.is_empty() {
                    break;
                }
                let amt = g.amount(&s, dir);
                if amt < 2 {
                    continue;
                }
                let target = if g.r.chance(40) { Some(*g.r.pick(&live)) } else { None };
                // where to cut: anywhere, near the ends, into crumbs
                let mut cuts: Vec<u128> = match g.r.below(4) {
                    0 => vec![1, amt - 1],
                    1 => vec![amt - 1, 1],
                    2 => vec![amt / 2, amt - amt / 2],
                    _ => {
                        let a = 1 + g.r.log(amt - 1).min(amt - 2);
                        vec![a, amt - a]
                    }
                };
                if g.r.chance(40) && cuts[1] > 2 {
                    let c = cuts.pop().unwrap();
                    let a = 1 + g.r.log(c - 1).min(c - 2);
                    cuts.extend([a, c - a]);
                }
                let start = fork(&s);
                let whole = swap("carol", dir, amt, 0, target, s.ch.now);
                let out = |op: &Value, ch: &Chain| -> Option<u128> {
                    let d = ops::dry(ch, op);
                    d.ok.then(|| d.pay.iter().filter(|p| p.1 == rest_denom(opp(dir))).map(|p| p.2.parse().unwrap_or(0)).sum())
                };
                let most = out(&whole, &s.ch);
                s.act(&whole);
                back(&mut s, &start);
                let Some(most) = most else { continue };
                let mut got = 0u128;
                for c in cuts {
                    let mut op = swap("carol", dir, c, 0, target, s.ch.now);
                    op["most"] = json!(most.to_string());
                    op["got"] = json!(got.to_string());
                    got = got.saturating_add(out(&op, &s.ch).unwrap_or(0));
                    s.act(&op);
                }
                // the book moves on before the next comparison
                for _ in 0..4 {
                    let op = g.next(&s);
                    s.act(&op);
                }
            }
        }
    }
}

/// a tick side on which more orders have been cancelled than on any other book here, one after
/// another and in between, while little rests there
pub fn tall(rec: &mut Rec, seed: u64, scale: f64) {
    let mut r = Rng::new(seed, 9_000);
    let n = ((600.0 * scale) as usize).clamp(600, 5_000);
    let dir = if r.chance(50) { "bid" } else { "ask" };
    let t = *r.pick(&[0i64, 1_000_000, -9_000_000]);
    let mut s = Sim::new(rec, "tall");
    let mut idle: Vec<u64> = vec![];
    for k in 0..n {
        let who = if k % 3 == 0 { "bob" } else { "alice" };
        s.act(&place(who, t, dir, 1 + r.below(3) as u128, "none", s.ch.now));
        if let Some(i) = s.o.orders.keys().last() {
            idle.push(*i);
        }
        // mostly the newest, some from the middle, a few stay
        while idle.len() > 6 || (!idle.is_empty() && r.chance(60)) {
            let j = if r.chance(70) { idle.len() - 1 } else { r.below(idle.len() as u64) as usize };
            let i = idle.remove(j);
            if let Some(o) = s.o.orders.get(&i) {
                let op = if o.cl == "0" { cancel(&o.owner, t, i) } else { claim(&o.owner, t, i) };
                s.act(&op);
            }
        }
        if k % 97 == 96 {
            s.act(&swap("carol", opp(dir), cost(dir, 2, t), 0, None, s.ch.now));
        }
    }
    s.extra(&Extra { queries: full_queries(&s), trees: vec![(t, dir.to_string())] });
    for _ in 0..3 {
        s.act(&place("dave", t, dir, 5, "none", s.ch.now));
    }
    let all = s.tal(t, dir);
    s.act(&swap("carol", opp(dir), cost(dir, all.saturating_sub(2).max(1), t), 0, None, s.ch.now));
    let ids: Vec<u64> = s.o.orders.keys().copied().collect();
    for i in ids {
        for tries in 0..4 {
            match leave(&s, i, tries) {
                Some(op) => s.act(&op),
                None => break,
            };
        }
    }
    s.extra(&Extra { queries: full_queries(&s), trees: vec![(t, dir.to_string())] });
}

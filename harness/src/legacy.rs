//! Books written by the version this specification was made from: their messages, what was
//! seen of them, and their storage byte by byte.  The code under test repeats the messages; its
//! own storage is then exchanged for the kept one, as when the contract of a running book is
//! replaced, and the history goes on with a migration.
use crate::chain::Chain;
use crate::gen::{self, Gen, Sim};
use crate::obs::{self, Obs};
use crate::ops;
use crate::rec::{Extra, Rec};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const BOOKS: [&str; 6] = ["core", "queue", "fees", "roles", "sides", "zigzag"];

fn path(name: &str) -> String {
    format!("{}/books/{name}.json", env!("CARGO_MANIFEST_DIR"))
}
fn load(name: &str) -> Value {
    serde_json::from_str(&std::fs::read_to_string(path(name)).expect("kept book")).expect("kept book")
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn stored(name: &str) -> BTreeMap<Vec<u8>, Vec<u8>> {
    load(name)["store"].as_object().unwrap().iter().map(|(k, v)| (unhex(k), v.as_str().unwrap().as_bytes().to_vec())).collect()
}

pub fn drive(rec: &mut Rec, seed: u64, scale: f64) {
    for (b, name) in BOOKS.iter().enumerate() {
        let kept = load(name);
        for round in 0..(2.0 * scale).ceil() as u64 {
            let ch = Chain::new(1_000_000_000, vec![]);
            let o = obs::observe(&ch);
            let mut s = Sim { ch, o, at: 0, rec: &mut *rec, prof: "legacy".into(), deposited: [0; 3], names: vec![], heavy: false };
            for op in kept["ops"].as_array().unwrap() {
                s.act(op);
            }
            if obs::delta(&Obs::default(), &s.o) != kept["seen"] {
                continue; // not the same book: judged by the specification so far
            }
            let mut p = gen::profile(name);
            p.live = p.live.max(12);
            let mut r = Rng::new(seed, 83 + 10 * b as u64 + round);
            let ticks = s.o.ticks.keys().copied().chain((p.ticks)(&mut r)).take(8).collect();
            s.act(&json!({"k": "migrate", "store": name, "kept": true, "sender": "chain", "funds": [], "blk": []}));
            s.extra(&Extra { queries: gen::full_queries(&s), trees: vec![] });
            let mut g = Gen { r, p: &p, ticks };
            for _ in 0..40 {
                let mut op = g.next(&s);
                op["kept"] = json!(true);
                s.act(&op);
            }
            s.extra(&Extra { queries: gen::full_queries(&s), trees: vec![] });
        }
    }
}

pub fn keep() {
    for name in BOOKS {
        let mut rec = Rec::default();
        let mut p = gen::profile(name);
        p.chains = 1;
        p.len = p.len.min(70);
        // a history of plain names and numbers
        let seed = (1..).find(|s| gen::plain(&p, *s)).unwrap();
        gen::drive(&mut rec, &p, seed);
        let (mut ch, mut ops) = (Chain::new(1_000_000_000, vec![]), vec![]);
        for n in &rec.nodes {
            ops::run(&mut ch, &n.v["op"]);
            ops.push(n.v["op"].clone());
        }
        let store: BTreeMap<String, String> =
            ch.store.m.iter().map(|(k, v)| (hex(k), String::from_utf8(v.clone()).expect("text"))).collect();
        let kept = json!({"ops": ops, "seen": obs::delta(&Obs::default(), &obs::observe(&ch)), "store": store});
        std::fs::write(path(name), serde_json::to_string_pretty(&kept).unwrap()).unwrap();
    }
}

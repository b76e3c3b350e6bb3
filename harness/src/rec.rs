//! Recording of executions as a forest of nodes, one JSON line per message.
use crate::chain::{Chain, TxOut};
use crate::obs::{self, Obs};
use crate::ops;
use serde_json::{json, Value};
use std::io::Write;

pub struct Node {
    pub v: Value,
    pub kf: usize, // first and last child (1-based line numbers), 0/-1 if none
    pub kl: i64,
    pub p: usize,
}

#[derive(Default)]
pub struct Rec {
    pub nodes: Vec<Node>,
    pub roots: usize,
}

#[derive(Default, Clone)]
pub struct Extra {
    pub queries: Vec<Value>,
    pub trees: Vec<(i64, String)>,
}

/// the entries of a batch claimed by one message each
fn one_by_one(mut ch: Chain, prev: &Obs, op: &Value) -> Value {
    let mut pay = vec![];
    let mut ev = vec![];
    for it in op["items"].as_array().unwrap() {
        let o = json!({"k": "claim", "sender": op["sender"], "tick": it[0], "id": it[1], "funds": [], "blk": op["blk"]});
        let r = ops::run(&mut ch, &o);
        if r.ok {
            let v = out_json(&r);
            pay.extend(v["pay"].as_array().unwrap().clone());
            ev.extend(v["ev"].as_array().unwrap().clone());
        }
    }
    let next = obs::observe(&ch);
    json!({"d": obs::delta(prev, &next), "pay": pay, "ev": ev})
}

fn out_json(o: &TxOut) -> Value {
    json!({
        "ok": o.ok, "err": o.err, "panic": o.panicked, "arith": o.panicked || crate::chain::arithmetic(&o.err),
        "pay": o.pay.iter().map(|(a,b,c)| json!({"to": a, "d": b, "a": c})).collect::<Vec<_>>(),
        "at": o.attrs.iter().map(|(k,v)| json!([k,v])).collect::<Vec<_>>(),
        "ev": o.events.iter().map(|(t,a)| json!([t, a.iter().map(|(k,v)| json!([k,v])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
        "data": o.data.as_ref().map_or("".to_string(), |d| String::from_utf8_lossy(d.as_slice()).to_string()),
        "odd": o.odd,
        "cost": {"r": o.reads, "w": o.writes, "x": o.scans},
    })
}

impl Rec {
    /// Executes op on ch, appends the node under parent p (0 = root) and returns (line number, outcome, state).
    pub fn step(&mut self, ch: &mut Chain, prev: &Obs, p: usize, prof: &str, op: &Value) -> (usize, TxOut, Obs) {
        let before = if op["k"] == "batch" { Some(ch.clone()) } else { None };
        let out = ops::run(ch, op);
        let next = obs::observe(ch);
        let alt = match before {
            Some(c) if out.ok => vec![one_by_one(c, prev, op)],
            _ => vec![],
        };
        let mut v = out_json(&out);
        v["op"] = op.clone();
        v["prof"] = json!(prof);
        v["d"] = obs::delta(prev, &next);
        v["alt"] = json!(alt);
        v["q"] = json!([]);
        v["tree"] = json!([]);
        let n = self.nodes.len() + 1;
        self.nodes.push(Node { v, kf: 0, kl: -1, p });
        if p == 0 {
            self.roots += 1;
        } else {
            let par = &mut self.nodes[p - 1];
            if par.kf == 0 {
                par.kf = n;
            }
            assert!(par.kl == -1 || par.kl == n as i64 - 1, "children must be contiguous");
            par.kl = n as i64;
        }
        (n, out, next)
    }
    pub fn extra(&mut self, ch: &Chain, n: usize, ex: &Extra) {
        let q: Vec<Value> = ex.queries.iter().map(|q| ops::query(ch, q)).collect();
        self.nodes[n - 1].v["q"] = json!(q);
        let t: Vec<Value> = ex.trees.iter().map(|(t, d)| obs::tree_json(ch, *t, d)).collect();
        self.nodes[n - 1].v["tree"] = json!(t);
    }
    pub fn write(&self, path: &str) {
        let f = std::fs::File::create(path).expect("create trace");
        let mut w = std::io::BufWriter::new(f);
        for n in &self.nodes {
            let mut v = n.v.clone();
            v["p"] = json!(n.p);
            v["kf"] = json!(n.kf);
            v["kl"] = json!(n.kl);
            serde_json::to_writer(&mut w, &v).unwrap();
            w.write_all(b"\n").unwrap();
        }
        w.flush().unwrap();
    }
}

//! A small chain around the contract, enough for a demonstration: storage, a
//! bank with blocked recipients, sub-messages with replies, rollback.
use cosmwasm_std::testing::{mock_env, MockApi, MockQuerier};
use cosmwasm_std::*;
use std::collections::BTreeMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sumtree_orderbook::contract;
use sumtree_orderbook::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg, SudoMsg};

pub const SELF: &str = "cosmos2contract";
pub const GOV: &str = "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp";

#[derive(Clone, Default)]
pub struct Mem {
    pub m: BTreeMap<Vec<u8>, Vec<u8>>,
    pub n: std::cell::Cell<u64>,
}
impl Storage for Mem {
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> {
        self.n.set(self.n.get() + 1);
        self.m.get(k).cloned()
    }
    fn range<'a>(&'a self, s: Option<&[u8]>, e: Option<&[u8]>, o: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(a), Some(b)) = (s, e) {
            if a >= b {
                return Box::new(std::iter::empty());
            }
        }
        let s = s.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec()));
        let e = e.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec()));
        let n = &self.n;
        let it = self.m.range((s, e)).map(move |(k, v)| {
            n.set(n.get() + 1);
            (k.clone(), v.clone())
        });
        match o {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
    fn set(&mut self, k: &[u8], v: &[u8]) {
        self.n.set(self.n.get() + 1);
        self.m.insert(k.to_vec(), v.to_vec());
    }
    fn remove(&mut self, k: &[u8]) {
        self.n.set(self.n.get() + 1);
        self.m.remove(k);
    }
}

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub pay: Vec<(String, String, u128)>,
    pub attrs: Vec<(String, String)>,
    pub events: Vec<Vec<(String, String)>>,
    pub cost: u64,
}
impl Out {
    pub fn paid(&self, to: &str, d: &str) -> u128 {
        self.pay.iter().filter(|p| p.0 == to && p.1 == d).map(|p| p.2).sum()
    }
    pub fn attr(&self, k: &str) -> String {
        self.attrs.iter().find(|a| a.0 == k).map_or("".into(), |a| a.1.clone())
    }
    pub fn event(&self, i: usize, k: &str) -> String {
        self.events[i].iter().find(|a| a.0 == k).map_or("".into(), |a| a.1.clone())
    }
}

#[derive(Clone)]
pub struct Book {
    pub s: Mem,
    pub bal: BTreeMap<String, u128>,
    pub blocked: Vec<String>,
    /// seconds passed since the book was created
    pub later: u64,
}

pub enum Call {
    E(ExecuteMsg),
    S(SudoMsg),
    M,
}

fn env_at(later: u64) -> Env {
    let mut e = mock_env();
    e.block.time = e.block.time.plus_seconds(later);
    e
}
fn varint(b: &[u8], i: &mut usize) -> u64 {
    let (mut r, mut s) = (0u64, 0);
    loop {
        let x = b[*i];
        *i += 1;
        r |= ((x & 127) as u64) << s;
        if x < 128 {
            return r;
        }
        s += 7;
    }
}
fn fields(b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    let (mut i, mut r) = (0, vec![]);
    while i < b.len() {
        let t = varint(b, &mut i);
        assert_eq!(t & 7, 2);
        let l = varint(b, &mut i) as usize;
        r.push((t >> 3, b[i..i + l].to_vec()));
        i += l;
    }
    r
}
fn text(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}

impl Book {
    pub fn new() -> Book {
        std::panic::set_hook(Box::new(|i| {
            if !i.location().map_or(false, |l| l.file().contains("orderbook/src")) {
                eprintln!("{i}")
            }
        }));
        let mut b = Book { s: Mem::default(), bal: BTreeMap::new(), blocked: vec![], later: 0 };
        let api = MockApi::default();
        let q: MockQuerier = MockQuerier::new(&[("x", &[coin(1, "base"), coin(1, "quote")])]);
        let deps = DepsMut { storage: &mut b.s, api: &api, querier: QuerierWrapper::new(&q) };
        let info = MessageInfo { sender: Addr::unchecked("creator"), funds: vec![] };
        contract::instantiate(deps, mock_env(), info, InstantiateMsg { quote_denom: "quote".into(), base_denom: "base".into() })
            .expect("instantiate");
        b
    }
    pub fn exec(&mut self, sender: &str, funds: &[(u128, &str)], json: &str) -> Result<Out, String> {
        let m: ExecuteMsg = from_json(json.as_bytes()).expect("message");
        self.call(sender, funds, Call::E(m))
    }
    pub fn sudo(&mut self, json: &str) -> Result<Out, String> {
        let m: SudoMsg = from_json(json.as_bytes()).expect("message");
        self.call("", &[], Call::S(m))
    }
    pub fn migrate(&mut self) -> Result<Out, String> {
        self.call("", &[], Call::M)
    }
    /// place an order; its identifier
    pub fn place(&mut self, who: &str, tick: i64, dir: &str, qty: u128) -> u64 {
        self.place_bounty(who, tick, dir, qty, "null")
    }
    pub fn place_bounty(&mut self, who: &str, tick: i64, dir: &str, qty: u128, bounty: &str) -> u64 {
        self.try_place(who, tick, dir, qty, bounty).expect("place").attr("order_id").parse().unwrap()
    }
    pub fn try_place(&mut self, who: &str, tick: i64, dir: &str, qty: u128, bounty: &str) -> Result<Out, String> {
        let d = if dir == "bid" { "quote" } else { "base" };
        let j = format!(
            r#"{{"place_limit":{{"tick_id":{tick},"order_direction":"{dir}","quantity":"{qty}","claim_bounty":{bounty}}}}}"#
        );
        self.exec(who, &[(qty, d)], &j)
    }
    pub fn cancel(&mut self, who: &str, tick: i64, id: u64) -> Result<Out, String> {
        self.exec(who, &[], &format!(r#"{{"cancel_limit":{{"tick_id":{tick},"order_id":{id}}}}}"#))
    }
    pub fn claim(&mut self, who: &str, tick: i64, id: u64) -> Result<Out, String> {
        self.exec(who, &[], &format!(r#"{{"claim_limit":{{"tick_id":{tick},"order_id":{id}}}}}"#))
    }
    pub fn batch(&mut self, who: &str, items: &[(i64, u64)]) -> Result<Out, String> {
        let v: Vec<String> = items.iter().map(|(t, i)| format!("[{t},{i}]")).collect();
        self.exec(who, &[], &format!(r#"{{"batch_claim":{{"orders":[{}]}}}}"#, v.join(",")))
    }
    pub fn auth(&mut self, who: &str, json: &str) -> Result<Out, String> {
        self.exec(who, &[], &format!(r#"{{"auth":{json}}}"#))
    }
    /// swap amt of din for the other token
    pub fn swap(&mut self, who: &str, amt: u128, din: &str, min: u128) -> Result<Out, String> {
        let dout = if din == "quote" { "base" } else { "quote" };
        *self.bal.entry(din.into()).or_default() += amt;
        let r = self.sudo(&format!(
            r#"{{"swap_exact_amount_in":{{"sender":"{who}","token_in":{{"denom":"{din}","amount":"{amt}"}},"token_out_denom":"{dout}","token_out_min_amount":"{min}","swap_fee":"0"}}}}"#
        ));
        if r.is_err() {
            *self.bal.get_mut(din).unwrap() -= amt;
        }
        r
    }
    pub fn swap_to(&mut self, who: &str, amt: u128, din: &str, min: u128, target: i64) -> Result<Out, String> {
        let dout = if din == "quote" { "base" } else { "quote" };
        *self.bal.entry(din.into()).or_default() += amt;
        let r = self.sudo(&format!(
            r#"{{"swap_to_tick":{{"sender":"{who}","token_in":{{"denom":"{din}","amount":"{amt}"}},"token_out_denom":"{dout}","token_out_min_amount":"{min}","swap_fee":"0","target_tick":{target}}}}}"#
        ));
        if r.is_err() {
            *self.bal.get_mut(din).unwrap() -= amt;
        }
        r
    }
    pub fn query(&self, json: &str) -> Result<String, String> {
        let m: QueryMsg = from_json(json.as_bytes()).expect("query");
        let api = MockApi::default();
        let q: MockQuerier = MockQuerier::new(&[]);
        let deps = Deps { storage: &self.s, api: &api, querier: QuerierWrapper::new(&q) };
        match catch_unwind(AssertUnwindSafe(|| contract::query(deps, mock_env(), m))) {
            Err(_) => Err("panic".into()),
            Ok(Err(e)) => Err(e.to_string()),
            Ok(Ok(b)) => Ok(text(b.as_slice())),
        }
    }
    /// the orders of a tick as (id, quantity)
    pub fn at(&self, tick: i64) -> Vec<(u64, u128)> {
        let r = self.query(&format!(r#"{{"orders_by_tick":{{"tick_id":{tick}}}}}"#)).expect("orders");
        r.split("\"order_id\":")
            .skip(1)
            .map(|p| {
                let id = p.split(',').next().unwrap().parse().unwrap();
                let q = p.split("\"quantity\":\"").nth(1).unwrap().split('"').next().unwrap().parse().unwrap();
                (id, q)
            })
            .collect()
    }
    pub fn call(&mut self, sender: &str, funds: &[(u128, &str)], c: Call) -> Result<Out, String> {
        let save = self.clone();
        let mut out = Out::default();
        match self.inner(sender, funds, c, &mut out) {
            Ok(()) => Ok(out),
            Err(e) => {
                *self = save;
                Err(e)
            }
        }
    }
    fn inner(&mut self, sender: &str, funds: &[(u128, &str)], c: Call, out: &mut Out) -> Result<(), String> {
        for (a, d) in funds {
            *self.bal.entry(d.to_string()).or_default() += a;
        }
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds.iter().map(|(a, d)| coin(*a, *d)).collect(),
        };
        let api = MockApi::default();
        let q: MockQuerier = MockQuerier::new(&[]);
        self.s.n.set(0);
        let st = &mut self.s;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = DepsMut { storage: st, api: &api, querier: QuerierWrapper::new(&q) };
            match c {
                Call::E(m) => contract::execute(deps, env_at(self.later), info, m),
                Call::S(m) => sumtree_orderbook::sudo::sudo(deps, env_at(self.later), m),
                Call::M => contract::migrate(deps, env_at(self.later), MigrateMsg {}),
            }
        }));
        out.cost = self.s.n.get();
        let resp = match r {
            Err(_) => return Err("panic".into()),
            Ok(r) => r.map_err(|e| e.to_string())?,
        };
        out.attrs = resp.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect();
        out.events = resp
            .events
            .iter()
            .map(|e| e.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect())
            .collect();
        for m in resp.messages {
            let r = self.pay(&m.msg, out);
            let reply = match (&r, &m.reply_on) {
                (_, ReplyOn::Always) | (Ok(_), ReplyOn::Success) | (Err(_), ReplyOn::Error) => true,
                _ => false,
            };
            if !reply {
                r?;
                continue;
            }
            let result = match r {
                Ok(()) => SubMsgResult::Ok(SubMsgResponse { events: vec![], data: None }),
                Err(e) => SubMsgResult::Err(e),
            };
            let deps = DepsMut { storage: &mut self.s, api: &api, querier: QuerierWrapper::new(&q) };
            contract::reply(deps, env_at(self.later), Reply { id: m.id, result }).map_err(|e| e.to_string())?;
        }
        Ok(())
    }
    fn pay(&mut self, m: &CosmosMsg, out: &mut Out) -> Result<(), String> {
        let (to, coins): (String, Vec<(String, u128)>) = match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                (to_address.clone(), amount.iter().map(|c| (c.denom.clone(), c.amount.u128())).collect())
            }
            CosmosMsg::Stargate { value, .. } => {
                let (mut to, mut coins) = (String::new(), vec![]);
                for (n, v) in fields(value.as_slice()) {
                    match n {
                        2 => to = text(&v),
                        3 => {
                            let f = fields(&v);
                            coins.push((text(&f[0].1), text(&f[1].1).parse().unwrap()))
                        }
                        _ => {}
                    }
                }
                (to, coins)
            }
            _ => return Err("unknown message".into()),
        };
        if self.blocked.contains(&to) {
            return Err(format!("{to} cannot receive"));
        }
        for (d, a) in coins {
            let h = self.bal.entry(d.clone()).or_default();
            if a == 0 || *h < a {
                return Err(format!("cannot send {a}{d}, have {h}"));
            }
            if to != SELF {
                *h -= a;
            }
            out.pay.push((to.clone(), d, a));
        }
        Ok(())
    }
}

//! A small model of the host chain around the real contract: key-value
//! storage with an operation counter, bank module, sub-messages and replies,
//! transaction rollback, blocked recipients, panics as failed transactions.
use cosmwasm_std::testing::{mock_env, MockApi};
use cosmwasm_std::{
    from_json, to_json_binary, Addr, BankMsg, BankQuery, Binary, Coin, ContractResult, CosmosMsg,
    Deps, DepsMut, Empty, Env, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper,
    QueryRequest, Record, Reply, ReplyOn, Response, Storage, SubMsgResponse, SubMsgResult,
    SupplyResponse, SystemError, SystemResult, Timestamp, Uint128, Uint256,
};
use osmosis_std::types::cosmos::bank::v1beta1::MsgSend;
use prost::Message;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use serde_json::Value;
use std::str::FromStr;
use sumtree_orderbook::contract;
use sumtree_orderbook::msg::MigrateMsg;
use sumtree_orderbook::sudo;
use sumtree_orderbook::ContractError;

pub const SELF: &str = "cosmos2contract";

/// Committed storage of the contract.
#[derive(Default, Clone)]
pub struct Store {
    pub m: BTreeMap<Vec<u8>, Vec<u8>>,
}

type Recs<'a> = Box<dyn Iterator<Item = Record> + 'a>;

fn range_of<'a>(
    m: &'a BTreeMap<Vec<u8>, Vec<u8>>,
    start: Option<&[u8]>,
    end: Option<&[u8]>,
    order: Order,
) -> Recs<'a> {
    let s = start.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec()));
    let e = end.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec()));
    if let (Some(a), Some(b)) = (start, end) {
        if a >= b {
            return Box::new(std::iter::empty());
        }
    }
    let it = m.range((s, e)).map(|(k, v)| (k.clone(), v.clone()));
    match order {
        Order::Ascending => Box::new(it),
        Order::Descending => Box::new(it.rev()),
    }
}

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.m.get(key).cloned()
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Recs<'a> {
        range_of(&self.m, start, end, order)
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.m.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.m.remove(key);
    }
}

/// Uncommitted changes over committed storage, with operation counters.
pub struct Overlay<'b> {
    pub base: &'b Store,
    pub w: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
    pub reads: Cell<u64>,
    pub writes: Cell<u64>,
    pub scans: Cell<u64>,
}

impl<'b> Overlay<'b> {
    pub fn new(base: &'b Store) -> Self {
        Overlay { base, w: BTreeMap::new(), reads: Cell::new(0), writes: Cell::new(0), scans: Cell::new(0) }
    }
}

/// no message comes near this many storage accesses; a runaway one ends like
/// a transaction out of gas
const GAS: u64 = 400_000;
fn tick_up(c: &Cell<u64>) {
    c.set(c.get() + 1);
    if c.get() > GAS {
        panic!("out of gas");
    }
}

struct CountIter<'a> {
    it: Recs<'a>,
    c: &'a Cell<u64>,
}
impl<'a> Iterator for CountIter<'a> {
    type Item = Record;
    fn next(&mut self) -> Option<Record> {
        tick_up(self.c);
        self.it.next()
    }
}

impl<'b> Storage for Overlay<'b> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        tick_up(&self.reads);
        match self.w.get(key) {
            Some(x) => x.clone(),
            None => self.base.get(key),
        }
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Recs<'a> {
        let s = start.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec()));
        let e = end.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec()));
        let empty = matches!((start, end), (Some(a), Some(b)) if a >= b);
        let it: Recs<'a> = if empty {
            Box::new(std::iter::empty())
        } else if self.w.range((s.clone(), e.clone())).next().is_none() {
            range_of(&self.base.m, start, end, order)
        } else {
            let mut all: BTreeMap<Vec<u8>, Vec<u8>> =
                self.base.m.range((s.clone(), e.clone())).map(|(k, v)| (k.clone(), v.clone())).collect();
            for (k, v) in self.w.range((s, e)) {
                match v {
                    Some(v) => {
                        all.insert(k.clone(), v.clone());
                    }
                    None => {
                        all.remove(k);
                    }
                }
            }
            match order {
                Order::Ascending => Box::new(all.into_iter()),
                Order::Descending => Box::new(all.into_iter().rev()),
            }
        };
        Box::new(CountIter { it, c: &self.scans })
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        tick_up(&self.writes);
        self.w.insert(key.to_vec(), Some(value.to_vec()));
    }
    fn remove(&mut self, key: &[u8]) {
        tick_up(&self.writes);
        self.w.insert(key.to_vec(), None);
    }
}

/// Answers supply queries; every other query is unsupported.
pub struct SupplyQuerier {
    pub supplies: Vec<(String, u128)>,
}
impl Querier for SupplyQuerier {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        match req {
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let a = self
                    .supplies
                    .iter()
                    .find(|(d, _)| *d == denom)
                    .map_or(0, |(_, a)| *a);
                #[derive(serde::Serialize)]
                struct Out {
                    amount: Coin,
                }
                let _: Option<SupplyResponse> = None;
                let r = to_json_binary(&Out {
                    amount: Coin { denom, amount: Uint128::new(a) },
                })
                .unwrap();
                SystemResult::Ok(ContractResult::Ok(r))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "query".into() }),
        }
    }
}

#[derive(Clone, Default)]
pub struct Chain {
    pub store: Store,
    pub bal: BTreeMap<String, Uint256>,
    pub now: u64,
    pub supplies: Vec<(String, u128)>,
    /// identifiers given out before the recorded history began; traces count from there
    pub id0: u64,
}

fn switch_on(ov: &mut Overlay) {
    let _ = cw_storage_plus::Item::<bool>::new("is_active").save(ov, &true);
    ov.writes.set(0);
}

#[derive(Clone, Debug, Default)]
pub struct TxOut {
    pub ok: bool,
    pub err: String,
    pub panicked: bool,
    /// executed payments (recipient, denom, amount)
    pub pay: Vec<(String, String, String)>,
    pub attrs: Vec<(String, String)>,
    pub events: Vec<(String, Vec<(String, String)>)>,
    pub data: Option<Binary>,
    pub reads: u64,
    pub writes: u64,
    pub scans: u64,
    /// facts about messages the chain could not make sense of
    pub odd: Vec<String>,
}

/// a failure of the arithmetic, not a decision of the contract
pub fn arithmetic(e: &str) -> bool {
    let e = e.to_lowercase();
    ["overflow", "divide by zero", "conversion error", "out of range"].iter().any(|x| e.contains(x))
}

/// a message as the contract receives it
fn wire<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, String> {
    from_json(v.to_string().as_bytes()).map_err(|e| format!("unreadable message: {e}"))
}

pub enum Msg {
    Instantiate(Value),
    Execute(Value),
    Sudo(Value),
    Migrate,
    None,
}

impl Chain {
    pub fn new(now: u64, supplies: Vec<(String, u128)>) -> Self {
        Chain { store: Store::default(), bal: BTreeMap::new(), now, supplies, id0: 0 }
    }
    /// the identifier as the trace counts it; one that cannot be is shown as far away
    pub fn id_in(&self, id: u64) -> u64 {
        match id.checked_sub(self.id0) {
            Some(i) if i < 1_000_000_000 || self.id0 == 0 => i,
            _ => 2_000_000_000 + id % 1_000_000,
        }
    }
    pub fn id_out(&self, id: u64) -> u64 {
        id.saturating_add(self.id0)
    }
    /// an old book: so many identifiers have been given out already
    pub fn age(&mut self, id0: u64) {
        let _ = cw_storage_plus::Item::<u64>::new("order_id").save(&mut self.store, &id0);
        self.id0 = id0;
    }
    pub fn env(&self) -> Env {
        let mut env = mock_env();
        env.block.time = Timestamp::from_nanos(self.now);
        env.block.height = 12_345 + self.now / 5_000_000_000;
        env
    }
    pub fn query(&self, q: &Value) -> Result<Value, String> {
        let api = MockApi::default();
        let querier = SupplyQuerier { supplies: self.supplies.clone() };
        let q = wire(q)?;
        let r = catch_unwind(AssertUnwindSafe(|| {
            contract::query(
                Deps { storage: &self.store, api: &api, querier: QuerierWrapper::new(&querier) },
                self.env(),
                q,
            )
        }));
        match r {
            Err(_) => Err("panic".into()),
            Ok(Err(e)) => Err(e.to_string()),
            Ok(Ok(b)) => serde_json::from_slice(b.as_slice()).map_err(|e| format!("decode: {e}")),
        }
    }

    /// Run one transaction: funds move first, then the message, then its
    /// sub-messages; any error rolls everything back.
    /// commit = false: report what the transaction would do on a book that is
    /// switched on, and change nothing.
    pub fn tx_mode(&mut self, sender: &str, funds: &[(String, u128)], msg: Msg, blocked: &[String], commit: bool) -> TxOut {
        let save_b = self.bal.clone();
        let mut out = TxOut::default();
        let base = std::mem::take(&mut self.store);
        let mut ov = Overlay::new(&base);
        if !commit {
            switch_on(&mut ov);
        }
        let r = self.tx_inner(&mut ov, sender, funds, msg, blocked, &mut out);
        let w = std::mem::take(&mut ov.w);
        drop(ov);
        self.store = base;
        match r {
            Ok(()) => {
                out.ok = true;
                if !commit {
                    self.bal = save_b;
                    return out;
                }
                for (k, v) in w {
                    match v {
                        Some(v) => {
                            self.store.m.insert(k, v);
                        }
                        None => {
                            self.store.m.remove(&k);
                        }
                    }
                }
            }
            Err(e) => {
                self.bal = save_b;
                out.ok = false;
                out.err = e;
                out.pay.clear();
                out.attrs.clear();
                out.events.clear();
                out.data = None;
            }
        }
        out
    }

    /// How much of an order a claim would settle now (on a switched-on book).
    pub fn probe_claim(&self, tick: i64, id: u64, load: &dyn Fn(&dyn Storage) -> Option<u128>) -> Result<u128, String> {
        let mut ov = Overlay::new(&self.store);
        switch_on(&mut ov);
        let before = load(&ov).unwrap_or(0);
        let api = MockApi::default();
        let querier = SupplyQuerier { supplies: self.supplies.clone() };
        let env = self.env();
        let info = MessageInfo { sender: Addr::unchecked("prober"), funds: vec![] };
        let msg = wire(&serde_json::json!({"claim_limit": {"tick_id": tick, "order_id": id}}))?;
        let r = catch_unwind(AssertUnwindSafe(|| {
            contract::execute(
                DepsMut { storage: &mut ov, api: &api, querier: QuerierWrapper::new(&querier) },
                env,
                info,
                msg,
            )
        }));
        match r {
            Err(_) => Err("panic".into()),
            Ok(Err(e)) if arithmetic(&e.to_string()) => Err(e.to_string()),
            Ok(Err(_)) => Ok(0),
            Ok(Ok(_)) => {
                let after = load(&ov).unwrap_or(0);
                before.checked_sub(after).ok_or_else(|| "claim grew an order".to_string())
            }
        }
    }

    fn tx_inner(
        &mut self,
        store: &mut Overlay,
        sender: &str,
        funds: &[(String, u128)],
        msg: Msg,
        blocked: &[String],
        out: &mut TxOut,
    ) -> Result<(), String> {
        for (d, a) in funds {
            if *a == 0 {
                return Err("chain: zero coin".into());
            }
            let e = self.bal.entry(d.clone()).or_default();
            *e += Uint256::from_u128(*a);
        }
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds
                .iter()
                .map(|(d, a)| Coin { denom: d.clone(), amount: Uint128::new(*a) })
                .collect(),
        };
        let env = self.env();
        let api = MockApi::default();
        let querier = SupplyQuerier { supplies: self.supplies.clone() };
        let res: Result<Option<Result<Response, ContractError>>, String> = {
            let call = AssertUnwindSafe(|| {
                let deps = DepsMut { storage: &mut *store, api: &api, querier: QuerierWrapper::new(&querier) };
                match msg {
                    Msg::Instantiate(m) => wire(&m).map(|m| Some(contract::instantiate(deps, env, info, m))),
                    Msg::Execute(m) => wire(&m).map(|m| Some(contract::execute(deps, env, info, m))),
                    Msg::Sudo(m) => wire(&m).map(|m| Some(sudo::sudo(deps, env, m))),
                    Msg::Migrate => Ok(Some(contract::migrate(deps, env, MigrateMsg {}))),
                    Msg::None => Ok(None),
                }
            });
            match catch_unwind(call) {
                Ok(r) => r,
                Err(_) => {
                    out.panicked = true;
                    return Err("panic".into());
                }
            }
        };
        out.reads = store.reads.get();
        out.writes = store.writes.get();
        out.scans = store.scans.get();
        let res = match res? {
            None => return Ok(()),
            Some(Err(e)) => return Err(e.to_string()),
            Some(Ok(r)) => r,
        };
        out.attrs = res.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect();
        out.events = res
            .events
            .iter()
            .map(|e| {
                (e.ty.clone(), e.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect())
            })
            .collect();
        out.data = res.data.clone();
        self.run_messages(store, res.messages, blocked, out, 0)
    }

    fn run_messages(
        &mut self,
        store: &mut Overlay,
        msgs: Vec<cosmwasm_std::SubMsg>,
        blocked: &[String],
        out: &mut TxOut,
        depth: u32,
    ) -> Result<(), String> {
        if depth > 3 {
            return Err("chain: reply depth".into());
        }
        for sm in msgs {
            let save_b = self.bal.clone();
            let npay = out.pay.len();
            let r = self.run_msg(&sm.msg, blocked, out);
            let want_reply = match (&r, &sm.reply_on) {
                (_, ReplyOn::Always) => true,
                (Ok(_), ReplyOn::Success) => true,
                (Err(_), ReplyOn::Error) => true,
                _ => false,
            };
            if r.is_err() {
                self.bal = save_b;
                out.pay.truncate(npay);
            }
            if !want_reply {
                r?;
                continue;
            }
            let reply = Reply {
                id: sm.id,
                result: match r {
                    Ok(()) => SubMsgResult::Ok(SubMsgResponse { events: vec![], data: None }),
                    Err(e) => SubMsgResult::Err(e),
                },
            };
            let env = self.env();
            let api = MockApi::default();
            let querier = SupplyQuerier { supplies: self.supplies.clone() };
            let res = catch_unwind(AssertUnwindSafe(|| {
                contract::reply(
                    DepsMut { storage: &mut *store, api: &api, querier: QuerierWrapper::new(&querier) },
                    env,
                    reply,
                )
            }));
            match res {
                Err(_) => {
                    out.panicked = true;
                    return Err("panic in reply".into());
                }
                Ok(Err(e)) => return Err(e.to_string()),
                Ok(Ok(resp)) => self.run_messages(store, resp.messages, blocked, out, depth + 1)?,
            }
        }
        Ok(())
    }

    fn run_msg(&mut self, msg: &CosmosMsg, blocked: &[String], out: &mut TxOut) -> Result<(), String> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let coins: Vec<(String, Uint256)> =
                    amount.iter().map(|c| (c.denom.clone(), Uint256::from(c.amount))).collect();
                self.send(SELF, to_address, &coins, blocked, out)
            }
            CosmosMsg::Stargate { type_url, value } => {
                if type_url != MsgSend::TYPE_URL {
                    out.odd.push(format!("unknown message {type_url}"));
                    return Err("chain: unknown message".into());
                }
                let m = MsgSend::decode(value.as_slice()).map_err(|e| e.to_string())?;
                let mut coins = vec![];
                for c in &m.amount {
                    let a = Uint256::from_str(&c.amount).map_err(|e| e.to_string())?;
                    coins.push((c.denom.clone(), a));
                }
                let from = m.from_address.clone();
                self.send(&from, &m.to_address, &coins, blocked, out)
            }
            _ => {
                out.odd.push("unknown message".into());
                Err("chain: unknown message".into())
            }
        }
    }

    fn send(
        &mut self,
        from: &str,
        to: &str,
        coins: &[(String, Uint256)],
        blocked: &[String],
        out: &mut TxOut,
    ) -> Result<(), String> {
        if from != SELF {
            return Err("chain: unauthorized sender".into());
        }
        if coins.is_empty() || coins.iter().any(|(_, a)| a.is_zero()) {
            return Err("chain: invalid coins".into());
        }
        if blocked.iter().any(|b| b == to) {
            return Err(format!("chain: {to} is not allowed to receive funds"));
        }
        for (d, a) in coins {
            let have = self.bal.entry(d.clone()).or_default();
            if *have < *a {
                return Err(format!("chain: insufficient funds {have}{d} < {a}{d}"));
            }
            if to != SELF {
                *have -= *a;
            }
            out.pay.push((to.to_string(), d.clone(), a.to_string()));
        }
        Ok(())
    }
}

//! A small, deterministic, cloneable chain that runs the repository's real contract entry points
//! (instantiate/execute/query/reply/migrate) over JSON, with wasmd's message semantics:
//! depth-first submessages, replies, rollback of failed submessages and of failed transactions.
use cosmwasm_std::{
    from_json, to_json_vec, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin,
    ContractInfo, ContractInfoResponse, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env,
    Event, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper, QueryRequest, Record,
    RecoverPubkeyError, Reply, ReplyOn, Response, StdError, StdResult, Storage, SubMsgResponse,
    SubMsgResult, SystemError, SystemResult, Timestamp, TransactionInfo, VerificationError,
    WasmMsg, WasmQuery,
};
use serde::Serialize;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type Store = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone)]
pub struct Contract {
    pub code_id: u64,
    pub creator: String,
    pub admin: Option<String>,
    pub label: String,
    pub store: Arc<Store>,
}

#[derive(Clone)]
pub struct Chain {
    pub height: u64,
    pub nanos: u64,
    pub bank: Arc<BTreeMap<(String, String), u128>>,
    pub contracts: BTreeMap<String, Arc<Contract>>,
    pub next: u64,
    /// messages the chain would hand to other modules (IBC transfers, stargate)
    pub outbox: Arc<Vec<String>>,
    /// log of migrations performed, (contract, code id, msg)
    pub migrations: Arc<Vec<(String, u64, String)>>,
}

pub type Res<T> = Result<T, String>;

/// Number of transactions executed so far, for the evidence.
pub static TXS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// How a contract can fail a transaction, plus the events of a success.
#[derive(Clone, Debug, Default)]
pub struct TxOk {
    pub events: Vec<Event>,
    pub data: Option<Binary>,
}

impl TxOk {
    pub fn attr(&self, key: &str) -> Option<String> {
        self.events
            .iter()
            .flat_map(|e| e.attributes.iter())
            .find(|a| a.key == key)
            .map(|a| a.value.clone())
    }
}

pub struct SimApi;
pub static API: SimApi = SimApi;
impl Api for SimApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.len() < 3 || human.len() > 255 {
            return Err(StdError::generic_err("bad address length"));
        }
        if !human
            .bytes()
            .all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
        {
            return Err(StdError::generic_err("address not normalized"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(CanonicalAddr(Binary(human.as_bytes().to_vec())))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(
            String::from_utf8(c.0.to_vec()).map_err(|_| StdError::generic_err("utf8"))?,
        ))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(
        &self,
        _: &[u8],
        _: &[u8],
        _: u8,
    ) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(
        &self,
        _: &[&[u8]],
        _: &[&[u8]],
        _: &[&[u8]],
    ) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}

pub struct StoreView<'a, 'c> {
    chain: &'a RefCell<&'c mut Chain>,
    addr: &'a str,
    read_only: bool,
}

/// Storage accesses since the transaction (or top-level query) began: a real chain's gas limit
/// ends runaway loops, so does this one.
const GAS: u64 = 60_000;
thread_local!(static USED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
fn gas() {
    let n = USED.with(|u| {
        u.set(u.get() + 1);
        u.get()
    });
    assert!(n < GAS, "out of gas");
}
pub fn reset_gas() {
    USED.with(|u| u.set(0));
}

impl<'a, 'c> Storage for StoreView<'a, 'c> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        gas();
        let c = self.chain.borrow();
        c.contracts.get(self.addr)?.store.get(key).cloned()
    }
    fn range<'b>(
        &'b self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'b> {
        use std::ops::Bound;
        gas();
        let c = self.chain.borrow();
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec()));
        let mut v: Vec<Record> = match c.contracts.get(self.addr) {
            Some(k) => k
                .store
                .range((lo, hi))
                .map(|(k, v)| (k.clone(), v.clone()))
                .collect(),
            None => vec![],
        };
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!self.read_only, "write in query");
        gas();
        let mut c = self.chain.borrow_mut();
        let k = Arc::make_mut(c.contracts.get_mut(self.addr).unwrap());
        Arc::make_mut(&mut k.store).insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        assert!(!self.read_only, "write in query");
        gas();
        let mut c = self.chain.borrow_mut();
        let k = Arc::make_mut(c.contracts.get_mut(self.addr).unwrap());
        if k.store.contains_key(key) {
            Arc::make_mut(&mut k.store).remove(key);
        }
    }
}

pub struct ChainQuerier<'a, 'c> {
    chain: &'a RefCell<&'c mut Chain>,
}

impl<'a, 'c> Querier for ChainQuerier<'a, 'c> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                let code = match self.chain.borrow().contracts.get(&contract_addr) {
                    Some(c) => c.code_id,
                    None => {
                        return SystemResult::Err(SystemError::NoSuchContract {
                            addr: contract_addr,
                        })
                    }
                };
                match run_query(self.chain, &contract_addr, code, msg.as_slice()) {
                    Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
                    Err(e) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                let c = self.chain.borrow();
                match c.contracts.get(&contract_addr) {
                    Some(k) => {
                        let mut r = ContractInfoResponse::new(k.code_id, k.creator.clone());
                        r.admin = k.admin.clone();
                        SystemResult::Ok(ContractResult::Ok(to_json_vec(&r).unwrap().into()))
                    }
                    None => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                let c = self.chain.borrow();
                match c.contracts.get(&contract_addr) {
                    Some(k) => SystemResult::Ok(ContractResult::Ok(
                        k.store.get(key.as_slice()).cloned().unwrap_or_default().into(),
                    )),
                    None => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                }
            }
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let c = self.chain.borrow();
                let v = c.bal(&address, &denom);
                SystemResult::Ok(ContractResult::Ok(
                    to_json_vec(&serde_json::json!({"amount":{"denom":denom,"amount":v.to_string()}}))
                        .unwrap()
                        .into(),
                ))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let c = self.chain.borrow();
                let v: Vec<Value> = c
                    .bank
                    .iter()
                    .filter(|((a, _), v)| *a == address && **v > 0)
                    .map(|((_, d), v)| serde_json::json!({"denom":d,"amount":v.to_string()}))
                    .collect();
                SystemResult::Ok(ContractResult::Ok(
                    to_json_vec(&serde_json::json!({ "amount": v })).unwrap().into(),
                ))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: "query".into(),
            }),
        }
    }
}

fn env_of(c: &Chain, addr: &str) -> Env {
    Env {
        block: BlockInfo {
            height: c.height,
            time: Timestamp::from_nanos(c.nanos),
            chain_id: "phoenix-1".to_string(),
        },
        transaction: Some(TransactionInfo { index: 0 }),
        contract: ContractInfo {
            address: Addr::unchecked(addr),
        },
    }
}

pub enum Entry<'a> {
    Inst(MessageInfo, &'a [u8]),
    Exec(MessageInfo, &'a [u8]),
    Reply(Reply),
    Migrate(&'a [u8]),
}

/// Contract kinds by code id. Code ids are `100*version + kind` so that several versions
/// of the suite can be registered; all versions run the same (real) code, except `PROBE`.
pub mod code {
    pub const ATTESTATION: u64 = 1;
    pub const ENTERPRISE: u64 = 2;
    pub const GOVERNANCE: u64 = 3;
    pub const CONTROLLER: u64 = 4;
    pub const OUTPOSTS: u64 = 5;
    pub const TREASURY: u64 = 6;
    pub const DISTRIBUTOR: u64 = 7;
    pub const TOKEN_MEMBERSHIP: u64 = 8;
    pub const DENOM_MEMBERSHIP: u64 = 9;
    pub const NFT_MEMBERSHIP: u64 = 10;
    pub const MULTISIG_MEMBERSHIP: u64 = 11;
    pub const VERSIONING: u64 = 12;
    pub const FACTORY: u64 = 13;
    pub const CW20: u64 = 14;
    pub const CW721: u64 = 15;
    pub const ICS721_CALLBACK: u64 = 16;
    pub const FACADE: u64 = 17;
    pub const FACADE_V1: u64 = 18;
    pub const FACADE_V2: u64 = 19;
    /// harness contracts (see `stub`)
    pub const ICS721_PROXY: u64 = 30;
    pub const CW3: u64 = 31;
    pub const SINK: u64 = 32;
    pub const V1DAO: u64 = 33;
}

macro_rules! entry {
    ($m:ident, $deps:expr, $env:expr, $e:expr, $reply:expr, $migrate:expr) => {
        match $e {
            Entry::Inst(i, b) => $m::contract::instantiate($deps, $env, i, js(b)?)
                .map_err(|e| e.to_string()),
            Entry::Exec(i, b) => {
                $m::contract::execute($deps, $env, i, js(b)?).map_err(|e| e.to_string())
            }
            Entry::Reply(r) => $reply($deps, $env, r),
            Entry::Migrate(b) => $migrate($deps, $env, b),
        }
    };
}

fn js<T: serde::de::DeserializeOwned>(b: &[u8]) -> Res<T> {
    from_json(b).map_err(|e| e.to_string())
}

fn no_reply(_: DepsMut, _: Env, _: Reply) -> Res<Response> {
    Err("no reply entry point".into())
}
fn no_migrate(_: DepsMut, _: Env, _: &[u8]) -> Res<Response> {
    Err("no migrate entry point".into())
}

macro_rules! rp {
    ($m:ident) => {
        |d: DepsMut, e: Env, r: Reply| $m::contract::reply(d, e, r).map_err(|e| e.to_string())
    };
}
macro_rules! mg {
    ($m:ident) => {
        |d: DepsMut, e: Env, b: &[u8]| {
            $m::contract::migrate(d, e, js(b)?).map_err(|e| e.to_string())
        }
    };
}

fn dispatch(code_id: u64, deps: DepsMut, env: Env, e: Entry) -> Res<Response> {
    match code_id % 100 {
        code::ATTESTATION => {
            entry!(attestation, deps, env, e, rp!(attestation), mg!(attestation))
        }
        code::ENTERPRISE => {
            entry!(enterprise, deps, env, e, rp!(enterprise), mg!(enterprise))
        }
        code::GOVERNANCE => {
            entry!(enterprise_governance, deps, env, e, rp!(enterprise_governance), mg!(enterprise_governance))
        }
        code::CONTROLLER => entry!(
            enterprise_governance_controller,
            deps,
            env,
            e,
            rp!(enterprise_governance_controller),
            mg!(enterprise_governance_controller)
        ),
        code::OUTPOSTS => entry!(
            enterprise_outposts,
            deps,
            env,
            e,
            rp!(enterprise_outposts),
            mg!(enterprise_outposts)
        ),
        code::TREASURY => entry!(
            enterprise_treasury,
            deps,
            env,
            e,
            rp!(enterprise_treasury),
            mg!(enterprise_treasury)
        ),
        code::DISTRIBUTOR => {
            entry!(funds_distributor, deps, env, e, rp!(funds_distributor), mg!(funds_distributor))
        }
        code::TOKEN_MEMBERSHIP => entry!(
            token_staking_membership,
            deps,
            env,
            e,
            rp!(token_staking_membership),
            mg!(token_staking_membership)
        ),
        code::DENOM_MEMBERSHIP => entry!(
            denom_staking_membership,
            deps,
            env,
            e,
            rp!(denom_staking_membership),
            mg!(denom_staking_membership)
        ),
        code::NFT_MEMBERSHIP => entry!(
            nft_staking_membership,
            deps,
            env,
            e,
            rp!(nft_staking_membership),
            mg!(nft_staking_membership)
        ),
        code::MULTISIG_MEMBERSHIP => entry!(
            multisig_membership,
            deps,
            env,
            e,
            rp!(multisig_membership),
            mg!(multisig_membership)
        ),
        code::VERSIONING => entry!(
            enterprise_versioning,
            deps,
            env,
            e,
            rp!(enterprise_versioning),
            mg!(enterprise_versioning)
        ),
        code::FACTORY => entry!(
            enterprise_factory,
            deps,
            env,
            e,
            rp!(enterprise_factory),
            mg!(enterprise_factory)
        ),
        code::CW20 => entry!(cw20_base, deps, env, e, no_reply, no_migrate),
        code::CW721 => match e {
            Entry::Inst(i, b) => cw721_base::entry::instantiate(deps, env, i, js(b)?)
                .map_err(|e| e.to_string()),
            Entry::Exec(i, b) => {
                cw721_base::entry::execute(deps, env, i, js(b)?).map_err(|e| e.to_string())
            }
            _ => Err("no such entry point".into()),
        },
        code::ICS721_CALLBACK => entry!(
            ics721_callback_proxy,
            deps,
            env,
            e,
            rp!(ics721_callback_proxy),
            mg!(ics721_callback_proxy)
        ),
        code::FACADE => entry!(
            enterprise_facade,
            deps,
            env,
            e,
            rp!(enterprise_facade),
            mg!(enterprise_facade)
        ),
        code::FACADE_V1 => entry!(
            enterprise_facade_v1,
            deps,
            env,
            e,
            rp!(enterprise_facade_v1),
            no_migrate
        ),
        code::FACADE_V2 => entry!(
            enterprise_facade_v2,
            deps,
            env,
            e,
            rp!(enterprise_facade_v2),
            no_migrate
        ),
        k => crate::stub::dispatch(k, deps, env, e),
    }
}

fn dispatch_query(code_id: u64, deps: Deps, env: Env, b: &[u8]) -> Res<Binary> {
    macro_rules! q {
        ($m:ident) => {
            $m::contract::query(deps, env, js(b)?).map_err(|e| e.to_string())
        };
    }
    match code_id % 100 {
        code::ATTESTATION => q!(attestation),
        code::ENTERPRISE => q!(enterprise),
        code::GOVERNANCE => q!(enterprise_governance),
        code::CONTROLLER => q!(enterprise_governance_controller),
        code::OUTPOSTS => q!(enterprise_outposts),
        code::TREASURY => q!(enterprise_treasury),
        code::DISTRIBUTOR => q!(funds_distributor),
        code::TOKEN_MEMBERSHIP => q!(token_staking_membership),
        code::DENOM_MEMBERSHIP => q!(denom_staking_membership),
        code::NFT_MEMBERSHIP => q!(nft_staking_membership),
        code::MULTISIG_MEMBERSHIP => q!(multisig_membership),
        code::VERSIONING => q!(enterprise_versioning),
        code::FACTORY => q!(enterprise_factory),
        code::CW20 => q!(cw20_base),
        code::CW721 => {
            cw721_base::entry::query(deps, env, js(b)?).map_err(|e| e.to_string())
        }
        code::ICS721_CALLBACK => q!(ics721_callback_proxy),
        code::FACADE => q!(enterprise_facade),
        code::FACADE_V1 => q!(enterprise_facade_v1),
        code::FACADE_V2 => q!(enterprise_facade_v2),
        k => crate::stub::query(k, deps, env, b),
    }
}

fn guarded<T>(f: impl FnOnce() -> Res<T>) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let s = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("panic: {s}"))
        }
    }
}

fn run_query(chain: &RefCell<&mut Chain>, addr: &str, code: u64, msg: &[u8]) -> Res<Binary> {
    let env = env_of(&chain.borrow(), addr);
    let st = StoreView {
        chain,
        addr,
        read_only: true,
    };
    let q = ChainQuerier { chain };
    guarded(|| {
        dispatch_query(
            code,
            Deps {
                storage: &st,
                api: &API,
                querier: QuerierWrapper::new(&q),
            },
            env,
            msg,
        )
    })
}

fn pb_field(n: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![(n << 3) | 2];
    let mut l = b.len();
    loop {
        let x = (l & 0x7f) as u8;
        l >>= 7;
        if l == 0 {
            v.push(x);
            break;
        }
        v.push(x | 0x80);
    }
    v.extend_from_slice(b);
    v
}

impl Chain {
    pub fn new() -> Chain {
        Chain {
            height: 1000,
            nanos: 1_700_000_000_000_000_000,
            bank: Default::default(),
            contracts: Default::default(),
            next: 0,
            outbox: Default::default(),
            migrations: Default::default(),
        }
    }

    pub fn secs(&self) -> u64 {
        self.nanos / 1_000_000_000
    }

    pub fn advance(&mut self, blocks: u64, secs: u64) {
        self.height += blocks;
        self.nanos += secs * 1_000_000_000;
    }

    pub fn bal(&self, a: &str, d: &str) -> u128 {
        *self
            .bank
            .get(&(a.to_string(), d.to_string()))
            .unwrap_or(&0)
    }

    /// writes a contract's storage directly (state left by an earlier release)
    pub fn put(&mut self, addr: &str, k: Vec<u8>, v: Vec<u8>) {
        let c = Arc::make_mut(self.contracts.get_mut(addr).expect("contract"));
        Arc::make_mut(&mut c.store).insert(k, v);
    }
    pub fn mint(&mut self, a: &str, d: &str, amt: u128) {
        *Arc::make_mut(&mut self.bank)
            .entry((a.to_string(), d.to_string()))
            .or_default() += amt;
    }

    pub fn send(&mut self, from: &str, to: &str, coins: &[Coin]) -> Res<()> {
        for c in coins {
            if c.amount.is_zero() {
                return Err("invalid coins: zero amount".into());
            }
            let b = self.bal(from, &c.denom);
            if b < c.amount.u128() {
                return Err(format!("insufficient funds {} < {}", b, c));
            }
            let bank = Arc::make_mut(&mut self.bank);
            *bank
                .get_mut(&(from.to_string(), c.denom.clone()))
                .unwrap() -= c.amount.u128();
            *bank
                .entry((to.to_string(), c.denom.clone()))
                .or_default() += c.amount.u128();
        }
        Ok(())
    }

    fn call(&mut self, addr: &str, e: Entry) -> Res<Response> {
        let code = self
            .contracts
            .get(addr)
            .ok_or_else(|| format!("no such contract {addr}"))?
            .code_id;
        let env = env_of(self, addr);
        let cell = RefCell::new(self);
        let mut st = StoreView {
            chain: &cell,
            addr,
            read_only: false,
        };
        let q = ChainQuerier { chain: &cell };
        guarded(|| {
            dispatch(
                code,
                DepsMut {
                    storage: &mut st,
                    api: &API,
                    querier: QuerierWrapper::new(&q),
                },
                env,
                e,
            )
        })
    }

    fn absorb(
        &mut self,
        addr: &str,
        r: Response,
        mut events: Vec<Event>,
        depth: u32,
    ) -> Res<TxOk> {
        if depth > 60 {
            return Err("message depth".into());
        }
        if !r.attributes.is_empty() {
            events.push(
                Event::new("wasm")
                    .add_attribute("_contract_address", addr)
                    .add_attributes(r.attributes),
            );
        }
        for e in r.events {
            events.push(
                Event::new(format!("wasm-{}", e.ty))
                    .add_attribute("_contract_address", addr)
                    .add_attributes(e.attributes),
            );
        }
        let mut data = r.data;
        for sm in r.messages {
            let catches = matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Error);
            let snap = if catches { Some(self.clone()) } else { None };
            let res = self.handle(addr, sm.msg, depth + 1);
            let reply = match res {
                Ok(ok) => {
                    events.extend(ok.events.clone());
                    if matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Success) {
                        Some(SubMsgResult::Ok(SubMsgResponse {
                            events: ok.events,
                            data: ok.data,
                        }))
                    } else {
                        None
                    }
                }
                Err(e) => {
                    if catches {
                        *self = snap.unwrap();
                        Some(SubMsgResult::Err(e))
                    } else {
                        return Err(e);
                    }
                }
            };
            if let Some(result) = reply {
                let r2 = self.call(addr, Entry::Reply(Reply { id: sm.id, result }))?;
                let ok = self.absorb(addr, r2, vec![], depth + 1)?;
                events.extend(ok.events);
                if ok.data.is_some() {
                    data = ok.data;
                }
            }
        }
        Ok(TxOk { events, data })
    }

    fn handle(&mut self, sender: &str, msg: CosmosMsg, depth: u32) -> Res<TxOk> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                API.addr_validate(&to_address).map_err(|e| e.to_string())?;
                if amount.is_empty() {
                    return Err("invalid coins: empty".into());
                }
                self.send(sender, &to_address, &amount)?;
                Ok(TxOk::default())
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                self.send(sender, "burned", &amount)?;
                Ok(TxOk::default())
            }
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr,
                msg,
                funds,
            }) => {
                if !self.contracts.contains_key(&contract_addr) {
                    return Err(format!("no such contract {contract_addr}"));
                }
                self.send(sender, &contract_addr, &funds)?;
                let r = self.call(
                    &contract_addr,
                    Entry::Exec(
                        MessageInfo {
                            sender: Addr::unchecked(sender),
                            funds,
                        },
                        msg.as_slice(),
                    ),
                )?;
                let ev = vec![Event::new("execute").add_attribute("_contract_address", &contract_addr)];
                let mut ok = self.absorb(&contract_addr, r, ev, depth)?;
                ok.data = ok.data.map(|d| Binary(pb_field(1, &d)));
                Ok(ok)
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate {
                admin,
                code_id,
                msg,
                funds,
                label,
            }) => {
                self.next += 1;
                let addr = format!("contract{:04}", self.next);
                self.contracts.insert(
                    addr.clone(),
                    Arc::new(Contract {
                        code_id,
                        creator: sender.to_string(),
                        admin,
                        label,
                        store: Default::default(),
                    }),
                );
                self.send(sender, &addr, &funds)?;
                let r = self.call(
                    &addr,
                    Entry::Inst(
                        MessageInfo {
                            sender: Addr::unchecked(sender),
                            funds,
                        },
                        msg.as_slice(),
                    ),
                )?;
                let ev = vec![Event::new("instantiate")
                    .add_attribute("_contract_address", &addr)
                    .add_attribute("code_id", code_id.to_string())];
                let mut ok = self.absorb(&addr, r, ev, depth)?;
                let mut d = pb_field(1, addr.as_bytes());
                if let Some(x) = &ok.data {
                    d.extend(pb_field(2, x));
                }
                ok.data = Some(Binary(d));
                Ok(ok)
            }
            CosmosMsg::Wasm(WasmMsg::Migrate {
                contract_addr,
                new_code_id,
                msg,
            }) => {
                let c = self
                    .contracts
                    .get_mut(&contract_addr)
                    .ok_or("no such contract")?;
                if c.admin.as_deref() != Some(sender) {
                    return Err("migrate: unauthorized".into());
                }
                Arc::make_mut(c).code_id = new_code_id;
                Arc::make_mut(&mut self.migrations).push((
                    contract_addr.clone(),
                    new_code_id,
                    String::from_utf8_lossy(msg.as_slice()).to_string(),
                ));
                let r = self.call(&contract_addr, Entry::Migrate(msg.as_slice()))?;
                let ev = vec![Event::new("migrate")
                    .add_attribute("_contract_address", &contract_addr)
                    .add_attribute("code_id", new_code_id.to_string())];
                let mut ok = self.absorb(&contract_addr, r, ev, depth)?;
                ok.data = ok.data.map(|d| Binary(pb_field(1, &d)));
                Ok(ok)
            }
            CosmosMsg::Wasm(WasmMsg::UpdateAdmin {
                contract_addr,
                admin,
            }) => {
                let c = self
                    .contracts
                    .get_mut(&contract_addr)
                    .ok_or("no such contract")?;
                if c.admin.as_deref() != Some(sender) {
                    return Err("update admin: unauthorized".into());
                }
                Arc::make_mut(c).admin = Some(admin);
                Ok(TxOk::default())
            }
            CosmosMsg::Wasm(WasmMsg::ClearAdmin { contract_addr }) => {
                let c = self
                    .contracts
                    .get_mut(&contract_addr)
                    .ok_or("no such contract")?;
                if c.admin.as_deref() != Some(sender) {
                    return Err("clear admin: unauthorized".into());
                }
                Arc::make_mut(c).admin = None;
                Ok(TxOk::default())
            }
            CosmosMsg::Stargate { type_url, value } => {
                Arc::make_mut(&mut self.outbox).push(format!(
                    "{sender}|{type_url}|{}",
                    value.to_base64()
                ));
                Ok(TxOk::default())
            }
            other => Err(format!("unsupported message {other:?}")),
        }
    }

    /// Runs one transaction; on failure the chain is unchanged.
    pub fn tx(&mut self, sender: &str, msg: CosmosMsg) -> Res<TxOk> {
        TXS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        reset_gas();
        let snap = self.clone();
        let r = self.handle(sender, msg, 0);
        if r.is_err() {
            *self = snap;
        }
        r
    }

    pub fn exec(&mut self, sender: &str, to: &str, msg: &impl Serialize, funds: &[Coin]) -> Res<TxOk> {
        self.tx(
            sender,
            WasmMsg::Execute {
                contract_addr: to.to_string(),
                msg: serde_json::to_vec(msg).unwrap().into(),
                funds: funds.to_vec(),
            }
            .into(),
        )
    }

    pub fn inst(
        &mut self,
        sender: &str,
        code_id: u64,
        msg: &impl Serialize,
        admin: Option<&str>,
    ) -> Res<String> {
        let label = "x".to_string();
        let n = self.next + 1;
        self.tx(
            sender,
            WasmMsg::Instantiate {
                admin: admin.map(|s| s.to_string()),
                code_id,
                msg: serde_json::to_vec(msg).unwrap().into(),
                funds: vec![],
                label,
            }
            .into(),
        )?;
        Ok(format!("contract{:04}", n))
    }

    pub fn q(&mut self, addr: &str, msg: &impl Serialize) -> Res<Value> {
        reset_gas();
        let b = self.q_raw(addr, &serde_json::to_vec(msg).unwrap())?;
        serde_json::from_slice(b.as_slice()).map_err(|e| e.to_string())
    }

    pub fn q_raw(&mut self, addr: &str, msg: &[u8]) -> Res<Binary> {
        let code = self
            .contracts
            .get(addr)
            .ok_or_else(|| format!("no such contract {addr}"))?
            .code_id;
        let cell = RefCell::new(self);
        run_query(&cell, addr, code, msg)
    }

    pub fn hash_into(&self, h: &mut impl Hasher) {
        self.height.hash(h);
        self.nanos.hash(h);
        for (k, v) in self.bank.iter() {
            if *v != 0 {
                k.hash(h);
                v.hash(h);
            }
        }
        for (a, c) in &self.contracts {
            a.hash(h);
            c.code_id.hash(h);
            c.admin.hash(h);
            c.store.hash(h);
        }
        self.outbox.hash(h);
        self.migrations.hash(h);
    }

    /// Everything except block time; used to compare states before/after a rejected call.
    pub fn digest(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash_into(&mut h);
        h.finish()
    }
}

pub fn coin(amount: u128, denom: &str) -> Coin {
    Coin {
        denom: denom.to_string(),
        amount: amount.into(),
    }
}

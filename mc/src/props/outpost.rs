//! C25: cross-chain treasuries.
use crate::ensure;
use crate::explore::*;
use crate::world::*;
use cosmwasm_std::Binary;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::hash::Hasher;

/// The address IBC hooks gives on Terra to messages from `sender` over `channel` (independent
/// re-implementation, bech32 by hand).
pub fn derived(channel: &str, sender: &str) -> String {
    derived_on("terra", channel, sender)
}
pub fn derived_on(prefix: &str, channel: &str, sender: &str) -> String {
    let h = Sha256::digest(b"ibc-wasm-hook-intermediary");
    let mut s = Sha256::new();
    s.update(h);
    s.update(format!("{channel}/{sender}").as_bytes());
    bech32(prefix, &s.finalize())
}
fn bech32(hrp: &str, data: &[u8]) -> String {
    const C: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    let mut v: Vec<u8> = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = (acc << 8) | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            v.push((acc >> bits & 31) as u8);
        }
    }
    if bits > 0 {
        v.push((acc << (5 - bits) & 31) as u8);
    }
    let poly = |vals: &[u8]| -> u32 {
        let g = [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
        let mut c = 1u32;
        for x in vals {
            let b = c >> 25;
            c = (c & 0x1ffffff) << 5 ^ *x as u32;
            for (i, k) in g.iter().enumerate() {
                if b >> i & 1 == 1 {
                    c ^= k;
                }
            }
        }
        c
    };
    let mut e: Vec<u8> = hrp.bytes().map(|b| b >> 5).collect();
    e.push(0);
    e.extend(hrp.bytes().map(|b| b & 31));
    e.extend(&v);
    e.extend([0; 6]);
    let p = poly(&e) ^ 1;
    for i in 0..6 {
        v.push((p >> (5 * (5 - i)) & 31) as u8);
    }
    format!("{hrp}1{}", v.iter().map(|x| C[*x as usize] as char).collect::<String>())
}

/// reply data of an instantiation (protobuf MsgInstantiateContractResponse)
pub fn inst_data(addr: &str) -> String {
    let mut v = vec![0x0a, addr.len() as u8];
    v.extend(addr.as_bytes());
    Binary(v).to_base64()
}
pub fn callback(id: u32, addr: &str) -> Value {
    json!({"execute_msg_reply_callback":{"callback_id":id,"events":[],"data":inst_data(addr)}})
}

/// One outgoing IBC transfer, decoded from the chain's outbox (protobuf by hand).
#[derive(Clone, Debug, PartialEq)]
pub struct Sent {
    pub from: String,
    pub port: String,
    pub channel: String,
    pub denom: String,
    pub amount: String,
    pub sender: String,
    pub receiver: String,
    pub timeout: u64,
    pub memo: Value,
}
fn fields(b: &[u8]) -> Option<Vec<(u64, u64, Vec<u8>)>> {
    fn varint(b: &[u8], i: &mut usize) -> Option<u64> {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let x = *b.get(*i)?;
            *i += 1;
            v |= ((x & 0x7f) as u64) << s;
            if x & 0x80 == 0 {
                return Some(v);
            }
            s += 7;
        }
    }
    let (mut i, mut o) = (0, vec![]);
    while i < b.len() {
        let k = varint(b, &mut i)?;
        let n = varint(b, &mut i)?;
        match k & 7 {
            0 => o.push((k >> 3, n, vec![])),
            2 => {
                o.push((k >> 3, 0, b.get(i..i + n as usize)?.to_vec()));
                i += n as usize;
            }
            _ => return None,
        }
    }
    Some(o)
}
pub fn decode(m: &str) -> Option<Sent> {
    let p: Vec<&str> = m.splitn(3, '|').collect();
    if p.get(1) != Some(&"/ibc.applications.transfer.v1.MsgTransfer") {
        return None;
    }
    let raw = Binary::from_base64(p[2]).ok()?;
    let f = fields(&raw)?;
    let s = |l: &[(u64, u64, Vec<u8>)], k: u64| l.iter().find(|x| x.0 == k).map(|x| String::from_utf8_lossy(&x.2).to_string()).unwrap_or_default();
    let tok = fields(&f.iter().find(|x| x.0 == 3)?.2)?;
    Some(Sent {
        from: p[0].into(),
        port: s(&f, 1),
        channel: s(&f, 2),
        denom: s(&tok, 1),
        amount: s(&tok, 2),
        sender: s(&f, 4),
        receiver: s(&f, 5),
        timeout: f.iter().find(|x| x.0 == 7).map_or(0, |x| x.1),
        memo: serde_json::from_str(&s(&f, 8)).ok()?,
    })
}
/// the single message a proxy is asked to run, with its callback
pub fn proxied(s: &Sent) -> Option<(Value, Value)> {
    let l = s.memo["wasm"]["msg"]["execute_msgs"]["msgs"].as_array()?;
    (l.len() == 1 && s.memo["wasm"]["contract"] == json!(s.receiver)).then(|| (l[0]["msg"].clone(), l[0]["reply_callback"].clone()))
}
pub fn unb64(v: &Value) -> Option<Value> {
    serde_json::from_slice(&Binary::from_base64(v.as_str()?).ok()?).ok()
}

// ------------------------------------------------------------------ C25

const CHAINS: usize = 2;
/// Deployment `v` on chain `c`. Variants of one chain share nothing but the chain id; the second
/// one of chain 0 uses the channel of chain 1 (same channel, other chain).
fn spec(c: usize, v: usize) -> Value {
    let (prefix, src, dest) = match (c, v) {
        (0, 0) => ("juno", "channel-10", "channel-20"),
        (0, _) => ("juno", "channel-11", "channel-21"),
        (1, 0) => ("osmo", "channel-11", "channel-20"),
        (_, _) => ("osmo", "channel-10", "channel-22"),
    };
    json!({"chain_id":format!("chain-{c}"),"chain_bech32_prefix":prefix,"src_ibc_port":format!("transfer{v}"),"src_ibc_channel":src,
        "dest_ibc_port":format!("port{v}{c}"),"dest_ibc_channel":dest,"uluna_denom":format!("ibc/LUNA{c}{v}"),
        "timeout_nanos":if v == 0 {Value::Null} else {json!(7_000_000_000u64 + c as u64)}})
}
fn deploy(c: usize, v: usize) -> Value {
    json!({"cross_chain_msg_spec":spec(c, v),"asset_whitelist":if v == 0 {Value::Null} else {json!([{"native":"ujuno"},{"cw20":format!("{c}token")}])},
        "nft_whitelist":if v == 0 {json!([format!("{c}nft")])} else {Value::Null},"ics_proxy_code_id":500 + c * 10 + v,"enterprise_treasury_code_id":600 + c * 10 + v,
        "chain_global_proxy":gproxy(c, v)})
}
/// one of chain 1's global proxies has the same address string as chain 0's
fn gproxy(c: usize, v: usize) -> String {
    if (c, v) == (1, 1) { gproxy(0, 0) } else { format!("globalproxy{c}{v}") }
}
fn tmsg(k: usize) -> Value {
    match k {
        0 => json!({"spend":{"recipient":"juno1friend","assets":[{"info":{"native":"ujuno"},"amount":"17"}]}}),
        1 => json!({"update_nft_whitelist":{"add":["nft9"],"remove":[]}}),
        _ => json!({"execute_cosmos_msgs":{"msgs":["{}"]}}),
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Cb {
    treasury: bool,
    c: usize,
    v: usize,
}
#[derive(Clone)]
struct S {
    w: World,
    last: u32,
    open: BTreeMap<u32, Cb>,
    proxies: BTreeMap<usize, String>,
    treasuries: BTreeMap<usize, String>,
}
#[derive(Clone, Debug)]
enum A {
    Deploy(Who, usize, usize),
    Execute(Who, usize, usize, usize),
    /// callback id, sender, answer
    Reply(u32, From, Ans),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Who {
    Controller,
    Enterprise,
    Treasury,
    Outposts,
    User,
}
const WHO: [Who; 5] = [Who::Controller, Who::Enterprise, Who::Treasury, Who::Outposts, Who::User];
#[derive(Clone, Copy, Debug, PartialEq)]
enum From {
    /// the IBC-hooks identity of the proxy the request went to, over the channel it went through
    Genuine(usize, usize),
    /// the same over the remote end's channel name
    DestChannel(usize, usize),
    /// the recorded proxy of the chain over this variant's channel
    DaoProxy(usize, usize),
    /// an address spelled like the proxy itself
    Raw(usize, usize),
    Local(Who),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans {
    Addr(u8),
    Garbage,
    None,
}
struct M {
    initial: bool,
    deep: bool,
}
fn ans_addr(c: usize, n: u8) -> String {
    format!("{}1remote{n}", if c == 0 { "juno" } else { "osmo" })
}
impl S {
    fn who(&self, w: Who) -> String {
        match w {
            Who::Controller => self.w.d.controller.clone(),
            Who::Enterprise => self.w.d.enterprise.clone(),
            Who::Treasury => self.w.d.treasury.clone(),
            Who::Outposts => self.w.d.outposts.clone(),
            Who::User => "usera".into(),
        }
    }
    fn from(&self, f: From) -> String {
        let ch = |c, v, k: &str| spec(c, v)[k].as_str().unwrap().to_string();
        match f {
            From::Genuine(c, v) => derived(&ch(c, v, "src_ibc_channel"), &gproxy(c, v)),
            From::DestChannel(c, v) => derived(&ch(c, v, "dest_ibc_channel"), &gproxy(c, v)),
            From::DaoProxy(c, v) => derived(&ch(c, v, "src_ibc_channel"), &self.proxies.get(&c).cloned().unwrap_or(ans_addr(c, 0))),
            From::Raw(c, v) => gproxy(c, v),
            From::Local(w) => self.who(w),
        }
    }
    /// the message a deployment step must send: (code id, admin, init msg, label irrelevant)
    fn expect(&self, s: &Sent, cb: &Cb, id: u32) -> Chk {
        let sp = spec(cb.c, cb.v);
        let d = deploy(cb.c, cb.v);
        self.envelope(s, &sp, &gproxy(cb.c, cb.v))?;
        let (msg, back) = match proxied(s) {
            Some(x) => x,
            None => return viol("memo", format!("{}", s.memo)),
        };
        let want = json!({"callback_id":id,"ibc_port":sp["dest_ibc_port"],"ibc_channel":sp["dest_ibc_channel"],"denom":sp["uluna_denom"],"receiver":self.w.d.outposts});
        ensure!(back == want, "callback-request", "asked for callback {back}, expected {want}");
        let i = &msg["wasm"]["instantiate"];
        ensure!(msg.as_object().map_or(0, |m| m.len()) == 1 && i["funds"] == json!([]), "memo", "{msg}");
        let init = unb64(&i["msg"]).unwrap_or_default();
        if cb.treasury {
            let p = &self.proxies[&cb.c];
            ensure!(i["code_id"] == d["enterprise_treasury_code_id"] && i["admin"] == json!(p), "treasury-request", "{i}, the DAO's proxy is {p}");
            let want = json!({"admin":p,"asset_whitelist":d["asset_whitelist"],"nft_whitelist":d["nft_whitelist"]});
            ensure!(init == want, "treasury-request", "treasury configured as {init}, expected {want}");
        } else {
            let owner = derived_on(sp["chain_bech32_prefix"].as_str().unwrap(), sp["dest_ibc_channel"].as_str().unwrap(), &self.w.d.outposts);
            ensure!(i["code_id"] == d["ics_proxy_code_id"] && i["admin"].is_null(), "proxy-request", "{i}");
            ensure!(init["owner"] == json!(owner) && init["whitelist"].is_null() && init["msgs"].is_null() && init["allow_cross_chain_msgs"] == json!(true), "proxy-request", "proxy configured as {init}, owner should be {owner}");
        }
        Ok(())
    }
    fn envelope(&self, s: &Sent, sp: &Value, to: &str) -> Chk {
        let t = self.w.c.nanos + sp["timeout_nanos"].as_u64().unwrap_or(900_000_000_000);
        let o = &self.w.d.outposts;
        let ok = s.from == *o && s.sender == *o && s.receiver == to && json!(s.port) == sp["src_ibc_port"] && json!(s.channel) == sp["src_ibc_channel"]
            && s.denom == "uluna" && s.amount == "1" && s.timeout == t;
        ensure!(ok, "ibc-message", "{s:?} for {sp} to {to}, timeout {t}");
        Ok(())
    }
    fn sent(&mut self) -> Vec<Option<Sent>> {
        let r = self.w.c.outbox.iter().map(|m| decode(m)).collect();
        self.w.c.outbox = Default::default();
        r
    }
    fn consistent(&mut self) -> Chk {
        let o = self.w.d.outposts.clone();
        for c in 0..CHAINS + 1 {
            let r = self.w.c.q(&o, &json!({"cross_chain_deployments":{"chain_id":format!("chain-{c}")}})).map_err(|e| Violation { sig: "query".into(), msg: e })?;
            let want = json!({"chain_id":format!("chain-{c}"),"proxy_addr":self.proxies.get(&c),"treasury_addr":self.treasuries.get(&c)});
            ensure!(r == want, "recorded", "deployments are {r}, should be {want}");
        }
        let mut got: Vec<Value> = vec![];
        loop {
            let r = self.w.c.q(&o, &json!({"cross_chain_treasuries":{"start_after":got.last().map(|x|x["chain_id"].clone()),"limit":1}})).map_err(|e| Violation { sig: "query".into(), msg: e })?;
            let l = r["treasuries"].as_array().cloned().unwrap_or_default();
            if l.is_empty() || got.len() > 5 {
                break;
            }
            got.extend(l);
        }
        let want: Vec<Value> = self.treasuries.iter().map(|(c, a)| json!({"chain_id":format!("chain-{c}"),"treasury_addr":a})).collect();
        let all = self.w.c.q(&o, &json!({"cross_chain_treasuries":{}})).map_err(|e| Violation { sig: "query".into(), msg: e })?;
        ensure!(got == want && all["treasuries"] == json!(want), "recorded", "treasuries listed {got:?} / {all}, should be {want:?}");
        Ok(())
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("deployments and callbacks{}", if self.initial { ", two initial treasuries" } else { "" })
    }
    fn init(&self) -> Vec<S> {
        let mut w = World::base(&[]);
        let mut cfg = Cfg::new(Kind::Token);
        w.kind = Kind::Token;
        if self.initial {
            cfg.cross_chain = Some(vec![deploy(0, 0), deploy(1, 1)]);
            let f = w.factory.clone();
            w.c.mint(&f, "uluna", 10);
        }
        w.d = w.create(&cfg).unwrap();
        let mut s = S { w, last: 0, open: BTreeMap::new(), proxies: BTreeMap::new(), treasuries: BTreeMap::new() };
        if self.initial {
            let ids: Vec<u32> = s.sent().iter().filter_map(|m| proxied(m.as_ref()?)?.1["callback_id"].as_u64()).map(|x| x as u32).collect();
            s.open = ids.iter().zip([Cb { treasury: false, c: 0, v: 0 }, Cb { treasury: false, c: 1, v: 1 }]).map(|(i, c)| (*i, c)).collect();
            s.last = ids.iter().copied().max().unwrap_or(0);
        }
        s.w.c.advance(1, 5);
        vec![s]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        for c in 0..CHAINS {
            for x in 0..2 {
                // at most four callbacks ever requested
                if s.last < if self.deep { 5 } else { 4 } {
                    v.push(A::Deploy(Who::Controller, c, x));
                }
                for k in 0..if self.deep { 3 } else { 1 + c } {
                    v.push(A::Execute(Who::Controller, c, x, k));
                }
            }
            for w in &WHO[1..] {
                v.push(A::Deploy(*w, c, 0));
                v.push(A::Execute(*w, c, 0, 0));
            }
        }
        for id in 0..=s.last + 1 {
            let mut senders = vec![From::Local(Who::Controller), From::Local(Who::User), From::Local(Who::Outposts)];
            for c in 0..CHAINS {
                for x in 0..2 {
                    senders.extend([From::Genuine(c, x), From::DestChannel(c, x), From::DaoProxy(c, x), From::Raw(c, x)]);
                }
            }
            for f in senders {
                v.push(A::Reply(id, f, Ans::Addr(0)));
                if let From::Genuine(c, x) = f {
                    if s.open.get(&id).map_or(false, |b| b.c == c && b.v == x) {
                        v.push(A::Reply(id, f, Ans::Addr(1)));
                        v.push(A::Reply(id, f, Ans::Garbage));
                        v.push(A::Reply(id, f, Ans::None));
                    }
                }
            }
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let o = s.w.d.outposts.clone();
        let d0 = s.w.c.digest();
        let (sender, msg) = match a {
            A::Deploy(w, c, v) => (s.who(*w), json!({"deploy_cross_chain_treasury":deploy(*c, *v)})),
            A::Execute(w, c, v, k) => (s.who(*w), json!({"execute_cross_chain_treasury":{"msg":tmsg(*k),"treasury_target":{"cross_chain_msg_spec":spec(*c, *v)}}})),
            A::Reply(id, f, x) => {
                let c = s.open.get(id).map_or(0, |b| b.c);
                let data = match x {
                    Ans::Addr(n) => json!(inst_data(&ans_addr(c, *n))),
                    Ans::Garbage => json!(Binary(vec![0xff, 0xff]).to_base64()),
                    Ans::None => Value::Null,
                };
                (s.from(*f), json!({"execute_msg_reply_callback":{"callback_id":id,"events":[],"data":data}}))
            }
        };
        let r = s.w.ex(&sender, &o, msg, &[]);
        let sent = s.sent();
        let allowed = match a {
            A::Deploy(w, c, _) => *w == Who::Controller && !s.treasuries.contains_key(c),
            A::Execute(w, c, ..) => *w == Who::Controller && s.treasuries.contains_key(c) && s.proxies.contains_key(c),
            A::Reply(id, _, x) => s.open.get(id).map_or(false, |b| {
                matches!(x, Ans::Addr(_)) && sender == s.from(From::Genuine(b.c, b.v)) && !(if b.treasury { &s.treasuries } else { &s.proxies }).contains_key(&b.c)
            }),
        };
        ensure!(r.is_ok() == allowed, if allowed { "refused" } else { "accepted" }, "{a:?}: {:?}; outstanding {:?}, proxies {:?}, treasuries {:?}", r.as_ref().err(), s.open, s.proxies, s.treasuries);
        if !allowed {
            ensure!(s.w.c.digest() == d0 && sent.is_empty(), "side-effect", "refused {a:?} changed something");
            return Ok(Step::Rejected);
        }
        let mut expect: Option<Cb> = None;
        match a {
            A::Deploy(_, c, v) => expect = Some(Cb { treasury: s.proxies.contains_key(c), c: *c, v: *v }),
            A::Execute(_, c, v, k) => {
                ensure!(sent.len() == 1 && sent[0].is_some(), "ibc-message", "{} messages sent", sent.len());
                let m = sent[0].as_ref().unwrap();
                s.envelope(m, &spec(*c, *v), &s.proxies[c])?;
                let (msg, back) = proxied(m).ok_or(Violation { sig: "memo".into(), msg: m.memo.to_string() })?;
                let x = &msg["wasm"]["execute"];
                ensure!(x["contract_addr"] == json!(s.treasuries[c]) && unb64(&x["msg"]) == Some(tmsg(*k)) && x["funds"] == json!([]) && back.is_null(), "command", "sent {msg} (callback {back}) to treasury {}", s.treasuries[c]);
                ensure!(s.w.c.digest() == d0, "side-effect", "a command changed local state");
            }
            A::Reply(id, _, x) => {
                let b = s.open.remove(id).unwrap();
                let n = if let Ans::Addr(n) = x { *n } else { 0 };
                if b.treasury {
                    s.treasuries.insert(b.c, ans_addr(b.c, n));
                } else {
                    s.proxies.insert(b.c, ans_addr(b.c, n));
                    expect = Some(Cb { treasury: true, c: b.c, v: b.v });
                }
            }
        }
        match expect {
            Some(cb) => {
                ensure!(sent.len() == 1 && sent[0].is_some(), "ibc-message", "{} messages sent", sent.len());
                let m = sent[0].clone().unwrap();
                // any fresh id will do
                let id = proxied(&m).map_or(0, |x| x.1["callback_id"].as_u64().unwrap_or(0)) as u32;
                ensure!(id > 0 && !s.open.contains_key(&id) && id > s.last, "callback-id", "callback id {id} reused (last {})", s.last);
                s.expect(&m, &cb, id)?;
                s.last = id;
                s.open.insert(id, cb);
            }
            None => ensure!(sent.len() == matches!(a, A::Execute(..)) as usize, "ibc-message", "{a:?} sent {} messages", sent.len()),
        }
        s.consistent()?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
    }
}
pub fn c25(ctx: &mut Ctx) {
    for initial in [false, true] {
        let m = M { initial, deep: ctx.q(false, true) };
        ctx.explore(&m, ctx.q(7, 8));
    }
}

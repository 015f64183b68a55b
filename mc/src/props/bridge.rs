//! C26: DAOs over a bridged (ICS721) collection, and the callback proxy.
use crate::ensure;
use crate::explore::*;
use crate::sim::code;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::Hasher;

const CLASS: [&str; 2] = ["class/one", "class/two"];
const US: [&str; 2] = ["usera", "userb"];

#[derive(Clone)]
struct S {
    w: World,
    /// membership contract of the DAO over class 0 / class 1
    mem: [String; 2],
    ent: [String; 2],
    bridge: String,
    cbp: String,
    /// the local contract of each class, and one of no class
    coll: [String; 3],
    known: [bool; 2],
    /// a stake has been accepted by that DAO
    first: [bool; 2],
    /// (dao, token) -> staker
    staked: BTreeMap<(usize, String), String>,
    /// (dao) -> [(user, tokens)], released or not
    claims: Vec<(usize, String, Vec<String>, bool)>,
    owner: BTreeMap<(usize, String), String>,
    ticks: u8,
}
#[derive(Clone, Debug)]
enum A {
    /// the bridge learns a class's local contract
    Register(usize),
    /// (sender, collection, tokens, payload, user, dao)
    Callback(&'static str, usize, Vec<&'static str>, Pay, &'static str, usize),
    /// the owner sends an NFT of a collection to a DAO, to stake for a user
    Send(usize, &'static str, &'static str, usize),
    /// the hook called without any NFT: (sender, token, dao)
    Fake(&'static str, &'static str, usize),
    Unstake(&'static str, &'static str, usize),
    Claim(&'static str, usize),
    /// owner's claim for release in the future / past, attached to a sent NFT
    AddClaim(usize, &'static str, usize),
    Tick,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Pay {
    Stake,
    Unknown,
    Garbage,
}
struct M {
    deep: bool,
}
const T: [&str; 3] = ["n1", "n2", "n3"];

impl S {
    fn own(&mut self, c: usize, t: &str) -> String {
        let a = self.coll[c].clone();
        self.w.c.q(&a, &json!({"owner_of":{"token_id":t}})).map(|r| r["owner"].as_str().unwrap_or("").to_string()).unwrap_or_default()
    }
    fn who(&self, s: &str) -> String {
        match s {
            "bridge" => self.bridge.clone(),
            "callback" => self.cbp.clone(),
            "coll0" => self.coll[0].clone(),
            "coll1" => self.coll[1].clone(),
            x => x.to_string(),
        }
    }
    /// `dao` accepts NFTs of collection `c`
    fn accepts(&self, dao: usize, c: usize) -> bool {
        self.known[dao] && c == dao
    }
    fn consistent(&mut self) -> Chk {
        let e = |e: String| Violation { sig: "query".into(), msg: e };
        for dao in 0..2 {
            let m = self.mem[dao].clone();
            let mut total = 0;
            for u in US {
                let want: Vec<&String> = self.staked.iter().filter(|((d, _), s)| *d == dao && *s == u).map(|((_, t), _)| t).collect();
                total += want.len() as u128;
                let r = self.w.c.q(&m, &json!({"user_stake":{"user":u,"start_after":null,"limit":null}})).map_err(e)?;
                ensure!(r["tokens"] == json!(want), "stakes", "DAO {dao}: {u} has staked {}, should be {want:?}", r["tokens"]);
                let wt = self.w.weight_of(&m, u);
                ensure!(wt == want.len() as u128, "weight", "DAO {dao}: {u} weighs {wt} with {want:?} staked");
                let mut cl: Vec<Vec<String>> = self.claims.iter().filter(|x| x.0 == dao && x.1 == u).map(|x| x.2.clone()).collect();
                let r = self.w.c.q(&m, &json!({"claims":{"user":u}})).map_err(e)?;
                let mut got: Vec<Vec<String>> = r["claims"].as_array().map(|l| l.iter().map(|x| serde_json::from_value(x["nft_ids"].clone()).unwrap_or_default()).collect()).unwrap_or_default();
                cl.sort();
                got.sort();
                ensure!(got == cl, "claims", "DAO {dao}: {u} has claims {got:?}, should be {cl:?}");
            }
            let t = as_u128(&self.w.c.q(&m, &json!({"total_weight":{"expiration":{"never":{}}}})).map_err(e)?["total_weight"]);
            ensure!(t == total, "total", "DAO {dao}: total weight {t}, staked {total}");
            // the local contract is reported from the moment the bridge knows it
            let r = self.w.c.q(&m, &json!({"nft_config":{}}));
            let c = r.as_ref().map(|r| r["nft_contract"].clone()).ok();
            ensure!(c == self.known[dao].then(|| json!(self.coll[dao])), "resolved", "DAO {dao} reports collection {r:?}; known {:?}", self.known);
            let c = self.w.c.q(&m, &json!({"nft_contract_config":{}})).map_err(e)?["nft_contract"].clone();
            let res = json!({"cw721":{"contract":self.coll[dao]}});
            let un = json!({"ics721":{"contract":self.bridge,"class_id":CLASS[dao]}});
            let ok = if self.first[dao] { c == res } else if self.known[dao] { c == res || c == un } else { c == un };
            ensure!(ok, "resolved", "DAO {dao} reports collection {c}; known {:?}, used {:?}", self.known, self.first);
        }
        for ((c, t), o) in self.owner.clone() {
            let got = self.own(c, &t);
            ensure!(got == o, "custody", "{t} of collection {c} is owned by {got}, should be {o}");
        }
        Ok(())
    }
}

impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        "bridged collections".into()
    }
    fn init(&self) -> Vec<S> {
        let mut w = World::base(&[]);
        let bridge = w.c.inst(ADMIN, code::ICS721_PROXY, &json!({}), None).unwrap();
        let cbp = w.c.inst(ADMIN, code::ICS721_CALLBACK, &json!({"ics721_proxy":bridge}), None).unwrap();
        let cfg = Cfg::new(Kind::Nft);
        w.kind = Kind::Nft;
        let d: Vec<Dao> = CLASS
            .iter()
            .map(|c| w.create_with(&cfg, json!({"new_ics721":{"ics721_proxy":bridge,"class_id":c,"unlocking_period":{"time":1000}}})).unwrap())
            .collect();
        let coll: Vec<String> = (0..3).map(|_| w.c.inst(ADMIN, code::CW721, &json!({"name":"nft","symbol":"NFT","minter":ADMIN}), None).unwrap()).collect();
        let mut owner = BTreeMap::new();
        for (i, c) in coll.iter().enumerate() {
            // n1 was bridged to usera before, n2 and n3 arrived with a callback
            for t in T {
                let o = if t == "n1" { "usera".to_string() } else { cbp.clone() };
                w.c.exec(ADMIN, c, &json!({"mint":{"token_id":t,"owner":o,"token_uri":null,"extension":null}}), &[]).unwrap();
                owner.insert((i, t.to_string()), o);
            }
        }
        w.c.advance(1, 5);
        vec![S {
            mem: [d[0].membership.clone(), d[1].membership.clone()],
            ent: [d[0].enterprise.clone(), d[1].enterprise.clone()],
            w,
            bridge,
            cbp,
            coll: [coll[0].clone(), coll[1].clone(), coll[2].clone()],
            known: [false; 2],
            first: [false; 2],
            staked: BTreeMap::new(),
            claims: vec![],
            owner,
            ticks: 0,
        }]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![A::Register(0), A::Register(1)];
        for dao in 0..2 {
            for c in 0..3 {
                for ts in [vec!["n2"], vec!["n3", "n2"], vec!["n2", "n2"], vec![], vec!["n1"], vec!["n2", "n1"], vec!["n2", "n9"]] {
                    v.push(A::Callback("bridge", c, ts, Pay::Stake, "userb", dao));
                }
                v.push(A::Callback("bridge", c, vec!["n3"], Pay::Stake, "usera", dao));
                if dao == 0 && (self.deep || c == 0) {
                    for f in ["usera", "callback", "coll0", ADMIN] {
                        v.push(A::Callback(f, c, vec!["n2"], Pay::Stake, "userb", dao));
                    }
                    for p in [Pay::Unknown, Pay::Garbage] {
                        v.push(A::Callback("bridge", c, vec!["n2"], p, "userb", dao));
                        v.push(A::Callback("userb", c, vec!["n2"], p, "userb", dao));
                    }
                }
                for u in US {
                    v.push(A::Send(c, "n1", u, dao));
                }
                v.push(A::AddClaim(c, "n1", dao));
            }
            for f in ["usera", "bridge", "callback", "coll1", "coll0"] {
                // a collection that really is the DAO's own cannot be impersonated
                if s.who(f) != s.coll[dao] {
                    v.push(A::Fake(f, "n1", dao));
                }
            }
            for u in US {
                for t in T {
                    if s.staked.contains_key(&(dao, t.to_string())) {
                        v.push(A::Unstake(u, t, dao));
                    }
                }
                v.push(A::Claim(u, dao));
            }
        }
        if s.ticks < 1 {
            v.push(A::Tick);
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let d0 = s.w.c.digest();
        let stake = |u: &str| b64(&json!({"stake":{"user":u}}));
        let (r, allowed) = match a {
            A::Tick => {
                s.w.c.advance(200, 1000);
                s.ticks += 1;
                s.claims.iter_mut().for_each(|c| c.3 = true);
                s.consistent()?;
                return Ok(Step::Accepted);
            }
            A::Register(i) => {
                if s.known[*i] {
                    return Ok(Step::Skip);
                }
                let (b, c) = (s.bridge.clone(), s.coll[*i].clone());
                s.w.ex(ADMIN, &b, json!({"set":{"class":CLASS[*i],"addr":c}}), &[]).unwrap();
                s.known[*i] = true;
                s.consistent()?;
                return Ok(Step::Accepted);
            }
            A::Callback(f, c, ts, p, u, dao) => {
                let pay = match p {
                    Pay::Stake => b64(&json!({"stake":{"user":u,"membership_contract":s.mem[*dao]}})),
                    Pay::Unknown => b64(&json!({"send":{"user":u,"membership_contract":s.mem[*dao]}})),
                    Pay::Garbage => json!("AAEC"),
                };
                let msg = json!({"ics721_receive_callback":{"nft_contract":s.coll[*c],"msg":pay,"original_packet":{
                    "classId":CLASS[0],"classUri":null,"classData":null,"tokenIds":ts,"tokenUris":null,"tokenData":null,
                    "sender":"juno1friend","receiver":s.cbp,"memo":null}}});
                let (from, to) = (s.who(f), s.cbp.clone());
                let r = s.w.ex(&from, &to, msg, &[]);
                let mut uniq = ts.clone();
                uniq.sort();
                uniq.dedup();
                let mine = uniq.len() == ts.len() && ts.iter().all(|t| s.owner.get(&(*c, t.to_string())) == Some(&s.cbp));
                let ok = *f == "bridge" && (*p != Pay::Stake || ts.is_empty() || mine && s.accepts(*dao, *c));
                if ok && *p == Pay::Stake {
                    for t in ts {
                        s.staked.insert((*dao, t.to_string()), u.to_string());
                        s.owner.insert((*c, t.to_string()), s.mem[*dao].clone());
                        s.first[*dao] = true;
                    }
                }
                (r, ok)
            }
            A::Send(c, t, u, dao) => {
                let (o, to) = (s.owner[&(*c, t.to_string())].clone(), s.coll[*c].clone());
                if !US.contains(&o.as_str()) {
                    return Ok(Step::Skip);
                }
                let r = s.w.ex(&o, &to, json!({"send_nft":{"contract":s.mem[*dao],"token_id":t,"msg":stake(u)}}), &[]);
                let ok = s.accepts(*dao, *c);
                if ok {
                    s.staked.insert((*dao, t.to_string()), u.to_string());
                    s.owner.insert((*c, t.to_string()), s.mem[*dao].clone());
                    s.first[*dao] = true;
                }
                (r, ok)
            }
            A::AddClaim(c, t, dao) => {
                let (o, to) = (s.owner[&(*c, t.to_string())].clone(), s.coll[*c].clone());
                if !US.contains(&o.as_str()) {
                    return Ok(Step::Skip);
                }
                let at = json!({"timestamp":s.w.c.nanos.to_string()});
                let r = s.w.ex(&o, &to, json!({"send_nft":{"contract":s.mem[*dao],"token_id":t,"msg":b64(&json!({"add_claim":{"user":"userb","release_at":at}}))}}), &[]);
                let ok = s.accepts(*dao, *c);
                if ok {
                    s.claims.push((*dao, "userb".into(), vec![t.to_string()], true));
                    s.owner.insert((*c, t.to_string()), s.mem[*dao].clone());
                    s.first[*dao] = true;
                }
                (r, ok)
            }
            A::Fake(f, t, dao) => {
                let (from, to) = (s.who(f), s.mem[*dao].clone());
                let r = s.w.ex(&from, &to, json!({"receive_nft":{"sender":"usera","token_id":t,"msg":stake("usera")}}), &[]);
                (r, false)
            }
            A::Unstake(u, t, dao) => {
                let to = s.mem[*dao].clone();
                let r = s.w.ex(u, &to, json!({"unstake":{"nft_ids":[t]}}), &[]);
                let ok = s.staked.get(&(*dao, t.to_string())).map_or(false, |x| x == u);
                if ok {
                    s.staked.remove(&(*dao, t.to_string()));
                    s.claims.push((*dao, u.to_string(), vec![t.to_string()], false));
                }
                (r, ok)
            }
            A::Claim(u, dao) => {
                let to = s.mem[*dao].clone();
                let r = s.w.ex(u, &to, json!({"claim":{"user":null}}), &[]);
                // before anything can be staked there is nothing to claim: either answer will do
                if !s.claims.iter().any(|x| x.0 == *dao && x.1 == *u && x.3) {
                    s.consistent()?;
                    return Ok(Step::Rejected);
                }
                for x in s.claims.iter().filter(|x| x.0 == *dao && x.1 == *u && x.3) {
                    for t in &x.2 {
                        s.owner.insert((*dao, t.clone()), u.to_string());
                    }
                }
                s.claims.retain(|x| !(x.0 == *dao && x.1 == *u && x.3));
                (r, true)
            }
        };
        ensure!(r.is_ok() == allowed, if allowed { "refused" } else { "accepted" }, "{a:?}: {:?}; known {:?}, staked {:?}", r.err(), s.known, s.staked);
        if !allowed {
            ensure!(s.w.c.digest() == d0, "side-effect", "refused {a:?} changed something");
            return Ok(Step::Rejected);
        }
        s.consistent()?;
        let _ = &s.ent;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
        h_into(&(s.ticks, &s.known, &s.first, &s.claims), h);
    }
}

/// the callback proxy's configuration is what it was instantiated with, and only its bridge counts
fn two_bridges(ctx: &mut Ctx) {
    ctx.grid(
        "two bridges, two callback proxies",
        4,
        |i| json!({"caller": i / 2, "proxy": i % 2}),
        |i| {
            let mut w = World::base(&[]);
            let b: Vec<String> = (0..2).map(|_| w.c.inst(ADMIN, code::ICS721_PROXY, &json!({}), None).unwrap()).collect();
            let p: Vec<String> = b.iter().map(|b| w.c.inst(ADMIN, code::ICS721_CALLBACK, &json!({"ics721_proxy":b}), None).unwrap()).collect();
            for k in 0..2 {
                let r = w.c.q(&p[k], &json!({"config":{}})).map_err(|e| Violation { sig: "query".into(), msg: e })?;
                ensure!(r["ics721_proxy"] == json!(b[k]), "config", "proxy {k} reports {r}");
            }
            let m: Value = json!({"ics721_receive_callback":{"nft_contract":w.nft,"msg":b64(&json!({})),"original_packet":{
                "classId":CLASS[0],"classUri":null,"classData":null,"tokenIds":[],"tokenUris":null,"tokenData":null,"sender":"juno1friend","receiver":p[i % 2],"memo":null}}});
            let r = w.ex(&b[i / 2], &p[i % 2], m, &[]);
            ensure!(r.is_ok() == (i / 2 == i % 2), "foreign-bridge", "{r:?}");
            Ok(true)
        },
    );
}
/// one transfer of any number of NFTs: every one of them ends up staked for the named user
fn packets(ctx: &mut Ctx) {
    let n = ctx.q(14, 40);
    ctx.grid(
        "packets of many tokens",
        n * 2,
        |i| json!({"tokens": i / 2 + 1, "split": i % 2}),
        |i| {
            let (n, split) = (i / 2 + 1, i % 2 == 1);
            let mut s = M { deep: false }.init().remove(0);
            let (b, c, cb, m) = (s.bridge.clone(), s.coll[0].clone(), s.cbp.clone(), s.mem[0].clone());
            s.w.ex(ADMIN, &b, json!({"set":{"class":CLASS[0],"addr":c}}), &[]).unwrap();
            let ids: Vec<String> = (0..n).map(|k| format!("p{k:03}")).collect();
            for t in &ids {
                s.w.ex(ADMIN, &c, json!({"mint":{"token_id":t,"owner":cb,"token_uri":null,"extension":null}}), &[]).unwrap();
            }
            let at = if split { n / 2 } else { n };
            for (u, part) in [("usera", &ids[..at]), ("userb", &ids[at..])] {
                let msg = json!({"ics721_receive_callback":{"nft_contract":c,"msg":b64(&json!({"stake":{"user":u,"membership_contract":m}})),"original_packet":{
                    "classId":CLASS[0],"classUri":null,"classData":null,"tokenIds":part,"tokenUris":null,"tokenData":null,
                    "sender":"juno1friend","receiver":cb,"memo":null}}});
                let r = s.w.ex(&b, &cb, msg, &[]);
                ensure!(r.is_ok(), "refused", "{} tokens for {u}: {r:?}", part.len());
            }
            for (u, part) in [("usera", &ids[..at]), ("userb", &ids[at..])] {
                let w = s.w.weight_of(&m, u);
                ensure!(w == part.len() as u128, "weight", "{u} weighs {w} after {} bridged NFTs", part.len());
            }
            for t in &ids {
                let o = s.own(0, t);
                ensure!(o == m, "custody", "{t} of {n} is held by {o}");
            }
            Ok(true)
        },
    );
}
pub fn c26(ctx: &mut Ctx) {
    packets(ctx);
    two_bridges(ctx);
    let m = M { deep: ctx.q(false, true) };
    ctx.explore(&m, ctx.q(7, 9));
}

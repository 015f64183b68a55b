//! C27: moving the stakes and claims of a DAO from before the rewrite into its membership contract.
use crate::ensure;
use crate::explore::*;
use crate::sim::Chain;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::Hasher;
use std::sync::Arc;

const EXTRA: u128 = 100;

// ---- legacy storage, written byte by byte in the old contract's format ----
fn map_key(ns: &str, k: &[u8]) -> Vec<u8> {
    let mut v = (ns.len() as u16).to_be_bytes().to_vec();
    v.extend(ns.as_bytes());
    v.extend(k);
    v
}
fn put(c: &mut Chain, a: &str, k: Vec<u8>, v: &Value) {
    let x = Arc::make_mut(c.contracts.get_mut(a).unwrap());
    Arc::make_mut(&mut x.store).insert(k, serde_json::to_vec(v).unwrap());
}

/// One movable thing: (user, amount or token id, release time of a claim / null for a stake)
type Unit = (String, String, Value);

#[derive(Clone, Debug)]
struct Pop {
    kind: Kind,
    /// stakes and claims; claims carry the number of the claim they belong to (NFT claims hold several tokens)
    stakes: Vec<(String, String)>,
    claims: Vec<(String, Vec<String>, Value)>,
    stage: Option<&'static str>,
}
/// everyone with something to move, and the three users
fn users(p: &Pop) -> Arc<Vec<String>> {
    let mut v: Vec<String> = US.iter().map(|x| x.to_string()).collect();
    v.extend(p.stakes.iter().map(|x| x.0.clone()).chain(p.claims.iter().map(|x| x.0.clone())));
    v.sort();
    v.dedup();
    Arc::new(v)
}
#[derive(Clone)]
struct S {
    us: Arc<Vec<String>>,
    w: World,
    pop: usize,
    left: Vec<Unit>,
    /// in the membership contract
    stakes: Vec<(String, String)>,
    claims: Vec<Unit>,
    /// tokens in users' hands
    wallet: BTreeMap<String, u128>,
    completed: bool,
    started: bool,
    ticks: u8,
    users: u8,
}
#[derive(Clone, Debug)]
enum A {
    Step(&'static str, Option<u32>),
    Stake(&'static str),
    Unstake(&'static str),
    Claim(&'static str),
    Tick,
}
struct M {
    name: String,
    pops: Vec<Pop>,
    limits: Vec<Option<u32>>,
    /// number of users' own operations interleaved
    ops: u8,
}
const US: [&str; 3] = ["usera", "userb", "userc"];

fn total(p: &Pop) -> u128 {
    match p.kind {
        Kind::Nft => p.stakes.len() as u128,
        _ => p.stakes.iter().map(|x| x.1.parse::<u128>().unwrap()).sum(),
    }
}
fn orig(p: &Pop, u: &str) -> u128 {
    let l = p.stakes.iter().filter(|x| x.0 == u);
    match p.kind {
        Kind::Nft => l.count() as u128,
        _ => l.map(|x| x.1.parse::<u128>().unwrap()).sum(),
    }
}
fn sum<'a>(i: impl Iterator<Item = &'a String>) -> u128 {
    i.map(|x| x.parse::<u128>().unwrap_or(0)).sum()
}

fn setup(i: usize, p: &Pop) -> S {
    setup_v(i, p, None)
}
fn setup_v(i: usize, p: &Pop, newer: Option<(u64, u64, u64)>) -> S {
    let mut cfg = Cfg::new(p.kind);
    cfg.unlocking = json!({"time":500});
    cfg.gov.duration = 500;
    let mut w = World::base(&[]);
    if let Some(v) = newer {
        let ver = w.versioning.clone();
        w.ex(ADMIN, &ver, json!({"add_version":{"version":version_info(v,2)}}), &[]).unwrap();
    }
    w.kind = p.kind;
    w.d = w.create(&cfg).unwrap();
    let (t, tok, nft) = (w.d.treasury.clone(), w.token.clone(), w.nft.clone());
    let ty = match p.kind {
        Kind::Token => "token",
        Kind::Nft => "nft",
        Kind::Multisig => "multisig",
        Kind::Denom => "denom",
    };
    let c = &mut w.c;
    put(c, &t, b"dao_type".to_vec(), &json!(ty));
    put(c, &t, b"dao_membership_contract".to_vec(), &json!(if p.kind == Kind::Nft { &nft } else { &tok }));
    put(
        c,
        &t,
        b"migration_info".to_vec(),
        &json!({"version_info":version_info((1,0,0),1),"enterprise_contract":w.d.enterprise,"enterprise_governance_controller_contract":w.d.controller,
            "enterprise_outposts_contract":w.d.outposts,"membership_contract":w.d.membership,"council_membership_contract":w.d.council,"initial_submsgs_limit":null}),
    );
    if let Some(s) = p.stage {
        put(c, &t, b"migration_stage".to_vec(), &json!(s));
    }
    for (u, x) in &p.stakes {
        match p.kind {
            Kind::Nft => {
                put(c, &t, map_key("nft_stakes", x.as_bytes()), &json!({"staker":u,"token_id":x}));
                let mut k = map_key("nft_stakes__staker", &map_key(u, x.as_bytes()));
                put(c, &t, std::mem::take(&mut k), &json!(x.len()));
            }
            Kind::Token => put(c, &t, map_key("stakes", u.as_bytes()), &json!(x)),
            _ => put(c, &t, map_key("multisig_members", u.as_bytes()), &json!(x)),
        }
    }
    let us = users(p);
    for u in us.iter() {
        let l: Vec<Value> = p
            .claims
            .iter()
            .filter(|x| x.0 == *u)
            .map(|x| {
                let a = if p.kind == Kind::Nft { json!({"cw721":{"tokens":x.1}}) } else { json!({"cw20":{"amount":x.1[0]}}) };
                json!({"asset":a,"release_at":x.2})
            })
            .collect();
        if !l.is_empty() {
            put(c, &t, map_key("claims", u.as_bytes()), &json!(l));
        }
    }
    // 5 staked until height / second 100, the rest since
    let tot = s(total(p));
    for (p, _) in [("total_staked_block_height", 0), ("total_staked_time_seconds", 1)] {
        put(c, &t, format!("{p}_snapshot").into_bytes(), &json!(tot));
        put(c, &t, map_key(&format!("{p}_changelog"), &100u64.to_be_bytes()), &json!({"old":"5"}));
    }
    // the assets
    match p.kind {
        Kind::Nft => {
            for x in p.stakes.iter().map(|x| &x.1).chain(p.claims.iter().flat_map(|x| &x.1)).chain([&"extra".to_string()]) {
                c.exec(ADMIN, &nft, &json!({"mint":{"token_id":x,"owner":t,"token_uri":null,"extension":null}}), &[]).unwrap();
            }
        }
        _ => {
            let n = total(p) + sum(p.claims.iter().flat_map(|x| &x.1)) + EXTRA;
            c.exec(ADMIN, &tok, &json!({"mint":{"recipient":t,"amount":s(n)}}), &[]).unwrap();
        }
    }
    c.advance(1, 5);
    let movable = p.kind != Kind::Multisig;
    let mut left: Vec<Unit> = vec![];
    if movable {
        left.extend(p.stakes.iter().map(|(u, x)| (u.clone(), x.clone(), Value::Null)));
        left.extend(p.claims.iter().flat_map(|(u, l, r)| l.iter().map(move |x| (u.clone(), x.clone(), r.clone()))));
    }
    let wallet = us.iter().map(|u| (u.to_string(), w.cw20_bal(&tok, u))).collect();
    S { us, w, pop: i, left, stakes: vec![], claims: vec![], wallet, completed: p.stage == Some("migration_completed"), started: matches!(p.stage, Some("migration_in_progress")) || p.stage == Some("migration_completed"), ticks: 0, users: 0 }
}

fn e(e: String) -> Violation {
    Violation { sig: "query".into(), msg: e }
}
fn same(a: &Unit, b: &Unit) -> bool {
    a.0 == b.0 && a.1 == b.1 && a.2 == b.2
}
impl S {
    /// claims held by the membership contract, one unit per amount / token
    fn observed_claims(&mut self) -> Chk<Vec<Unit>> {
        let m = self.w.d.membership.clone();
        let mut v = vec![];
        for u in self.us.clone().iter() {
            let r = self.w.c.q(&m, &json!({"claims":{"user":u}})).map_err(e)?;
            for c in r["claims"].as_array().unwrap_or(&vec![]) {
                if self.w.kind == Kind::Nft {
                    for t in c["nft_ids"].as_array().unwrap_or(&vec![]) {
                        v.push((u.to_string(), t.as_str().unwrap_or("").to_string(), c["release_at"].clone()));
                    }
                } else {
                    v.push((u.to_string(), s(as_u128(&c["amount"])), c["release_at"].clone()));
                }
            }
        }
        Ok(v)
    }
    fn staked(&self, u: &str) -> u128 {
        let l = self.stakes.iter().filter(|x| x.0 == u).map(|x| &x.1);
        if self.w.kind == Kind::Nft { l.count() as u128 } else { sum(l) }
    }
    /// attributes what appeared in the membership contract to what was left; returns how many moved
    fn absorb(&mut self) -> Chk<usize> {
        let m = self.w.d.membership.clone();
        let n0 = self.left.len();
        if self.w.kind == Kind::Multisig {
            return Ok(0);
        }
        for u in self.us.clone().iter() {
            if self.w.kind == Kind::Nft {
                for t in self.w.staked_nfts(u) {
                    if !self.stakes.iter().any(|x| x.0 == *u && x.1 == t) {
                        let Some(k) = self.left.iter().position(|x| x.0 == *u && x.1 == t && x.2.is_null()) else {
                            return viol("foreign-stake", format!("{t} appeared staked for {u}, left {:?}", self.left));
                        };
                        self.left.remove(k);
                        self.stakes.push((u.to_string(), t));
                    }
                }
            } else if self.w.kind == Kind::Token {
                let (now, had) = (self.w.weight_of(&m, u), self.staked(u));
                ensure!(now >= had, "stake-lost", "{u}'s stake went from {had} to {now}");
                if now > had {
                    let Some(k) = self.left.iter().position(|x| x.0 == *u && x.2.is_null() && x.1 == s(now - had)) else {
                        return viol("foreign-stake", format!("{u} gained {}, left {:?}", now - had, self.left));
                    };
                    let x = self.left.remove(k);
                    self.stakes.push((x.0, x.1));
                }
            }
        }
        let mut known = self.claims.clone();
        for c in self.observed_claims()? {
            if let Some(k) = known.iter().position(|x| same(x, &c)) {
                known.remove(k);
                continue;
            }
            let Some(k) = self.left.iter().position(|x| same(x, &c)) else {
                return viol("foreign-claim", format!("claim {c:?} appeared, left {:?}", self.left));
            };
            let x = self.left.remove(k);
            self.claims.push(x);
        }
        ensure!(known.is_empty(), "claim-lost", "{known:?}");
        Ok(n0 - self.left.len())
    }
    fn consistent(&mut self, p: &Pop) -> Chk {
        let d = self.w.d.clone();
        // stakes and claims exactly as accounted for
        if p.kind != Kind::Multisig {
            let mut tot = 0;
            for u in self.us.clone().iter() {
                let (now, want) = (self.w.weight_of(&d.membership, u), self.staked(u));
                ensure!(now == want, "weight", "{u} weighs {now} in the membership contract, should be {want}");
                tot += want;
            }
            let t = self.w.total_at(&d.membership, json!({"never":{}}));
            ensure!(t == tot, "total", "membership total {t}, should be {tot}");
            let mut obs = self.observed_claims()?;
            for c in &self.claims {
                let k = obs.iter().position(|x| same(x, c));
                ensure!(k.is_some(), "claim-lost", "{c:?} is not in the membership contract");
                obs.remove(k.unwrap());
            }
            ensure!(obs.is_empty(), "foreign-claim", "{obs:?}");
        }
        // assets where their obligations are
        match p.kind {
            Kind::Nft => {
                for (o, l) in [
                    (&d.treasury, self.left.iter().map(|x| x.1.clone()).chain(["extra".to_string()]).collect::<Vec<_>>()),
                    (&d.membership, self.stakes.iter().map(|x| x.1.clone()).chain(self.claims.iter().map(|x| x.1.clone())).collect()),
                ] {
                    for t in l {
                        let w = self.w.nft_owner(&t);
                        ensure!(w == *o, "assets", "{t} is owned by {w}, should be {o}");
                    }
                }
            }
            _ => {
                let tok = self.w.token.clone();
                let (a, b) = (self.w.cw20_bal(&tok, &d.treasury), self.w.cw20_bal(&tok, &d.membership));
                let mut l = sum(self.left.iter().map(|x| &x.1));
                if p.kind == Kind::Multisig {
                    l = total(p);
                }
                let m = sum(self.stakes.iter().map(|x| &x.1).chain(self.claims.iter().map(|x| &x.1)));
                ensure!(a == l + EXTRA, "assets", "treasury holds {a}, {l} left to move and {EXTRA} of its own");
                ensure!(b == m, "assets", "membership contract holds {b} for {m}");
                for u in self.us.clone().iter() {
                    let x = self.w.cw20_bal(&tok, u);
                    ensure!(x == self.wallet[u], "assets", "{u} holds {x}, should be {}", self.wallet[u]);
                }
            }
        }
        // what the treasury reports about the time before
        for u in self.us.clone().iter() {
            let r = self.w.c.q(&d.treasury, &json!({"user_weight":{"user":u}})).map_err(e)?;
            ensure!(as_u128(&r["weight"]) == orig(p, u), "reported-weight", "the treasury reports weight {} for {u}, staked before migration: {}", r["weight"], orig(p, u));
        }
        for (exp, want) in [
            (json!({"never":{}}), total(p)),
            (json!({"at_height":100}), 5),
            (json!({"at_height":101}), total(p)),
            (json!({"at_time":"100000000000"}), 5),
            (json!({"at_time":"101000000000"}), total(p)),
        ] {
            let r = self.w.c.q(&d.treasury, &json!({"total_weight":{"expiration":exp}})).map_err(e)?;
            ensure!(as_u128(&r["total_weight"]) == want, "reported-total", "the treasury reports total {} for {exp}, should be {want}", r["total_weight"]);
        }
        let r = self.w.c.q(&d.treasury, &json!({"has_unmoved_stakes_or_claims":{}})).map_err(e)?;
        ensure!(r["has_unmoved_stakes_or_claims"] == json!(!self.left.is_empty()), "unmoved-flag", "{r} with {:?} left", self.left);
        Ok(())
    }
    fn incomplete(&mut self) -> Chk<bool> {
        let t = self.w.d.treasury.clone();
        Ok(self.w.c.q(&t, &json!({"has_incomplete_v2_migration":{}})).map_err(e)?["has_incomplete_migration"] == json!(true))
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> Vec<S> {
        self.pops.iter().enumerate().map(|(i, p)| setup(i, p)).collect()
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        for (i, l) in self.limits.iter().enumerate() {
            v.push(A::Step(["mallory", "usera", ADMIN][i % 3], *l));
        }
        if s.users < self.ops {
            for u in US {
                v.extend([A::Stake(u), A::Unstake(u), A::Claim(u)]);
            }
        }
        if self.ops > 0 && s.ticks < 1 {
            v.push(A::Tick);
        }
        v
    }
    fn step(&self, st: &mut S, a: &A) -> Chk<Step> {
        let p = &self.pops[st.pop];
        let d0 = st.w.c.digest();
        let m = st.w.d.membership.clone();
        match a {
            A::Step(by, l) => {
                let t = st.w.d.treasury.clone();
                let had = st.left.len();
                let r = st.w.ex(by, &t, json!({"perform_next_migration_step":{"submsgs_limit":l}}), &[]);
                let refuse = !st.started || st.completed && had == 0;
                if refuse {
                    ensure!(r.is_err(), "step-accepted", "a migration step was accepted: {p:?}, {:?} left", st.left);
                    ensure!(st.w.c.digest() == d0, "side-effect", "a refused migration step changed something");
                    st.consistent(p)?;
                    return Ok(Step::Rejected);
                }
                ensure!(r.is_ok(), "step-refused", "{p:?}, {:?} left, limit {l:?}: {:?}", st.left, r.err());
                let moved = st.absorb()?;
                ensure!(had == 0 || *l == Some(0) || moved > 0, "stuck", "a step of {l:?} moved nothing of {:?}", st.left);
                let inc = st.incomplete()?;
                ensure!(inc || st.left.is_empty(), "completed-early", "migration reported complete with {:?} left", st.left);
                ensure!(!(inc && had == 0 && l.unwrap_or(9) > 0), "never-complete", "a step with nothing left to move did not complete the migration");
                st.completed = !inc;
            }
            A::Stake(u) => {
                let x = match p.kind {
                    Kind::Nft => st.w.owned(u).first().cloned(),
                    _ => Some("7".to_string()),
                };
                let Some(x) = x else { return Ok(Step::Skip) };
                let r = if p.kind == Kind::Nft { st.w.stake_nft(u, u, &x) } else { st.w.stake(u, 7) };
                ensure!(r.is_ok(), "stake-refused", "{r:?}");
                if p.kind != Kind::Nft {
                    *st.wallet.get_mut(*u).unwrap() -= 7;
                }
                st.stakes.push((u.to_string(), x));
                st.users += 1;
            }
            A::Unstake(u) => {
                // everything moved so far
                let mine: Vec<String> = st.stakes.iter().filter(|x| x.0 == *u).map(|x| x.1.clone()).collect();
                let msg = if p.kind == Kind::Nft { json!({"unstake":{"nft_ids":mine}}) } else { json!({"unstake":{"amount":s(sum(mine.iter()).max(1))}}) };
                let r = st.w.ex(u, &m, msg, &[]);
                if mine.is_empty() {
                    ensure!(r.is_err() || p.kind == Kind::Nft, "unstaked-early", "{u} unstaked what has not been moved yet");
                    return Ok(Step::Rejected);
                }
                ensure!(r.is_ok(), "unstake-refused", "{r:?}");
                st.stakes.retain(|x| x.0 != *u);
                let rel = json!({"timestamp":(st.w.c.nanos + 500_000_000_000).to_string()});
                if p.kind == Kind::Nft {
                    st.claims.extend(mine.into_iter().map(|x| (u.to_string(), x, rel.clone())));
                } else {
                    st.claims.push((u.to_string(), s(sum(mine.iter())), rel));
                }
                st.users += 1;
            }
            A::Claim(u) => {
                let r = st.w.claim(u);
                let (now, h) = (st.w.c.nanos as u128, st.w.c.height as u128);
                let due: Vec<usize> = (0..st.claims.len())
                    .filter(|i| {
                        let c = &st.claims[*i];
                        let due = if c.2.get("height").is_some() { as_u128(&c.2["height"]) <= h } else { as_u128(&c.2["timestamp"]) <= now };
                        c.0 == *u && due
                    })
                    .collect();
                if due.is_empty() {
                    st.consistent(p)?;
                    return Ok(Step::Rejected);
                }
                ensure!(r.is_ok(), "claim-refused", "{r:?}");
                for i in due.into_iter().rev() {
                    let c = st.claims.remove(i);
                    if p.kind == Kind::Nft {
                        let o = st.w.nft_owner(&c.1);
                        ensure!(o == *u, "assets", "{} went to {o}", c.1);
                    } else {
                        *st.wallet.get_mut(*u).unwrap() += c.1.parse::<u128>().unwrap();
                    }
                }
                st.users += 1;
            }
            A::Tick => {
                st.w.c.advance(100, 1000);
                st.ticks += 1;
            }
        }
        st.consistent(p)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
        h_into(&(s.pop, s.ticks, s.users, s.completed), h);
    }
}

const RUN: Option<&str> = Some("migration_in_progress");
fn rel(k: usize) -> Value {
    // from the start of the harness's clock, see sim
    [json!({"timestamp":"1700000300000000000"}), json!({"height":"30"}), json!({"timestamp":"1600000000000000000"}), json!({"timestamp":"1700009000000000000"})][k % 4].clone()
}
/// every assignment of a choice to each user
fn assignments(users: usize, choices: usize) -> Vec<Vec<usize>> {
    (0..choices.pow(users as u32)).map(|i| (0..users).map(|u| i / choices.pow(u as u32) % choices).collect()).collect()
}
fn token_pops(users: usize) -> Vec<Pop> {
    assignments(users, 8)
        .iter()
        .map(|a| {
            let mut p = Pop { kind: Kind::Token, stakes: vec![], claims: vec![], stage: RUN };
            for (u, c) in a.iter().enumerate() {
                let us = US[u].to_string();
                if c % 2 == 1 {
                    p.stakes.push((us.clone(), s(10 + u as u128)));
                }
                // none, one, two, two equal ones
                for k in 0..[0, 1, 2, 2][c / 2] {
                    let n = if c / 2 == 3 { 0 } else { k };
                    p.claims.push((us.clone(), vec![s(1 + 2 * (n + u) as u128)], rel(u + n)));
                }
            }
            p
        })
        .collect()
}
fn nft_pops(users: usize) -> Vec<Pop> {
    assignments(users, 15)
        .iter()
        .map(|a| {
            let mut p = Pop { kind: Kind::Nft, stakes: vec![], claims: vec![], stage: RUN };
            for (u, c) in a.iter().enumerate() {
                let us = US[u].to_string();
                for k in 0..c % 3 {
                    // token ids interleave between users
                    p.stakes.push((us.clone(), format!("s{k}{u}")));
                }
                for (n, l) in [vec![], vec![1], vec![2], vec![1, 1], vec![2, 1]][c / 3].iter().enumerate() {
                    p.claims.push((us.clone(), (0..*l).map(|k| format!("c{k}{n}{u}")).collect(), rel(u + n)));
                }
            }
            p
        })
        .collect()
}
/// populations around and beyond what one step moves by default (100 token stakes and claims, 20 NFTs)
fn big_pops() -> Vec<Pop> {
    let who = |k: usize| format!("member{k:03}");
    let mut v = vec![];
    // stakers, users with claims, claims per user
    for (n, cu, cl) in [(99, 0, 0), (100, 0, 0), (101, 0, 0), (130, 0, 0), (99, 1, 1), (60, 60, 1), (0, 1, 120), (0, 3, 50), (0, 100, 1), (0, 101, 1), (100, 1, 2), (205, 4, 3)] {
        let mut p = Pop { kind: Kind::Token, stakes: vec![], claims: vec![], stage: RUN };
        p.stakes = (0..n).map(|k| (who(2 * k), s(10 + (k as u128) % 7))).collect();
        for u in 0..cu {
            for c in 0..cl {
                p.claims.push((who(3 * u), vec![s(1 + ((u + c) as u128) % 5)], rel(u + c)));
            }
        }
        v.push(p);
    }
    // staked NFTs, stakers, users with claims, claims per user, tokens per claim
    for (n, st, cu, cl, tk) in [(19, 3, 0, 0, 0), (20, 3, 0, 0, 0), (21, 1, 0, 0, 0), (45, 5, 0, 0, 0), (15, 2, 5, 1, 2), (0, 0, 1, 1, 30), (0, 0, 30, 1, 1), (0, 0, 2, 15, 1), (20, 20, 1, 1, 1), (19, 19, 2, 2, 2), (41, 2, 21, 1, 1)] {
        let mut p = Pop { kind: Kind::Nft, stakes: vec![], claims: vec![], stage: RUN };
        p.stakes = (0..n).map(|k| (who(k % st.max(1)), format!("s{k:03}"))).collect();
        for u in 0..cu {
            for c in 0..cl {
                p.claims.push((who(3 * u), (0..tk).map(|k| format!("c{u:03}{c:02}{k:02}")).collect(), rel(u + c)));
            }
        }
        v.push(p);
    }
    v
}
/// DAOs in every migration stage, with and without things left to move (for the facade's check)
pub fn migrating(newer: Option<(u64, u64, u64)>) -> Vec<World> {
    let mut v = vec![];
    for stage in [None, Some("migration_not_started"), RUN, Some("migration_completed")] {
        for p in [&token_pops(2)[7 + 8 * 3], &token_pops(1)[0], &nft_pops(2)[11 + 15 * 4], &nft_pops(1)[0]] {
            v.push(setup_v(0, &Pop { stage, ..p.clone() }, newer).w);
        }
    }
    v
}
pub fn c27(ctx: &mut Ctx) {
    let lims: Vec<Option<u32>> = ctx.q(vec![None, Some(1), Some(2), Some(3)], vec![None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5)]);
    let depth = ctx.q(10, 16);
    ctx.explore(&M { name: "every token population, every batching".into(), pops: token_pops(ctx.q(3, 3)), limits: lims.clone(), ops: 0 }, depth);
    ctx.explore(&M { name: "every NFT population, every batching".into(), pops: nft_pops(ctx.q(2, 3)), limits: lims.clone(), ops: 0 }, depth);
    ctx.explore(&M { name: "populations beyond one default step".into(), pops: big_pops(), limits: ctx.q(vec![None, Some(30)], vec![None, Some(7), Some(30), Some(1000)]), ops: 0 }, ctx.q(8, 30));
    // before, after and without a migration; multisigs
    let mut pops = vec![];
    for stage in [None, Some("migration_not_started"), RUN, Some("migration_completed")] {
        for p in [token_pops(1)[7].clone(), token_pops(1)[0].clone(), nft_pops(1)[11].clone(), nft_pops(1)[0].clone()] {
            pops.push(Pop { stage, ..p });
        }
        pops.push(Pop { kind: Kind::Multisig, stakes: vec![("usera".into(), "3".into()), ("userc".into(), "4".into())], claims: vec![], stage });
    }
    ctx.explore(&M { name: "all stages".into(), pops, limits: vec![None, Some(0), Some(1), Some(2)], ops: 0 }, ctx.q(6, 10));
    // members at work meanwhile
    let mut pops: Vec<Pop> = vec![];
    let (t, n) = (token_pops(2), nft_pops(2));
    for i in ctx.q(vec![7 * 8 + 5, 63], vec![7 * 8 + 5, 63, 1 + 8 * 6, 3, 9, 30]) {
        pops.push(t[i].clone());
    }
    for i in ctx.q(vec![8 * 15 + 11], vec![8 * 15 + 11, 224, 5 * 15 + 4, 2 + 15 * 14]) {
        pops.push(n[i].clone());
    }
    ctx.explore(&M { name: "members act during the migration".into(), pops, limits: vec![Some(1), Some(2), None], ops: ctx.q(3, 4) }, ctx.q(7, 10));
}

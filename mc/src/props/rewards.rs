//! C17 (pro rata, claimable once, solvent), C18 (minimum eligible weight), C19 (whitelisted assets only).
use crate::ensure;
use crate::explore::*;
use crate::sim::{code, coin, Res, TxOk};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::Hasher;

const U: [&str; 3] = ["usera", "userb", "userc"];
/// uluna and uother are native, "token" is the cw20
const ASSETS: [&str; 3] = ["uluna", "uother", "token"];
/// exact shares are kept in units of 1/SCALE
const SCALE: u128 = 1_000_000_000_000;

#[derive(Clone)]
pub struct S {
    w: World,
    weights: BTreeMap<&'static str, u128>,
    min: u128,
    /// [asset][user] exact share of everything distributed, in 1/SCALE units (rounded down)
    share: [[u128; 3]; 3],
    /// how often the user's account may have been rounded down
    settled: [u64; 3],
    claimed: [[u128; 3]; 3],
    distributed: [u128; 3],
    last_claim: Option<usize>,
}
#[derive(Clone, Debug)]
pub enum A {
    Dist(Vec<(u128, &'static str)>),
    DistCw20(u128),
    Update(Vec<(&'static str, u128)>),
    Set(Vec<(&'static str, u128)>),
    Stake(&'static str, u128),
    Unstake(&'static str, u128),
    Min(u128),
    /// user, native denoms, cw20?
    Claim(&'static str, Vec<&'static str>, bool),
    ClaimFor(&'static str, &'static str),
}
pub struct M {
    name: &'static str,
    kind: Kind,
    min: Option<u128>,
    acts: Vec<A>,
}

fn rewards(w: &mut World, u: &str) -> [u128; 3] {
    let (d, t) = (w.d.distributor.clone(), w.token.clone());
    let r = w.c.q(&d, &json!({"user_rewards":{"user":u,"native_denoms":["uluna","uother"],"cw20_assets":[t]}})).unwrap();
    let n = r["native_rewards"].as_array().unwrap();
    let f = |k: &str| n.iter().find(|x| x["denom"] == json!(k)).map(|x| as_u128(&x["amount"])).expect("reward listed");
    [f("uluna"), f("uother"), as_u128(&r["cw20_rewards"][0]["amount"])]
}
fn hold(w: &mut World, a: usize, who: &str) -> u128 {
    if a < 2 {
        w.c.bal(who, ASSETS[a])
    } else {
        let t = w.token.clone();
        w.cw20_bal(&t, who)
    }
}

impl M {
    fn eff(&self, s: &S, u: &str) -> u128 {
        let w = s.weights[u];
        if w >= s.min {
            w
        } else {
            0
        }
    }
    fn check(&self, s: &S) -> Chk {
        let mut w = s.w.clone();
        let d = w.d.distributor.clone();
        let r = w.c.q(&d, &json!({"minimum_eligible_weight":{}})).unwrap();
        ensure!(as_u128(&r["minimum_eligible_weight"]) == s.min, "minimum", "minimum eligible weight {r}, expected {}", s.min);
        let pend: Vec<[u128; 3]> = U.iter().map(|u| rewards(&mut w, u)).collect();
        for a in 0..3 {
            let mut owed = 0;
            for i in 0..3 {
                let got = s.claimed[a][i] + pend[i][a];
                owed += pend[i][a];
                let ex = s.share[a][i];
                ensure!(
                    got * SCALE <= ex + 1000,
                    "overpaid",
                    "{}: {} has {got} (claimed {} + pending {}), exact share {}e-12",
                    ASSETS[a], U[i], s.claimed[a][i], pend[i][a], ex
                );
                let slack = (s.settled[i] as u128 + 1) * SCALE + 1000;
                ensure!(
                    got * SCALE + slack > ex,
                    "underpaid",
                    "{}: {} has only {got} (claimed {} + pending {}), exact share {}e-12",
                    ASSETS[a], U[i], s.claimed[a][i], pend[i][a], ex
                );
            }
            let h = hold(&mut w, a, &d);
            ensure!(h >= owed, "solvency", "distributor holds {h} {} but owes {owed}", ASSETS[a]);
            let paid: u128 = s.claimed[a].iter().sum();
            ensure!(h == s.distributed[a] - paid, "holdings", "distributor holds {h} {}, received {} and paid {paid}", ASSETS[a], s.distributed[a]);
        }
        Ok(())
    }
    fn distribute(&self, s: &mut S, l: &[(u128, usize)], r: Res<TxOk>) -> Chk<bool> {
        let total: u128 = U.iter().map(|u| self.eff(s, u)).sum();
        if total == 0 {
            ensure!(r.is_err(), "nobody-eligible", "distribution accepted although nobody is eligible");
            return Ok(false);
        }
        ensure!(r.is_ok(), "distribute", "distribution refused: {r:?}");
        for (amt, a) in l {
            for i in 0..3 {
                s.share[*a][i] += amt * SCALE * self.eff(s, U[i]) / total;
            }
            s.distributed[*a] += amt;
        }
        Ok(true)
    }
    fn set_weight(&self, s: &mut S, u: &'static str, n: u128) {
        s.weights.insert(u, n);
        let i = U.iter().position(|x| *x == u).unwrap();
        s.settled[i] += 1;
    }
    fn act(&self, s: &mut S, a: &A) -> Chk<Option<bool>> {
        let (d, g) = (s.w.d.distributor.clone(), s.w.d.controller.clone());
        let ok = match a {
            A::Dist(l) => {
                let f: Vec<_> = l.iter().map(|(n, d)| coin(*n, d)).collect();
                let r = s.w.ex(ADMIN, &d, json!({"distribute_native":{}}), &f);
                let l: Vec<_> = l.iter().map(|(n, d)| (*n, ASSETS.iter().position(|x| x == d).unwrap())).collect();
                self.distribute(s, &l, r)?
            }
            A::DistCw20(n) => {
                let t = s.w.token.clone();
                let r = s.w.ex(ADMIN, &t, json!({"send":{"contract":d,"amount":n.to_string(),"msg":b64(&json!({"distribute":{}}))}}), &[]);
                self.distribute(s, &[(*n, 2)], r)?
            }
            A::Update(l) => {
                s.w.update_members(l).unwrap();
                for (u, n) in l {
                    self.set_weight(s, u, *n);
                }
                true
            }
            A::Set(l) => {
                s.w.set_members(l).unwrap();
                for u in U {
                    let n = l.iter().find(|x| x.0 == u).map(|x| x.1).unwrap_or(0);
                    self.set_weight(s, u, n);
                }
                true
            }
            A::Stake(u, n) => {
                if s.w.stake(u, *n).is_err() {
                    return Ok(None);
                }
                let v = s.weights[u] + n;
                self.set_weight(s, u, v);
                true
            }
            A::Unstake(u, n) => {
                if s.weights[u] < *n {
                    return Ok(None);
                }
                s.w.unstake(u, *n).unwrap();
                let v = s.weights[u] - n;
                self.set_weight(s, u, v);
                true
            }
            A::Min(m) => {
                let before: Vec<_> = U.iter().map(|u| rewards(&mut s.w, u)).collect();
                let r = s.w.ex(&g, &d, json!({"update_minimum_eligible_weight":{"minimum_eligible_weight":m.to_string()}}), &[]);
                ensure!(r.is_ok(), "set-minimum", "{r:?}");
                let after: Vec<_> = U.iter().map(|u| rewards(&mut s.w, u)).collect();
                ensure!(before == after, "minimum-earned", "changing the minimum from {} to {m} changed rewards earned from {before:?} to {after:?}", s.min);
                s.min = *m;
                for i in 0..3 {
                    s.settled[i] += 1;
                }
                true
            }
            A::Claim(u, nat, tok) => {
                let i = U.iter().position(|x| x == u).unwrap();
                let before = rewards(&mut s.w, u);
                let wallet: Vec<u128> = (0..3).map(|a| hold(&mut s.w, a, u)).collect();
                let t = s.w.token.clone();
                let cws: Vec<&str> = if *tok { vec![&t] } else { vec![] };
                let msg = json!({"claim_rewards":{"user":u,"native_denoms":nat,"cw20_assets":cws}});
                let r = s.w.ex(u, &d, msg.clone(), &[]);
                ensure!(r.is_ok(), "claim", "{u} cannot claim: {r:?}");
                let after = rewards(&mut s.w, u);
                for a in 0..3 {
                    let asked = if a < 2 { nat.contains(&ASSETS[a]) } else { *tok };
                    let got = hold(&mut s.w, a, u) - wallet[a];
                    let exp = if asked { before[a] } else { 0 };
                    ensure!(got == exp, "claim-amount", "{u} was paid {got} {}, pending were {}", ASSETS[a], before[a]);
                    s.claimed[a][i] += got;
                    let left = if asked { 0 } else { before[a] };
                    ensure!(after[a] == left, "claim-left", "after claiming, {u} still has {} {} pending, expected {left}", after[a], ASSETS[a]);
                }
                s.settled[i] += 1;
                // an immediate second claim pays nothing
                let mut w2 = s.w.clone();
                let w1: Vec<u128> = (0..3).map(|a| hold(&mut w2, a, u)).collect();
                let _ = w2.ex(u, &d, msg, &[]);
                let w3: Vec<u128> = (0..3).map(|a| hold(&mut w2, a, u)).collect();
                ensure!(w1 == w3, "claim-twice", "{u} was paid again");
                s.last_claim = Some(i);
                true
            }
            A::ClaimFor(by, u) => {
                let r = s.w.ex(by, &d, json!({"claim_rewards":{"user":u,"native_denoms":["uluna","uother"],"cw20_assets":[]}}), &[]);
                ensure!(r.is_err(), "claim-for", "{by} claimed for {u}");
                false
            }
        };
        Ok(Some(ok))
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("rewards-{}", self.name)
    }
    fn init(&self) -> Vec<S> {
        let mut cfg = Cfg::new(self.kind);
        cfg.members = vec![("usera".into(), 1), ("userb".into(), 2)];
        cfg.council = Some(Council::new(&["usera", "userd"], "0.5", "0.5", None));
        cfg.min_weight = self.min;
        let mut w = World::base(&[]);
        let t = w.token.clone();
        cfg.assets = Some(vec![native("uluna"), native("uother"), cw20(&t)]);
        w.kind = self.kind;
        w.d = w.create(&cfg).unwrap();
        w.ex(ADMIN, &t, json!({"mint":{"recipient":ADMIN,"amount":"1000000"}}), &[]).unwrap();
        w.c.mint(ADMIN, "uluna", 1_000_000_000);
        w.c.mint(ADMIN, "uother", 1_000_000_000);
        if self.kind != Kind::Multisig {
            w.stake("usera", 1).unwrap();
            w.stake("userb", 2).unwrap();
        }
        vec![S {
            w,
            weights: [("usera", 1), ("userb", 2), ("userc", 0)].into_iter().collect(),
            min: self.min.unwrap_or(0),
            share: Default::default(),
            settled: [0; 3],
            claimed: Default::default(),
            distributed: [0; 3],
            last_claim: None,
        }]
    }
    fn actions(&self, _: &S) -> Vec<A> {
        self.acts.clone()
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let o = self.act(s, a)?;
        self.check(s)?;
        Ok(match o {
            None => Step::Skip,
            Some(true) => Step::Accepted,
            Some(false) => Step::Rejected,
        })
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
        h_into(&s.share, h);
        h_into(&s.settled, h);
    }
}

fn base_acts() -> Vec<A> {
    vec![
        A::Dist(vec![(6000, "uluna")]),
        A::Dist(vec![(700, "uluna"), (901, "uother")]),
        A::DistCw20(5000),
        A::Claim("usera", vec!["uluna"], false),
        A::Claim("usera", vec!["uother", "uluna"], true),
        A::Claim("userb", vec!["uluna", "uother", "uluna"], true),
    ]
}

pub fn c17(ctx: &mut Ctx) {
    let mut acts = base_acts();
    acts.extend([
        A::Update(vec![("usera", 0)]),
        A::Update(vec![("usera", 3), ("userc", 1)]),
        A::Update(vec![("userb", 5)]),
        A::Set(vec![("userc", 4), ("usera", 1)]),
        A::Claim("userc", vec!["uluna", "uother"], true),
        A::ClaimFor("userb", "usera"),
    ]);
    ctx.explore(&M { name: "multisig", kind: Kind::Multisig, min: None, acts: acts.clone() }, ctx.q(6, 7));
    // tiny distributions over large and uneven weights: rounding
    ctx.explore(
        &M {
            name: "rounding",
            kind: Kind::Multisig,
            min: None,
            acts: vec![
                A::Dist(vec![(1, "uluna")]),
                A::Dist(vec![(2, "uluna")]),
                A::Dist(vec![(5, "uluna")]),
                A::DistCw20(1),
                A::Update(vec![("usera", 7)]),
                A::Update(vec![("userb", 13), ("userc", 1_000_000_007)]),
                A::Update(vec![("userc", 0)]),
                A::Claim("usera", vec!["uluna"], true),
                A::Claim("userb", vec!["uluna"], true),
                A::Claim("userc", vec!["uluna"], false),
            ],
        },
        ctx.q(5, 6),
    );
    for kind in [Kind::Denom, Kind::Token, Kind::Nft] {
        let mut acts = base_acts();
        acts.extend([
            A::Stake("usera", 1),
            A::Stake("userc", 2),
            A::Unstake("usera", 1),
            A::Unstake("userb", 2),
            A::Unstake("userb", 1),
            A::Claim("userc", vec!["uluna", "uother"], true),
        ]);
        ctx.explore(&M { name: match kind { Kind::Denom => "denom", Kind::Token => "token", _ => "nft" }, kind, min: None, acts }, ctx.q(4, 5));
    }
    with_min(ctx, "min", ctx.q(4, 5));
    large(ctx);
}

fn with_min(ctx: &mut Ctx, name: &'static str, depth: usize) {
    for (n, min) in [("1", 1u128), ("2", 2), ("3", 3)] {
        let _ = name;
        ctx.explore(
            &M {
                name: match n { "1" => "minimum1", "2" => "minimum2", _ => "minimum3" },
                kind: Kind::Multisig,
                min: Some(min),
                acts: vec![
                    A::Dist(vec![(6000, "uluna")]),
                    A::DistCw20(4000),
                    A::Min(0),
                    A::Min(1),
                    A::Min(2),
                    A::Min(3),
                    A::Min(10),
                    A::Update(vec![("usera", 2)]),
                    A::Update(vec![("usera", 0), ("userc", 3)]),
                    A::Update(vec![("userb", 1)]),
                    A::Update(vec![("userb", 9), ("userc", 1)]),
                    A::Claim("usera", vec!["uluna"], true),
                    A::Claim("userb", vec!["uluna"], false),
                ],
            },
            depth,
        );
    }
}

pub fn c18(ctx: &mut Ctx) {
    with_min(ctx, "c18", ctx.q(5, 6));
    for kind in [Kind::Token, Kind::Nft] {
        ctx.explore(
            &M {
                name: if kind == Kind::Token { "minimum-token" } else { "minimum-nft" },
                kind,
                min: Some(2),
                acts: vec![
                    A::Dist(vec![(6000, "uluna"), (300, "uother")]),
                    A::DistCw20(4000),
                    A::Min(0),
                    A::Min(1),
                    A::Min(2),
                    A::Min(3),
                    A::Stake("usera", 1),
                    A::Stake("userc", 2),
                    A::Unstake("userb", 1),
                    A::Claim("userb", vec!["uluna"], true),
                ],
            },
            ctx.q(4, 6),
        );
    }
    minimum_grid(ctx);
}

/// every choice of three weights and two minimums from a list: who shares which distribution
fn minimum_grid(ctx: &mut Ctx) {
    let ws = [0u128, 1, 2, 5, 6];
    let ms = [0u128, 1, 2, 5, 6, 7];
    let (nw, nm) = (ws.len(), ms.len());
    let m = M { name: "grid", kind: Kind::Multisig, min: None, acts: vec![] };
    let s0 = m.init().remove(0);
    let dec = |i: usize| {
        let j = i / (nw * nw * nw);
        ([ws[i % nw], ws[i / nw % nw], ws[i / nw / nw % nw]], ms[j % nm], ms[j / nm])
    };
    ctx.grid(
        "weights-and-minimums",
        nw * nw * nw * nm * nm,
        |i| json!(format!("{:?}", dec(i))),
        |i| {
            let (w3, m1, m2) = dec(i);
            let mut s = s0.clone();
            for a in [
                A::Update(vec![("usera", w3[0]), ("userb", w3[1]), ("userc", w3[2])]),
                A::Dist(vec![(9999, "uluna")]),
                A::Min(m1),
                A::Dist(vec![(8888, "uluna")]),
                A::DistCw20(777),
                A::Min(m2),
                A::Dist(vec![(6666, "uluna"), (500, "uother")]),
                A::Update(vec![("usera", w3[1])]),
                A::Dist(vec![(5555, "uluna")]),
                A::Claim("userb", vec!["uluna"], true),
            ] {
                m.act(&mut s, &a)?;
                m.check(&s)?;
            }
            Ok(true)
        },
    );
}

/// large weights and amounts (no overflow, no loss)
fn large(ctx: &mut Ctx) {
    // the index per unit of weight is a 128-bit decimal with 18 digits: amounts up to 2^64
    let am: [u128; 5] = [1, 1_000_000, 1 << 40, 1 << 50, 1 << 64];
    let n = am.len();
    let mut cfg = Cfg::new(Kind::Multisig);
    cfg.assets = Some(vec![native("uluna")]);
    cfg.members = vec![("usera".into(), 1), ("userb".into(), 1)];
    let mut base = World::new(&cfg);
    base.c.mint(ADMIN, "uluna", 1 << 80);
    let dec = |i: usize| (am[i % n], am[i / n % n], am[i / n / n]);
    ctx.grid(
        "large",
        n * n * n,
        |i| json!(format!("{:?}", dec(i))),
        |i| {
            let (wa, wb, amt) = dec(i);
            let mut w = base.clone();
            let d = w.d.distributor.clone();
            w.update_members(&[("usera", wa), ("userb", wb)]).unwrap();
            let r = w.ex(ADMIN, &d, json!({"distribute_native":{}}), &[coin(amt, "uluna")]);
            ensure!(r.is_ok(), "distribute", "distributing {amt} over {wa}+{wb}: {r:?}");
            for (u, x) in [("usera", wa), ("userb", wb)] {
                let got = rewards_native(&mut w, u);
                // share = amt*x/(wa+wb); computed exactly in 256 bits
                let ex = cosmwasm_std::Uint256::from(amt) * cosmwasm_std::Uint256::from(x) / cosmwasm_std::Uint256::from(wa + wb);
                let ex: u128 = ex.to_string().parse().unwrap();
                ensure!(got <= ex, "overpaid", "{u} gets {got}, exact {ex}");
                // the index has 18 decimals: at most weight/10^18 + 1 lost
                let slack = x / 1_000_000_000_000_000_000 + 1;
                ensure!(got + slack >= ex, "underpaid", "{u} gets {got}, exact {ex}");
                let b = w.c.bal(u, "uluna");
                w.ex(u, &d, json!({"claim_rewards":{"user":u,"native_denoms":["uluna"],"cw20_assets":[]}}), &[]).unwrap();
                ensure!(w.c.bal(u, "uluna") - b == got, "claim-amount", "{u}");
            }
            Ok(true)
        },
    );
}
fn rewards_native(w: &mut World, u: &str) -> u128 {
    let d = w.d.distributor.clone();
    let r = w.c.q(&d, &json!({"user_rewards":{"user":u,"native_denoms":["uluna"],"cw20_assets":[]}})).unwrap();
    as_u128(&r["native_rewards"][0]["amount"])
}

// ------------------------------------------------------------------ C19

/// Lists of whitelisted assets around the page sizes of the whitelist query; one probed asset at
/// every interesting position, or nowhere.
pub fn c19(ctx: &mut Ctx) {
    let mut w0 = World::base(&[native("uglobal")]);
    // cw20 contracts that can be distributed
    let mk = |w: &mut World| {
        w.c.inst(
            ADMIN,
            code::CW20,
            &json!({"name":"other","symbol":"OTHER","decimals":6,"initial_balances":[{"address":ADMIN,"amount":"1000000"}],"mint":null,"marketing":null}),
            None,
        )
        .unwrap()
    };
    let probe = mk(&mut w0);
    let stranger = mk(&mut w0);
    let mut cfg = Cfg::new(Kind::Multisig);
    cfg.members = vec![("usera".into(), 1)];
    w0.d = w0.create(&cfg).unwrap();
    for d in ["uglobal", "mprobe", "unlisted"] {
        w0.c.mint(ADMIN, d, 1_000_000);
    }
    // natives: before/after the probe "mprobe" in key order; cw20 addresses before/after likewise
    let counts: Vec<usize> = ctx.q(vec![0, 1, 28, 29, 30, 31, 59, 60, 61, 90, 91], vec![0, 1, 2, 28, 29, 30, 31, 58, 59, 60, 61, 89, 90, 91, 120]);
    let nc = counts.len();
    let w0 = &w0;
    let (probe, stranger) = (&probe, &stranger);
    let dec = |i: usize| {
        // natives before, natives after, cw20 before, cw20 after, which probes are listed
        let j = i / 4;
        (counts[j % nc], counts[j / nc % nc], counts[j / nc / nc % nc], i % 4)
    };
    ctx.grid(
        "whitelist-positions",
        nc * nc * nc * 4,
        |i| json!(format!("(natives before, natives after, cw20s before, listed) = {:?}", dec(i))),
        |i| {
            let (nb, na, cb, li) = dec(i);
            let (nat, tok) = (li & 1 == 1, li & 2 == 2);
            let mut w = w0.clone();
            let (d, t, g) = (w.d.distributor.clone(), w.d.treasury.clone(), w.d.controller.clone());
            let mut add: Vec<Value> = vec![];
            for k in 0..nb {
                add.push(native(&format!("a{k:03}")));
            }
            for k in 0..na {
                add.push(native(&format!("z{k:03}")));
            }
            for k in 0..cb {
                // contract addresses of the chain start with "contract"
                add.push(cw20(&format!("aaaa{k:03}")));
            }
            add.push(cw20("zzzz1"));
            if nat {
                add.push(native("mprobe"));
            }
            if tok {
                add.push(cw20(probe));
            }
            w.ex(&g, &t, json!({"update_asset_whitelist":{"add":add,"remove":[]}}), &[]).unwrap();
            let tries: Vec<(Vec<&str>, bool)> = vec![
                (vec!["mprobe"], nat),
                (vec!["uglobal"], true),
                (vec!["unlisted"], false),
                (vec!["mprobe", "uglobal"], nat),
                (vec!["mprobe", "unlisted"], false),
                (vec!["uglobal", "unlisted"], false),
            ];
            for (l, exp) in tries {
                let mut w = w.clone();
                let mut f: Vec<_> = l.iter().map(|x| coin(10, x)).collect();
                f.sort_by(|a, b| a.denom.cmp(&b.denom));
                let before = w.c.digest();
                let r = w.ex(ADMIN, &d, json!({"distribute_native":{}}), &f);
                ensure!(r.is_ok() == exp, if exp { "listed-refused" } else { "unlisted-accepted" }, "distributing {l:?} with whitelist of {}: {r:?}", add.len());
                if !exp {
                    ensure!(w.c.digest() == before, "funds-moved", "refused distribution of {l:?} had effects");
                }
            }
            for (c, exp) in [(probe, tok), (stranger, false)] {
                let mut w = w.clone();
                let before = w.c.digest();
                let r = w.ex(ADMIN, c, json!({"send":{"contract":d,"amount":"10","msg":b64(&json!({"distribute":{}}))}}), &[]);
                ensure!(r.is_ok() == exp, if exp { "listed-refused" } else { "unlisted-accepted" }, "distributing a cw20 with whitelist of {}: {r:?}", add.len());
                if !exp {
                    ensure!(w.c.digest() == before, "funds-moved", "refused cw20 distribution had effects");
                }
            }
            Ok(true)
        },
    );
    ctx.explore(&W19 { probe: probe.clone() }, ctx.q(5, 7));
}

/// whitelist edited over time: additions, removals, both at once
struct W19 {
    probe: String,
}
#[derive(Clone)]
struct S19 {
    w: World,
    probe: String,
    listed: [bool; 3],
}
#[derive(Clone, Debug)]
enum A19 {
    /// add, remove (bit masks over mprobe, nprobe, cw20 probe)
    Edit(u8, u8),
    Native(Vec<&'static str>),
    Cw20,
    Treasury(u8),
}
impl Model for W19 {
    type S = S19;
    type A = A19;
    fn name(&self) -> String {
        "whitelist-edits".into()
    }
    fn init(&self) -> Vec<S19> {
        let mut w = World::base(&[native("uglobal")]);
        let probe = w
            .c
            .inst(
                ADMIN,
                code::CW20,
                &json!({"name":"other","symbol":"OTHER","decimals":6,"initial_balances":[{"address":ADMIN,"amount":"1000000"}],"mint":{"minter":ADMIN},"marketing":null}),
                None,
            )
            .unwrap();
        let mut cfg = Cfg::new(Kind::Multisig);
        cfg.members = vec![("usera".into(), 1)];
        cfg.assets = Some(vec![native("mprobe")]);
        w.d = w.create(&cfg).unwrap();
        let t = w.d.treasury.clone();
        for d in ["uglobal", "mprobe", "nprobe"] {
            w.c.mint(ADMIN, d, 1000);
            w.c.mint(&t, d, 1000);
        }
        w.ex(ADMIN, &probe, json!({"mint":{"recipient":t,"amount":"1000"}}), &[]).unwrap();
        vec![S19 { w, probe, listed: [true, false, false] }]
    }
    fn actions(&self, _: &S19) -> Vec<A19> {
        vec![
            A19::Edit(1, 0),
            A19::Edit(2, 1),
            A19::Edit(4, 2),
            A19::Edit(0, 5),
            A19::Edit(7, 0),
            A19::Edit(1, 4),
            A19::Native(vec!["mprobe"]),
            A19::Native(vec!["mprobe", "nprobe"]),
            A19::Native(vec!["nprobe", "uglobal"]),
            A19::Cw20,
            A19::Treasury(1),
            A19::Treasury(3),
            A19::Treasury(6),
        ]
    }
    fn step(&self, s: &mut S19, a: &A19) -> Chk<Step> {
        let (d, t, g) = (s.w.d.distributor.clone(), s.w.d.treasury.clone(), s.w.d.controller.clone());
        let infos = [native("mprobe"), native("nprobe"), cw20(&s.probe)];
        let pick = |m: u8| -> Vec<Value> { (0..3).filter(|k| m >> k & 1 == 1).map(|k| infos[k].clone()).collect() };
        let before = s.w.c.digest();
        let (r, exp) = match a {
            A19::Edit(x, y) => {
                s.w.ex(&g, &t, json!({"update_asset_whitelist":{"add":pick(*x),"remove":pick(*y)}}), &[]).unwrap();
                for k in 0..3 {
                    if x >> k & 1 == 1 {
                        s.listed[k] = true;
                    }
                    if y >> k & 1 == 1 {
                        s.listed[k] = false;
                    }
                }
                return Ok(Step::Accepted);
            }
            A19::Native(l) => {
                let f: Vec<_> = l.iter().map(|x| coin(1, x)).collect();
                let exp = l.iter().all(|x| match *x {
                    "mprobe" => s.listed[0],
                    "nprobe" => s.listed[1],
                    _ => true,
                });
                (s.w.ex(ADMIN, &d, json!({"distribute_native":{}}), &f), exp)
            }
            A19::Cw20 => {
                let p = s.probe.clone();
                (s.w.ex(ADMIN, &p, json!({"send":{"contract":d,"amount":"1","msg":b64(&json!({"distribute":{}}))}}), &[]), s.listed[2])
            }
            A19::Treasury(m) => {
                let f: Vec<Value> = pick(*m).into_iter().map(|i| json!({"info":i,"amount":"1"})).collect();
                let exp = (0..3).all(|k| m >> k & 1 == 0 || s.listed[k]);
                (s.w.ex(&g, &t, json!({"distribute_funds":{"funds":f,"funds_distributor_contract":d}}), &[]), exp)
            }
        };
        ensure!(r.is_ok() == exp, if exp { "listed-refused" } else { "unlisted-accepted" }, "{a:?} with listed {:?}: {r:?}", s.listed);
        if !exp {
            ensure!(s.w.c.digest() == before, "funds-moved", "refused {a:?} had effects");
            return Ok(Step::Rejected);
        }
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S19, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
    }
}

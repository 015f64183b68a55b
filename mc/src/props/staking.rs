//! C12 (assets backing stakes and claims), C13 (release of unstaked assets) in token and denom DAOs,
//! C14 (NFT custody) and C15 (historical totals, in all four kinds of membership).
use crate::ensure;
use crate::explore::*;
use crate::sim::{code, coin, Res, TxOk};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::Hasher;

const U: [&str; 3] = ["usera", "userb", "userc"];
const SEC: u64 = 1_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum At {
    Time(u64),
    Height(u64),
}
impl At {
    fn json(&self) -> Value {
        match self {
            At::Time(t) => json!({"timestamp": t.to_string()}),
            At::Height(h) => json!({"height": h.to_string()}),
        }
    }
    fn of(v: &Value) -> At {
        match v.get("timestamp") {
            Some(t) => At::Time(as_u128(t) as u64),
            None => At::Height(as_u128(&v["height"]) as u64),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Per {
    Time(u64),
    Height(u64),
}
impl Per {
    fn json(&self) -> Value {
        match self {
            Per::Time(t) => json!({ "time": t }),
            Per::Height(h) => json!({ "height": h }),
        }
    }
    fn from(&self, w: &World) -> At {
        match self {
            Per::Time(t) => At::Time(w.c.nanos + t * SEC),
            Per::Height(h) => At::Height(w.c.height + h),
        }
    }
}
fn due(w: &World, a: At) -> bool {
    match a {
        At::Time(t) => w.c.nanos >= t,
        At::Height(h) => w.c.height >= h,
    }
}

// ------------------------------------------------------------------ tokens and denoms

#[derive(Clone)]
pub struct S {
    w: World,
    stakes: BTreeMap<&'static str, u128>,
    claims: Vec<(&'static str, u128, At)>,
    wallets: BTreeMap<&'static str, u128>,
    stray: u128,
    period: Per,
}

#[derive(Clone, Debug)]
pub enum A {
    Stake(&'static str, &'static str, u128),
    /// denom DAOs: sender names nobody, so stakes for themself
    StakeSelf(&'static str, u128),
    StakeFunds(&'static str, Vec<(u128, &'static str)>),
    /// stakers, amount sent
    AddStakes(&'static str, Vec<(&'static str, u128)>, u128),
    AddClaims(&'static str, Vec<(&'static str, u128, Per)>, u128),
    Unstake(&'static str, u128),
    Claim(&'static str),
    ClaimFor(&'static str, &'static str),
    Period(Option<Per>),
    Stray(&'static str, u128),
    /// blocks, milliseconds
    Wait(u64, u64),
}

pub struct M {
    pub kind: Kind,
    pub start: usize,
    pub alphabet: usize,
}

impl M {
    fn unit(&self, w: &mut World, u: &str) -> u128 {
        match self.kind {
            Kind::Denom => w.c.bal(u, DENOM),
            _ => {
                let t = w.token.clone();
                w.cw20_bal(&t, u)
            }
        }
    }
    fn check(&self, s: &S) -> Chk {
        let mut w = s.w.clone();
        let m = w.d.membership.clone();
        let mut total = 0;
        for u in U {
            let got = w.weight(u);
            ensure!(got == s.stakes[u], "weight", "weight of {u} is {got}, expected {}", s.stakes[u]);
            total += got;
            let got = self.unit(&mut w, u);
            ensure!(got == s.wallets[u], "wallet", "{u} owns {got}, expected {}", s.wallets[u]);
            for (q, only_due) in [("claims", false), ("releasable_claims", true)] {
                let r = w.c.q(&m, &json!({q:{"user":u}})).unwrap();
                let mut ids = vec![];
                let mut got: Vec<(u128, At)> = vec![];
                for c in r["claims"].as_array().unwrap() {
                    ensure!(c["user"] == json!(u), "claims", "{q} of {u} lists {c}");
                    ids.push(c["id"].clone());
                    got.push((as_u128(&c["amount"]), At::of(&c["release_at"])));
                }
                got.sort();
                let mut exp: Vec<(u128, At)> =
                    s.claims.iter().filter(|c| c.0 == u && (!only_due || due(&w, c.2))).map(|c| (c.1, c.2)).collect();
                exp.sort();
                ensure!(got == exp, "claims", "{q} of {u}: {got:?}, expected {exp:?} (now {} / {})", w.c.nanos, w.c.height);
                ids.sort_by_key(|v| v.to_string());
                ids.dedup();
                ensure!(ids.len() == exp.len(), "claims", "{q} of {u} has duplicate claim ids");
            }
        }
        let got = w.total();
        ensure!(got == total, "total", "total weight {got}, members' weights add up to {total}");
        let r = w.c.q(&m, &json!({"members":{"start_after":null,"limit":100}})).unwrap();
        let got: BTreeMap<String, u128> = r["members"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| (x["user"].as_str().unwrap().to_string(), as_u128(&x["weight"])))
            .filter(|x| x.1 > 0)
            .collect();
        let exp: BTreeMap<String, u128> = s.stakes.iter().filter(|x| *x.1 > 0).map(|(u, a)| (u.to_string(), *a)).collect();
        ensure!(got == exp, "members", "members {got:?}, expected {exp:?}");
        let held = self.unit(&mut w, &m);
        let owed: u128 = total + s.claims.iter().map(|c| c.1).sum::<u128>();
        ensure!(held >= owed, "backing", "membership contract holds {held} but owes {owed}");
        ensure!(held == owed + s.stray, "holdings", "membership contract holds {held}, expected {}", owed + s.stray);
        Ok(())
    }
    fn hook(&self, w: &mut World, payer: &str, amount: u128, msg: Value) -> Res<TxOk> {
        let (t, m) = (w.token.clone(), w.d.membership.clone());
        w.ex(payer, &t, json!({"send":{"contract":m,"amount":s(amount),"msg":b64(&msg)}}), &[])
    }
    fn apply(&self, s: &mut S, a: &A) -> Chk<Option<bool>> {
        let m = s.w.d.membership.clone();
        Ok(Some(match a {
            A::Stake(p, u, n) => {
                if s.wallets[p] < *n {
                    return Ok(None);
                }
                let r = s.w.stake_for(p, u, *n);
                ensure!(r.is_ok(), "stake", "staking {n} by {p} for {u} refused: {r:?}");
                *s.stakes.get_mut(u).unwrap() += n;
                *s.wallets.get_mut(p).unwrap() -= n;
                true
            }
            A::StakeSelf(p, n) => {
                let r = s.w.ex(p, &m, json!({"stake":{"user":null}}), &[coin(*n, DENOM)]);
                ensure!(r.is_ok(), "stake", "staking {n} by {p} refused: {r:?}");
                *s.stakes.get_mut(p).unwrap() += n;
                *s.wallets.get_mut(p).unwrap() -= n;
                true
            }
            A::StakeFunds(p, f) => {
                let funds: Vec<_> = f.iter().map(|(n, d)| coin(*n, d)).collect();
                let r = s.w.ex(p, &m, json!({"stake":{"user":p}}), &funds);
                ensure!(r.is_err(), "stake-funds", "stake with funds {f:?} accepted");
                false
            }
            A::AddStakes(p, l, n) => {
                let msg = json!({"add_stakes":{"stakers":l.iter().map(|(u,a)| json!({"user":u,"staked_amount":a.to_string()})).collect::<Vec<_>>()}});
                let r = self.hook(&mut s.w, p, *n, msg);
                let sum: u128 = l.iter().map(|x| x.1).sum();
                if sum == *n {
                    ensure!(r.is_ok(), "add-stakes", "adding stakes {l:?} with {n} refused: {r:?}");
                    for (u, a) in l {
                        *s.stakes.get_mut(u).unwrap() += a;
                    }
                    *s.wallets.get_mut(p).unwrap() -= n;
                    true
                } else {
                    ensure!(r.is_err(), "add-stakes", "adding stakes {l:?} worth {sum} accepted with {n} sent");
                    false
                }
            }
            A::AddClaims(p, l, n) => {
                let l: Vec<(&'static str, u128, At)> = l.iter().map(|(u, a, p)| (*u, *a, p.from(&s.w))).collect();
                let msg = json!({"add_claims":{"claims":l.iter().map(|(u,a,r)| json!({"user":u,"claim_amount":a.to_string(),"release_at":r.json()})).collect::<Vec<_>>()}});
                let r = self.hook(&mut s.w, p, *n, msg);
                let sum: u128 = l.iter().map(|x| x.1).sum();
                if sum == *n {
                    ensure!(r.is_ok(), "add-claims", "adding claims {l:?} with {n} refused: {r:?}");
                    s.claims.extend(l);
                    *s.wallets.get_mut(p).unwrap() -= n;
                    true
                } else {
                    ensure!(r.is_err(), "add-claims", "adding claims {l:?} worth {sum} accepted with {n} sent");
                    false
                }
            }
            A::Unstake(u, n) => {
                let r = s.w.unstake(u, *n);
                if s.stakes[u] < *n {
                    ensure!(r.is_err(), "over-unstake", "{u} unstaked {n} with only {} staked", s.stakes[u]);
                    false
                } else {
                    ensure!(r.is_ok(), "unstake", "{u} with {} staked cannot unstake {n}: {r:?}", s.stakes[u]);
                    *s.stakes.get_mut(u).unwrap() -= n;
                    let at = s.period.from(&s.w);
                    s.claims.push((u, *n, at));
                    true
                }
            }
            A::Claim(u) => {
                let paid: u128 = s.claims.iter().filter(|c| c.0 == *u && due(&s.w, c.2)).map(|c| c.1).sum();
                let any = s.claims.iter().any(|c| c.0 == *u && due(&s.w, c.2));
                let r = s.w.claim(u);
                if paid > 0 {
                    ensure!(r.is_ok(), "claim", "{u} cannot claim {paid}: {r:?}");
                } else if r.is_err() {
                    // nothing to pay: refusing is as good as paying nothing
                    return Ok(Some(false));
                }
                let _ = any;
                let w = &s.w;
                s.claims.retain(|c| !(c.0 == *u && due(w, c.2)));
                *s.wallets.get_mut(u).unwrap() += paid;
                true
            }
            A::ClaimFor(by, u) => {
                let r = s.w.ex(by, &m, json!({"claim":{"user":u}}), &[]);
                if by != u {
                    ensure!(r.is_err(), "claim-for", "{by} may claim for {u}");
                    return Ok(Some(false));
                }
                let paid: u128 = s.claims.iter().filter(|c| c.0 == *u && due(&s.w, c.2)).map(|c| c.1).sum();
                if paid > 0 {
                    ensure!(r.is_ok(), "claim", "{u} cannot claim {paid}: {r:?}");
                } else if r.is_err() {
                    return Ok(Some(false));
                }
                let w = &s.w;
                s.claims.retain(|c| !(c.0 == *u && due(w, c.2)));
                *s.wallets.get_mut(u).unwrap() += paid;
                true
            }
            A::Period(p) => {
                let g = s.w.d.controller.clone();
                let r = s.w.ex(&g, &m, json!({"update_unlocking_period":{"new_unlocking_period":p.map(|p| p.json())}}), &[]);
                ensure!(r.is_ok(), "period", "controller cannot set the unlocking period: {r:?}");
                if let Some(p) = p {
                    s.period = *p;
                }
                true
            }
            A::Stray(p, n) => {
                match self.kind {
                    Kind::Denom => s.w.c.send(p, &m, &[coin(*n, DENOM)]).unwrap(),
                    _ => {
                        let t = s.w.token.clone();
                        s.w.ex(p, &t, json!({"transfer":{"recipient":m,"amount":n.to_string()}}), &[]).unwrap();
                    }
                }
                s.stray += n;
                *s.wallets.get_mut(p).unwrap() -= n;
                true
            }
            A::Wait(b, ms) => {
                s.w.c.height += b;
                s.w.c.nanos += ms * 1_000_000;
                true
            }
        }))
    }
}

impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("staking-{:?}-start{}-alphabet{}", self.kind, self.start, self.alphabet)
    }
    fn init(&self) -> Vec<S> {
        let mut cfg = Cfg::new(self.kind);
        let period = if self.start == 1 { Per::Height(2) } else { Per::Time(10) };
        cfg.gov.duration = 10;
        cfg.unlocking = period.json();
        let mut w = World::new(&cfg);
        w.c.nanos += 700_000_000;
        let mut s0 = S {
            stakes: U.iter().map(|u| (*u, 0)).collect(),
            claims: vec![],
            wallets: BTreeMap::new(),
            stray: 0,
            period,
            w,
        };
        for u in U {
            let b = self.unit(&mut s0.w, u);
            s0.wallets.insert(u, b);
        }
        let pre: Vec<A> = match self.start {
            0 => vec![],
            1 => vec![A::Stake("usera", "usera", 3), A::Stake("userb", "userb", 2), A::Unstake("usera", 1), A::Wait(1, 9500)],
            _ => vec![
                A::Stake("usera", "usera", 3),
                A::Stake("userb", "userb", 2),
                A::Unstake("userb", 1),
                A::Wait(1, 500),
                A::Unstake("usera", 1),
                A::Period(Some(Per::Height(2))),
                A::Unstake("usera", 1),
                A::Wait(1, 9500),
            ],
        };
        for a in pre {
            self.apply(&mut s0, &a).map_err(|v| v.msg).unwrap();
        }
        vec![s0]
    }
    fn actions(&self, _: &S) -> Vec<A> {
        let mut v = vec![
            A::Stake("usera", "usera", 2),
            A::Stake("userb", "usera", 1),
            A::Unstake("usera", 1),
            A::Unstake("usera", 2),
            A::Unstake("userb", 2),
            A::Claim("usera"),
            A::Claim("userb"),
            A::ClaimFor("userb", "usera"),
            A::Wait(1, 9500),
            A::Wait(1, 500),
        ];
        match self.alphabet {
            0 => {
                v.push(A::Period(Some(Per::Height(2))));
                v.push(A::Period(Some(Per::Time(10))));
                v.push(A::Period(None));
                v.push(A::Unstake("userc", 1));
                v.push(A::Unstake("usera", u128::MAX));
                v.push(A::ClaimFor("usera", "usera"));
                v.push(A::Period(Some(Per::Time(0))));
            }
            _ => {
                v.push(A::Stray("userb", 3));
                v.push(A::Unstake("usera", 0));
                v.push(A::Stake("userc", "userb", 3));
                v.push(A::Claim("userc"));
                if self.kind == Kind::Token {
                    v.push(A::AddStakes("userc", vec![("usera", 1), ("userb", 2)], 3));
                    v.push(A::AddStakes("userc", vec![("usera", 1), ("userb", 0), ("usera", 1)], 2));
                    v.push(A::AddStakes("userc", vec![("usera", 1), ("userb", 2)], 2));
                    v.push(A::AddStakes("userc", vec![("usera", 1), ("userb", 2)], 4));
                    v.push(A::AddClaims("userc", vec![("usera", 2, Per::Time(10)), ("userc", 1, Per::Height(1))], 3));
                    v.push(A::AddClaims("userc", vec![("usera", 2, Per::Time(10)), ("userb", 2, Per::Height(1))], 3));
                    v.push(A::AddClaims("userc", vec![("usera", 2, Per::Time(0))], 3));
                } else {
                    v.push(A::StakeSelf("userb", 1));
                    v.push(A::StakeFunds("usera", vec![]));
                    v.push(A::StakeFunds("usera", vec![(1, "uluna")]));
                    v.push(A::StakeFunds("usera", vec![(1, DENOM), (1, "uluna")]));
                }
            }
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let o = self.apply(s, a)?;
        self.check(s)?;
        Ok(match o {
            None => Step::Skip,
            Some(true) => Step::Accepted,
            Some(false) => Step::Rejected,
        })
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
    }
}

pub fn c12(ctx: &mut Ctx) {
    for kind in [Kind::Denom, Kind::Token] {
        for (start, d) in [(0, ctx.q(5, 6)), (2, ctx.q(5, 6))] {
            ctx.explore(&M { kind, start, alphabet: 1 }, d);
        }
        ctx.explore(&M { kind, start: 1, alphabet: 0 }, ctx.q(5, 6));
    }
    big(ctx);
}
pub fn c13(ctx: &mut Ctx) {
    for kind in [Kind::Denom, Kind::Token] {
        for (start, d) in [(1, ctx.q(5, 6)), (2, ctx.q(5, 6))] {
            ctx.explore(&M { kind, start, alphabet: 0 }, d);
        }
        ctx.explore(&M { kind, start: 2, alphabet: 1 }, ctx.q(5, 6));
    }
    for alphabet in [0, 1] {
        ctx.explore(&MN { start: 1, alphabet }, ctx.q(5, 7));
    }
    boundaries(ctx);
}

/// C12: extreme amounts. Stakes of every size from a list, alone and on top of one another,
/// unstaked in every size from that list.
fn big(ctx: &mut Ctx) {
    let am: [u128; 7] = [1, 2, 999, u64::MAX as u128, u64::MAX as u128 + 1, 1 << 100, (1 << 126) - 1];
    let n = am.len();
    let mk = |kind| {
        let mut cfg = Cfg::new(kind);
        cfg.gov.duration = 10;
        cfg.unlocking = json!({"time":10});
        let mut w = World::new(&cfg);
        let t = w.token.clone();
        for u in ["usera", "userb"] {
            w.c.mint(u, DENOM, (1 << 126) - 1);
            w.ex(ADMIN, &t, json!({"mint":{"recipient":u,"amount":s((1<<126)-1)}}), &[]).unwrap();
        }
        w
    };
    let ws: Vec<World> = [Kind::Denom, Kind::Token].iter().map(|k| mk(*k)).collect();
    let dec = |i: usize| (i % 2, am[i / 2 % n], am[i / 2 / n % n], am[i / 2 / n / n % n]);
    ctx.grid(
        "amounts",
        2 * n * n * n,
        |i| json!(format!("{:?}", dec(i))),
        |i| {
            let (k, x, y, z) = dec(i);
            let mut w = ws[k].clone();
            let m = w.d.membership.clone();
            let unit = |w: &mut World, u: &str| {
                if k == 0 {
                    w.c.bal(u, DENOM)
                } else {
                    let t = w.token.clone();
                    w.cw20_bal(&t, u)
                }
            };
            let (a0, b0) = (unit(&mut w, "usera"), unit(&mut w, "userb"));
            w.stake("usera", x).unwrap();
            w.stake("userb", y).unwrap();
            ensure!(w.weight("usera") == x && w.weight("userb") == y && w.total() == x + y, "weight", "weights after staking {x} and {y}");
            let r = w.unstake("usera", z);
            ensure!(r.is_ok() == (z <= x), "unstake", "unstaking {z} of {x}: {r:?}");
            if z > x {
                return Ok(true);
            }
            ensure!(w.weight("usera") == x - z && w.total() == x - z + y, "weight", "weights after unstaking {z} of {x}");
            w.c.advance(1, 10);
            w.claim("usera").unwrap();
            ensure!(unit(&mut w, "usera") == a0 - x + z, "wallet", "after unstaking {z} of {x}");
            ensure!(unit(&mut w, "userb") == b0 - y, "wallet", "of the other staker");
            ensure!(unit(&mut w, &m) == x - z + y, "holdings", "of the membership contract after unstaking {z} of {x}");
            Ok(true)
        },
    );
}

/// C13: exact release moment for a range of unlocking periods, around the boundary.
fn boundaries(ctx: &mut Ctx) {
    let pers = [
        Per::Time(0),
        Per::Time(1),
        Per::Time(59),
        Per::Time(1000),
        Per::Time(86_400),
        Per::Time(31_536_000),
        Per::Height(0),
        Per::Height(1),
        Per::Height(2),
        Per::Height(777),
        Per::Height(10_000_000),
    ];
    // offset from the boundary: nanoseconds for times, blocks for heights; the other clock moves a
    // little or a lot
    let offs: [i64; 7] = [-1_000_000_000, -999_999_999, -1, 0, 1, 999_999_999, 1_000_000_000];
    let other = [0u64, 1, 1_000_000_000_000];
    let frac = [0u64, 300_000_000, 999_999_999];
    let kinds = [Kind::Denom, Kind::Token, Kind::Nft];
    let ws: Vec<World> = kinds
        .iter()
        .map(|k| {
            let mut cfg = Cfg::new(*k);
            cfg.gov.duration = 10;
            cfg.unlocking = json!({"time":10});
            let mut w = World::new(&cfg);
            w.stake("usera", 2).unwrap();
            w.stake("userb", 1).unwrap();
            w
        })
        .collect();
    let (np, no, nt, nf) = (pers.len(), offs.len(), other.len(), frac.len());
    let dec = |i: usize| (i % 3, pers[i / 3 % np], offs[i / 3 / np % no], other[i / 3 / np / no % nt], frac[i / 3 / np / no / nt % nf]);
    ctx.grid(
        "boundaries",
        3 * np * no * nt * nf,
        |i| json!(format!("{:?}", dec(i))),
        |i| {
            let (k, p, off, oth, fr) = dec(i);
            let mut w = ws[k].clone();
            let (m, g) = (w.d.membership.clone(), w.d.controller.clone());
            w.c.nanos = w.c.nanos / SEC * SEC + fr;
            w.ex(&g, &m, json!({"update_unlocking_period":{"new_unlocking_period":p.json()}}), &[]).unwrap();
            let at = p.from(&w);
            w.unstake("usera", 1).unwrap();
            // a later change of the period must not matter
            w.ex(&g, &m, json!({"update_unlocking_period":{"new_unlocking_period":{"time":5}}}), &[]).unwrap();
            match p {
                Per::Time(t) => {
                    let d = (t * SEC) as i64 + off;
                    if d < 0 {
                        return Ok(false);
                    }
                    w.c.nanos += d as u64;
                    w.c.height += oth;
                }
                Per::Height(h) => {
                    let d = h as i64 + off.signum() * if off.abs() > 1 { 2 } else { 1 };
                    if d < 0 {
                        return Ok(false);
                    }
                    w.c.height += d as u64;
                    w.c.nanos += oth * 1_000_000;
                }
            }
            let exp = due(&w, at);
            let r = w.c.q(&m, &json!({"releasable_claims":{"user":"usera"}})).unwrap();
            ensure!(
                r["claims"].as_array().unwrap().len() == exp as usize,
                "releasable",
                "{:?}, unlocking {p:?}, offset {off}: releasable claims {r}", kinds[k]
            );
            let hold = |w: &mut World| match kinds[k] {
                Kind::Denom => w.c.bal("usera", DENOM),
                Kind::Token => {
                    let t = w.token.clone();
                    w.cw20_bal(&t, "usera")
                }
                _ => w.owned("usera").len() as u128,
            };
            let b = hold(&mut w);
            let r = w.claim("usera");
            ensure!(r.is_ok() || !exp, "claim", "claim refused when due: {r:?}");
            let got = hold(&mut w) - b;
            ensure!(got == exp as u128, "release", "{:?}, unlocking {p:?}, offset {off}: claiming paid {got}", kinds[k]);
            let _ = w.claim("usera");
            ensure!(hold(&mut w) - b == got, "release-twice", "second claim paid again");
            Ok(true)
        },
    );
}

// ------------------------------------------------------------------ NFTs

const IDS: [&str; 4] = ["usera1", "usera2", "userb1", "userc1"];

#[derive(Clone)]
pub struct SN {
    w: World,
    other: String,
    /// id -> owner (wallet) or the membership contract
    owner: BTreeMap<&'static str, String>,
    staked: BTreeMap<&'static str, &'static str>,
    claims: Vec<(&'static str, Vec<&'static str>, At)>,
    period: Per,
}
#[derive(Clone, Debug)]
pub enum AN {
    /// token, staked for
    Stake(&'static str, &'static str),
    StakeOther(&'static str, &'static str),
    /// a user calls the receive hook directly
    Forge(&'static str, &'static str, bool),
    /// the collection announces an NFT again that is staked already
    Again(&'static str, &'static str),
    AddClaim(&'static str, &'static str, Per),
    AddClaimOther(&'static str, &'static str),
    /// plain transfer to a user or to the membership contract (None)
    Transfer(&'static str, Option<&'static str>),
    Unstake(&'static str, Vec<&'static str>),
    Claim(&'static str),
    ClaimFor(&'static str, &'static str),
    Period(Per),
    Wait(u64, u64),
}
pub struct MN {
    start: usize,
    alphabet: usize,
}

impl MN {
    fn check(&self, s: &SN) -> Chk {
        let mut w = s.w.clone();
        let m = w.d.membership.clone();
        let mut all: Vec<&str> = vec![];
        for u in U {
            let mut exp: Vec<String> = s.staked.iter().filter(|x| *x.1 == u).map(|x| x.0.to_string()).collect();
            exp.sort();
            let r = w.c.q(&m, &json!({"user_stake":{"user":u,"start_after":null,"limit":100}})).unwrap();
            let mut got: Vec<String> = r["tokens"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            got.sort();
            ensure!(got == exp, "stake", "NFTs staked for {u}: {got:?}, expected {exp:?}");
            ensure!(as_u128(&r["total_user_stake"]) == exp.len() as u128, "weight", "total stake of {u}: {r}");
            let wt = w.weight(u);
            ensure!(wt == exp.len() as u128, "weight", "weight of {u} is {wt}, staked {exp:?}");
            for (q, only) in [("claims", false), ("releasable_claims", true)] {
                let r = w.c.q(&m, &json!({q:{"user":u}})).unwrap();
                let mut got: Vec<(Vec<String>, At)> = r["claims"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| {
                        let mut ids: Vec<String> = c["nft_ids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                        ids.sort();
                        (ids, At::of(&c["release_at"]))
                    })
                    .collect();
                got.sort();
                let mut exp: Vec<(Vec<String>, At)> = s
                    .claims
                    .iter()
                    .filter(|c| c.0 == u && (!only || due(&w, c.2)))
                    .map(|c| {
                        let mut ids: Vec<String> = c.1.iter().map(|x| x.to_string()).collect();
                        ids.sort();
                        (ids, c.2)
                    })
                    .collect();
                exp.sort();
                // claims of nothing are of no consequence
                got.retain(|c| !c.0.is_empty());
                exp.retain(|c| !c.0.is_empty());
                ensure!(got == exp, "claims", "{q} of {u}: {got:?}, expected {exp:?}");
            }
        }
        let r = w.c.q(&m, &json!({"staked_nfts":{"start_after":null,"limit":100}})).unwrap();
        let mut got: Vec<String> = r["nfts"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        got.sort();
        let exp: Vec<String> = s.staked.keys().map(|x| x.to_string()).collect();
        ensure!(got == exp, "staked", "staked NFTs {got:?}, expected {exp:?}");
        let t = w.total();
        ensure!(t == s.staked.len() as u128, "total", "total weight {t}, staked {exp:?}");
        for id in IDS {
            let o = w.nft_owner(id);
            ensure!(o == s.owner[id], "custody", "{id} belongs to {o}, expected {}", s.owner[id]);
        }
        all.extend(s.staked.keys());
        for c in &s.claims {
            all.extend(c.1.iter());
        }
        for id in &all {
            ensure!(w.nft_owner(id) == m, "custody", "{id} is staked or claimed but not in custody");
        }
        all.sort();
        let n = all.len();
        all.dedup();
        ensure!(n == all.len(), "custody-twice", "an NFT is recorded twice: {all:?}");
        Ok(())
    }
    fn apply(&self, s: &mut SN, a: &AN) -> Chk<Option<bool>> {
        let m = s.w.d.membership.clone();
        let nft = s.w.nft.clone();
        Ok(Some(match a {
            AN::Stake(id, u) => {
                let o = s.owner[id].clone();
                if o == m {
                    return Ok(None);
                }
                let r = s.w.stake_nft(&o, u, id);
                ensure!(r.is_ok(), "stake", "{o} cannot stake {id} for {u}: {r:?}");
                s.owner.insert(id, m);
                s.staked.insert(id, u);
                true
            }
            AN::StakeOther(id, u) => {
                let other = s.other.clone();
                let r = s.w.ex("mallory", &other, json!({"send_nft":{"contract":m,"token_id":id,"msg":b64(&json!({"stake":{"user":u}}))}}), &[]);
                ensure!(r.is_err(), "other-collection", "an NFT of another collection was staked");
                false
            }
            AN::AddClaimOther(id, u) => {
                let other = s.other.clone();
                let r = s.w.ex("mallory", &other, json!({"send_nft":{"contract":m,"token_id":id,"msg":b64(&json!({"add_claim":{"user":u,"release_at":{"height":"1"}}}))}}), &[]);
                ensure!(r.is_err(), "other-collection", "an NFT of another collection became a claim");
                false
            }
            AN::Forge(by, id, claim) => {
                let h = if *claim { json!({"add_claim":{"user":by,"release_at":{"height":"1"}}}) } else { json!({"stake":{"user":by}}) };
                let r = s.w.ex(by, &m, json!({"receive_nft":{"edition":null,"sender":by,"token_id":id,"msg":b64(&h)}}), &[]);
                ensure!(r.is_err(), "forged-hook", "{by} may call the NFT hook");
                false
            }
            AN::Again(id, u) => {
                if !s.staked.contains_key(id) {
                    return Ok(None);
                }
                let r = s.w.ex(&nft, &m, json!({"receive_nft":{"edition":null,"sender":u,"token_id":id,"msg":b64(&json!({"stake":{"user":u}}))}}), &[]);
                ensure!(r.is_err(), "staked-twice", "{id}, staked for {}, was staked again for {u}", s.staked[id]);
                false
            }
            AN::AddClaim(id, u, p) => {
                let o = s.owner[id].clone();
                if o == m {
                    return Ok(None);
                }
                let at = p.from(&s.w);
                let r = s.w.ex(&o, &nft, json!({"send_nft":{"contract":m,"token_id":id,"msg":b64(&json!({"add_claim":{"user":u,"release_at":at.json()}}))}}), &[]);
                ensure!(r.is_ok(), "add-claim", "{r:?}");
                s.owner.insert(id, m);
                s.claims.push((u, vec![id], at));
                true
            }
            AN::Transfer(id, to) => {
                let o = s.owner[id].clone();
                let to = to.map(|x| x.to_string()).unwrap_or(m.clone());
                if o == m || o == to {
                    return Ok(None);
                }
                s.w.ex(&o, &nft, json!({"transfer_nft":{"recipient":to,"token_id":id}}), &[]).unwrap();
                s.owner.insert(id, to);
                true
            }
            AN::Unstake(u, ids) => {
                let mut d: Vec<&str> = ids.clone();
                d.sort();
                d.dedup();
                let ok = d.len() == ids.len() && ids.iter().all(|i| s.staked.get(i) == Some(u));
                let r = s.w.ex(u, &m, json!({"unstake":{"nft_ids":ids}}), &[]);
                if !ok {
                    ensure!(r.is_err(), "unstake", "{u} unstaked {ids:?} while staked are {:?}", s.staked);
                    return Ok(Some(false));
                }
                if ids.is_empty() && r.is_err() {
                    return Ok(Some(false));
                }
                ensure!(r.is_ok(), "unstake", "{u} cannot unstake {ids:?}: {r:?}");
                for i in ids {
                    s.staked.remove(i);
                }
                let at = s.period.from(&s.w);
                s.claims.push((u, ids.clone(), at));
                true
            }
            AN::Claim(u) | AN::ClaimFor(_, u) => {
                let by = if let AN::ClaimFor(by, _) = a { *by } else { *u };
                let r = s.w.ex(by, &m, json!({"claim":{"user":if matches!(a, AN::ClaimFor(..)) { Some(u) } else { None }}}), &[]);
                if by != *u {
                    ensure!(r.is_err(), "claim-for", "{by} may claim for {u}");
                    return Ok(Some(false));
                }
                let d: Vec<_> = s.claims.iter().filter(|c| c.0 == *u && due(&s.w, c.2)).cloned().collect();
                if d.is_empty() && r.is_err() {
                    return Ok(Some(false));
                }
                ensure!(r.is_ok(), "claim", "{u} cannot claim {d:?}: {r:?}");
                for c in d {
                    for id in c.1 {
                        s.owner.insert(id, u.to_string());
                    }
                }
                let w = &s.w;
                s.claims.retain(|c| !(c.0 == *u && due(w, c.2)));
                true
            }
            AN::Period(p) => {
                let g = s.w.d.controller.clone();
                let r = s.w.ex(&g, &m, json!({"update_unlocking_period":{"new_unlocking_period":p.json()}}), &[]);
                ensure!(r.is_ok(), "period", "controller cannot set the unlocking period: {r:?}");
                s.period = *p;
                true
            }
            AN::Wait(b, ms) => {
                s.w.c.height += b;
                s.w.c.nanos += ms * 1_000_000;
                true
            }
        }))
    }
}
impl Model for MN {
    type S = SN;
    type A = AN;
    fn name(&self) -> String {
        format!("nft-start{}-alphabet{}", self.start, self.alphabet)
    }
    fn init(&self) -> Vec<SN> {
        let mut cfg = Cfg::new(Kind::Nft);
        cfg.gov.duration = 10;
        cfg.unlocking = json!({"time":10});
        let mut w = World::new(&cfg);
        w.c.nanos += 700_000_000;
        let other = w.c.inst(ADMIN, code::CW721, &json!({"name":"o","symbol":"OTH","minter":ADMIN}), None).unwrap();
        for id in IDS.iter().chain(&["x1"]) {
            w.ex(ADMIN, &other, json!({"mint":{"token_id":id,"owner":"mallory","token_uri":null,"extension":null}}), &[]).unwrap();
        }
        let mut s = SN {
            owner: IDS.iter().map(|i| (*i, i[..5].to_string())).collect(),
            staked: BTreeMap::new(),
            claims: vec![],
            period: Per::Time(10),
            w,
            other,
        };
        let pre = match self.start {
            0 => vec![],
            2 => vec![AN::Stake("usera1", "usera"), AN::Stake("usera2", "usera"), AN::Stake("userb1", "usera"), AN::Stake("userc1", "userb")],
            _ => vec![
                AN::Stake("usera1", "usera"),
                AN::Stake("usera2", "usera"),
                AN::Stake("userb1", "userb"),
                AN::Unstake("usera", vec!["usera2"]),
                AN::AddClaim("userc1", "userb", Per::Height(2)),
                AN::Wait(1, 9500),
            ],
        };
        for a in pre {
            self.apply(&mut s, &a).map_err(|v| v.msg).unwrap();
        }
        vec![s]
    }
    fn actions(&self, _: &SN) -> Vec<AN> {
        if self.alphabet == 2 {
            // every list of up to three NFTs, by each of two stakers
            let mut v = vec![AN::Claim("usera"), AN::Claim("userb"), AN::Wait(1, 10000)];
            v.extend(IDS.iter().flat_map(|i| [AN::Stake(i, "usera"), AN::Stake(i, "userb"), AN::Again(i, "usera"), AN::Again(i, "userb")]));
            let mut ls: Vec<Vec<&'static str>> = vec![vec![]];
            let mut from = 0;
            for _ in 0..3 {
                let to = ls.len();
                for k in from..to {
                    for i in IDS {
                        let mut l = ls[k].clone();
                        l.push(i);
                        ls.push(l);
                    }
                }
                from = to;
            }
            for l in ls {
                v.push(AN::Unstake("usera", l.clone()));
                v.push(AN::Unstake("userb", l));
            }
            return v;
        }
        let mut v = vec![
            AN::Stake("usera1", "usera"),
            AN::Stake("usera2", "usera"),
            AN::Stake("userb1", "userb"),
            AN::Unstake("usera", vec!["usera1"]),
            AN::Unstake("usera", vec!["usera1", "usera2"]),
            AN::Unstake("userb", vec!["userb1"]),
            AN::Unstake("userb", vec!["usera1"]),
            AN::Claim("usera"),
            AN::Claim("userb"),
            AN::Wait(1, 9500),
            AN::Wait(1, 500),
        ];
        if self.alphabet == 0 {
            v.push(AN::Stake("usera1", "userb"));
            v.push(AN::Unstake("userb", vec!["userb1", "usera1"]));
            v.push(AN::Unstake("usera", vec!["usera1", "usera1"]));
            v.push(AN::Unstake("usera", vec![]));
            v.push(AN::Unstake("userc", vec!["userc1"]));
            v.push(AN::Period(Per::Height(2)));
            v.push(AN::ClaimFor("userb", "usera"));
        } else {
            v.push(AN::StakeOther("x1", "mallory"));
            v.push(AN::StakeOther("usera1", "userb"));
            v.push(AN::AddClaimOther("usera1", "userb"));
            v.push(AN::Forge("userb", "usera1", false));
            v.push(AN::Forge("userb", "usera1", true));
            v.push(AN::AddClaim("userc1", "userc", Per::Time(10)));
            v.push(AN::AddClaim("usera2", "userb", Per::Height(1)));
            v.push(AN::Transfer("usera2", None));
            v.push(AN::Transfer("usera1", Some("userb")));
            v.push(AN::Claim("userc"));
            v.push(AN::ClaimFor("usera", "usera"));
        }
        v
    }
    fn step(&self, s: &mut SN, a: &AN) -> Chk<Step> {
        let o = self.apply(s, a)?;
        self.check(s)?;
        Ok(match o {
            None => Step::Skip,
            Some(true) => Step::Accepted,
            Some(false) => Step::Rejected,
        })
    }
    fn hash(&self, s: &SN, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
    }
}

pub fn c14(ctx: &mut Ctx) {
    for start in [0, 1] {
        for alphabet in [0, 1] {
            ctx.explore(&MN { start, alphabet }, ctx.q(5, 8));
        }
    }
    ctx.explore(&MN { start: 2, alphabet: 2 }, ctx.q(3, 5));
}

// ------------------------------------------------------------------ C15: totals in the past

#[derive(Clone)]
pub struct SH {
    w: World,
    total: u128,
    first: (u64, u64),
    /// (height, second, total before the change), in order
    changes: Vec<(u64, u64, u128)>,
    members: BTreeMap<&'static str, u128>,
}
#[derive(Clone, Debug)]
pub enum AH {
    Stake(&'static str, u128),
    Unstake(&'static str, u128),
    AddStakes(u128, u128),
    Update(Vec<(&'static str, u128)>),
    Set(Vec<(&'static str, u128)>),
    Wait(u64, u64),
}
pub struct MH {
    kind: Kind,
    council: bool,
}
impl MH {
    fn contract(&self, s: &SH) -> String {
        if self.council {
            s.w.d.council.clone()
        } else {
            s.w.d.membership.clone()
        }
    }
    fn check(&self, s: &SH) -> Chk {
        let mut w = s.w.clone();
        let m = self.contract(s);
        let sum: u128 = s.members.values().sum();
        let got = w.total_at(&m, json!({"never":{}}));
        ensure!(got == s.total && sum == s.total, "current-total", "current total {got}, expected {} = {sum}", s.total);
        for h in s.first.0.saturating_sub(2)..=w.c.height + 2 {
            let exp = s.changes.iter().find(|c| c.0 >= h).map(|c| c.2).unwrap_or(s.total);
            let got = w.total_at(&m, json!({"at_height":h}));
            ensure!(got == exp, "total-at-height", "total at height {h}: {got}, expected {exp} (now {}, changes {:?})", w.c.height, s.changes);
        }
        for t in s.first.1.saturating_sub(2)..=w.c.secs() + 2 {
            let exp = s.changes.iter().find(|c| c.1 >= t).map(|c| c.2).unwrap_or(s.total);
            for frac in [0u64, 999_999_999] {
                let got = w.total_at(&m, json!({"at_time":(t*SEC+frac).to_string()}));
                ensure!(got == exp, "total-at-time", "total at second {t}: {got}, expected {exp} (now {}, changes {:?})", w.c.secs(), s.changes);
            }
        }
        Ok(())
    }
    fn set(&self, s: &mut SH, u: &'static str, n: u128) {
        s.members.insert(u, n);
    }
    fn done(&self, s: &mut SH) {
        let t: u128 = s.members.values().sum();
        s.changes.push((s.w.c.height, s.w.c.secs(), s.total));
        s.total = t;
    }
}
impl Model for MH {
    type S = SH;
    type A = AH;
    fn name(&self) -> String {
        format!("history-{:?}{}", self.kind, if self.council { "-council" } else { "" })
    }
    fn init(&self) -> Vec<SH> {
        let mut cfg = Cfg::new(self.kind);
        cfg.council = Some(Council::new(&["usera", "userb"], "0.5", "0.5", None));
        cfg.members = vec![("usera".into(), 3), ("userb".into(), 2)];
        let w0 = World::base(&[]);
        let mut w = w0;
        w.kind = self.kind;
        w.c.nanos += 700_000_000;
        let (h, t) = (w.c.height, w.c.secs());
        w.d = w.create(&cfg).unwrap();
        let members: BTreeMap<&'static str, u128> = if self.council {
            [("usera", 1), ("userb", 1)].into_iter().collect()
        } else if self.kind == Kind::Multisig {
            [("usera", 3), ("userb", 2)].into_iter().collect()
        } else {
            BTreeMap::new()
        };
        let total: u128 = members.values().sum();
        let changes = if total > 0 { vec![(h, t, 0)] } else { vec![] };
        vec![SH { w, total, first: (h, t), changes, members }]
    }
    fn actions(&self, _: &SH) -> Vec<AH> {
        let mut v = vec![AH::Wait(1, 5000), AH::Wait(2, 1000), AH::Wait(1, 200), AH::Wait(1, 500)];
        if self.kind == Kind::Multisig || self.council {
            v.push(AH::Update(vec![("usera", 1)]));
            v.push(AH::Update(vec![("userb", 4), ("userc", 2)]));
            v.push(AH::Update(vec![("usera", 5), ("userb", 0)]));
            v.push(AH::Set(vec![("userc", 7)]));
            v.push(AH::Set(vec![("usera", 1), ("userb", 2)]));
            v.push(AH::Set(vec![]));
        } else {
            v.push(AH::Stake("usera", 1));
            v.push(AH::Stake("usera", 2));
            v.push(AH::Stake("userb", 1));
            v.push(AH::Unstake("usera", 1));
            v.push(AH::Unstake("usera", 2));
            v.push(AH::Unstake("userb", 1));
            if self.kind == Kind::Token {
                v.push(AH::AddStakes(2, 3));
            }
        }
        v
    }
    fn step(&self, s: &mut SH, a: &AH) -> Chk<Step> {
        let c = self.contract(s);
        match a {
            AH::Stake(u, n) => {
                let r = s.w.stake(u, *n);
                if self.kind == Kind::Nft && r.is_err() {
                    return Ok(Step::Skip);
                }
                ensure!(r.is_ok(), "stake", "{r:?}");
                let v = s.members.get(u).copied().unwrap_or(0) + n;
                self.set(s, u, v);
                self.done(s);
            }
            AH::AddStakes(x, y) => {
                let (t, m) = (s.w.token.clone(), c);
                let msg = json!({"add_stakes":{"stakers":[{"user":"usera","staked_amount":x.to_string()},{"user":"userb","staked_amount":y.to_string()}]}});
                s.w.ex("userc", &t, json!({"send":{"contract":m,"amount":(x+y).to_string(),"msg":b64(&msg)}}), &[]).unwrap();
                let (a, b) = (s.members.get("usera").copied().unwrap_or(0) + x, s.members.get("userb").copied().unwrap_or(0) + y);
                self.set(s, "usera", a);
                self.set(s, "userb", b);
                self.done(s);
            }
            AH::Unstake(u, n) => {
                let have = s.members.get(u).copied().unwrap_or(0);
                if have < *n {
                    return Ok(Step::Skip);
                }
                let r = s.w.unstake(u, *n);
                ensure!(r.is_ok(), "unstake", "{r:?}");
                self.set(s, u, have - n);
                self.done(s);
            }
            AH::Update(l) | AH::Set(l) => {
                let g = s.w.d.controller.clone();
                let v: Vec<Value> = l.iter().map(|(u, w)| json!({"user":u,"weight":w.to_string()})).collect();
                let set = matches!(a, AH::Set(_));
                let msg = if set { json!({"set_members":{"new_members":v}}) } else { json!({"update_members":{"update_members":v}}) };
                let r = s.w.ex(&g, &c, msg, &[]);
                ensure!(r.is_ok(), "members", "{a:?}: {r:?}");
                if set {
                    s.members.clear();
                }
                for (u, w) in l {
                    self.set(s, u, *w);
                }
                self.done(s);
            }
            AH::Wait(b, ms) => {
                s.w.c.height += b;
                s.w.c.nanos += ms * 1_000_000;
            }
        }
        self.check(s)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &SH, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
    }
}

pub fn c15(ctx: &mut Ctx) {
    for kind in KINDS {
        ctx.explore(&MH { kind, council: false }, ctx.q(5, 7));
    }
    ctx.explore(&MH { kind: Kind::Token, council: true }, ctx.q(5, 7));
}

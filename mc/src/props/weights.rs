//! C03: open votes and reward shares follow the members' current weights.
use crate::ensure;
use crate::explore::*;
use crate::sim::coin;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::hash::Hasher;

const U: [&str; 3] = ["usera", "userb", "userc"];

#[derive(Clone)]
pub struct S {
    w: World,
    weights: BTreeMap<&'static str, u128>,
    council: Vec<&'static str>,
    /// proposal -> (general?, end nanos, voter -> (outcome, amount))
    votes: Vec<(u64, bool, u64, BTreeMap<&'static str, (u8, u128)>)>,
}

#[derive(Clone, Debug)]
pub enum A {
    Stake(&'static str, u128),
    StakeFor(&'static str, &'static str, u128),
    AddStakes(u128, u128),
    Unstake(&'static str, u128),
    Update(Vec<(&'static str, u128)>),
    Set(Vec<(&'static str, u128)>),
    Vote(&'static str, usize, u8),
    CouncilVote(&'static str, usize, u8),
    /// replaces the council / changes members of it (which leaves general votes and shares alone)
    CouncilSet(Vec<&'static str>),
    CouncilUpdate(Vec<(&'static str, u128)>),
    Wait(u64),
}

struct M {
    kind: Kind,
    rich: bool,
}

impl M {
    fn check(&self, s: &S) -> Chk {
        let mut w = s.w.clone();
        for u in U {
            let got = w.weight(u);
            ensure!(got == s.weights[u], "weight", "weight of {u} is {got}, expected {}", s.weights[u]);
        }
        for (p, general, _, votes) in &s.votes {
            let exp: Vec<(String, u8, u128)> = votes.iter().map(|(u, (o, a))| (u.to_string(), *o, *a)).collect();
            let got = w.votes(*p);
            ensure!(got == exp, if *general { "vote-weight" } else { "council-vote" }, "proposal {p}: votes {got:?}, expected {exp:?}");
            let mut t = [0; 4];
            for (o, a) in votes.values() {
                t[*o as usize] += a;
            }
            let got = w.tally(*p);
            ensure!(got == t, "tally", "proposal {p}: tally {got:?}, expected {t:?}");
        }
        // rewards distributed now are split by the current weights
        let total: u128 = s.weights.values().sum();
        let d = w.d.distributor.clone();
        let rewards = |w: &mut World, u: &str| {
            let r = w.c.q(&d, &json!({"user_rewards":{"user":u,"native_denoms":["uluna"],"cw20_assets":[]}})).unwrap();
            as_u128(&r["native_rewards"][0]["amount"])
        };
        let before: Vec<u128> = U.iter().map(|u| rewards(&mut w, u)).collect();
        let r = w.ex(ADMIN, &d, json!({"distribute_native":{}}), &[coin((total * 100).max(1), "uluna")]);
        ensure!(r.is_ok() == (total > 0), "distribute", "distribution with total weight {total}: {r:?}");
        if total > 0 {
            for (i, u) in U.iter().enumerate() {
                let got = rewards(&mut w, u) - before[i];
                ensure!(got == s.weights[u] * 100, "reward-share",
                    "distributing {} over total weight {total}: {u} with weight {} gets {got}", total * 100, s.weights[u]);
            }
        }
        Ok(())
    }
    /// reference: a member's weight changed; votes on general proposals still open follow it
    fn changed(&self, s: &mut S, u: &'static str, nw: u128) {
        s.weights.insert(u, nw);
        let now = s.w.c.nanos;
        for (_, general, end, votes) in s.votes.iter_mut() {
            if *general && now < *end {
                if let Some(v) = votes.get_mut(u) {
                    v.1 = nw;
                }
            }
        }
    }
}

impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("{:?}{}", self.kind, if self.rich { "-rich" } else { "" })
    }
    fn init(&self) -> Vec<S> {
        let mut cfg = Cfg::new(self.kind);
        cfg.council = Some(Council::new(&["usera", "userd"], "0.5", "0.5", None));
        cfg.assets = Some(vec![native("uluna")]);
        cfg.members = vec![("usera".into(), 1), ("userb".into(), 2)];
        let mut w = World::new(&cfg);
        if self.kind != Kind::Multisig {
            w.stake("usera", 1).unwrap();
            w.stake("userb", 2).unwrap();
        }
        let g1 = w.propose("usera", vec![]).unwrap();
        let k = w.propose_council("usera", vec![]).unwrap();
        let e1 = w.c.nanos + 1000 * 1_000_000_000;
        w.c.advance(100, 500);
        let g2 = w.propose("usera", vec![]).unwrap();
        let e2 = w.c.nanos + 1000 * 1_000_000_000;
        vec![S {
            w,
            weights: [("usera", 1), ("userb", 2), ("userc", 0)].into_iter().collect(),
            council: vec!["usera", "userd"],
            votes: vec![(g1, true, e1, BTreeMap::new()), (k, false, e1, BTreeMap::new()), (g2, true, e2, BTreeMap::new())],
        }]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        match self.kind {
            Kind::Multisig => {
                v.push(A::Update(vec![("usera", 0)]));
                v.push(A::Update(vec![("usera", 3)]));
                v.push(A::Update(vec![("userb", 1), ("userc", 2)]));
                v.push(A::Update(vec![("userc", 1), ("usera", 2), ("userb", 0)]));
                v.push(A::Set(vec![("usera", 5)]));
                v.push(A::Set(vec![("userb", 2), ("userc", 4)]));
                if self.rich {
                    v.push(A::Set(vec![]));
                    v.push(A::Set(vec![("usera", 0), ("userc", 1)]));
                }
            }
            k => {
                v.push(A::Stake("usera", 1));
                v.push(A::Unstake("usera", 1));
                v.push(A::Unstake("userb", 1));
                v.push(A::StakeFor("userb", "userc", 1));
                if k != Kind::Nft {
                    v.push(A::Unstake("userb", 2));
                    v.push(A::Unstake("userb", 3));
                }
                if k == Kind::Token {
                    v.push(A::AddStakes(2, 1));
                }
                if self.rich {
                    v.push(A::StakeFor("userc", "usera", 2));
                    v.push(A::Unstake("userc", 1));
                }
            }
        }
        for u in ["usera", "userb", "userc"] {
            for p in [0usize, 2] {
                v.push(A::Vote(u, p, if u == "userb" { 1 } else { 0 }));
                if self.rich || u == "usera" && p == 0 {
                    v.push(A::Vote(u, p, 3));
                }
            }
        }
        v.push(A::CouncilVote("usera", 1, 0));
        v.push(A::CouncilSet(vec!["userb", "userc"]));
        v.push(A::CouncilUpdate(vec![("userb", 1)]));
        if self.rich {
            v.push(A::CouncilSet(vec!["usera", "userd"]));
            v.push(A::CouncilUpdate(vec![("userb", 1), ("usera", 0)]));
            v.push(A::CouncilUpdate(vec![("usera", 0)]));
            v.push(A::CouncilVote("userb", 1, 3));
            v.push(A::CouncilVote("usera", 1, 1));
        }
        if s.w.c.nanos < s.votes[2].2 {
            v.push(A::Wait(500));
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let before = s.w.c.digest();
        let now = s.w.c.nanos;
        let r = match a {
            A::Stake(u, n) => s.w.stake(u, *n),
            A::StakeFor(p, u, n) => s.w.stake_for(p, u, *n),
            A::Unstake(u, n) => s.w.unstake(u, *n),
            A::AddStakes(x, y) => {
                let (t, m) = (s.w.token.clone(), s.w.d.membership.clone());
                s.w.ex(
                    ADMIN,
                    &t,
                    json!({"send":{"contract":m,"amount":(x+y).to_string(),"msg":b64(&json!({"add_stakes":{"stakers":[
                        {"user":"usera","staked_amount":x.to_string()},{"user":"userc","staked_amount":y.to_string()}]}}))}}),
                    &[],
                )
            }
            A::Update(l) => s.w.update_members(l),
            A::Set(l) => s.w.set_members(l),
            A::Vote(u, p, o) => {
                let id = s.votes[*p].0;
                s.w.vote(u, id, OUTCOMES[*o as usize])
            }
            A::CouncilVote(u, p, o) => {
                let id = s.votes[*p].0;
                s.w.council_vote(u, id, OUTCOMES[*o as usize])
            }
            A::CouncilSet(l) => {
                let (m, g) = (s.w.d.council.clone(), s.w.d.controller.clone());
                let v: Vec<_> = l.iter().map(|u| json!({"user":u,"weight":"1"})).collect();
                s.w.ex(&g, &m, json!({"set_members":{"new_members":v}}), &[])
            }
            A::CouncilUpdate(l) => {
                let (m, g) = (s.w.d.council.clone(), s.w.d.controller.clone());
                let v: Vec<_> = l.iter().map(|(u, n)| json!({"user":u,"weight":n.to_string()})).collect();
                s.w.ex(&g, &m, json!({"update_members":{"update_members":v}}), &[])
            }
            A::Wait(x) => {
                s.w.c.advance(x / 5, *x);
                Ok(Default::default())
            }
        };
        let may = match a {
            A::Vote(u, p, _) => s.weights[u] > 0 && now < s.votes[*p].2,
            A::CouncilVote(u, p, _) => now < s.votes[*p].2 && s.council.contains(u),
            A::Unstake(u, n) => s.weights[u] >= *n,
            // availability of liquid funds is not what is being checked here
            A::Stake(..) | A::StakeFor(..) => r.is_ok(),
            _ => true,
        };
        ensure!(r.is_ok() == may, "accept", "{a:?}: {r:?}, expected accepted={may}");
        if !may {
            ensure!(s.w.c.digest() == before, "rejected-changed", "{a:?} was refused but changed the state");
            return Ok(Step::Rejected);
        }
        match a {
            A::Stake(u, n) | A::StakeFor(_, u, n) => {
                let x = s.weights[u] + n;
                self.changed(s, u, x)
            }
            A::Unstake(u, n) => {
                let x = s.weights[u] - n;
                self.changed(s, u, x)
            }
            A::AddStakes(x, y) => {
                let (p, q) = (s.weights["usera"] + x, s.weights["userc"] + y);
                self.changed(s, "usera", p);
                self.changed(s, "userc", q);
            }
            A::Update(l) => {
                for (u, n) in l {
                    self.changed(s, u, *n);
                }
            }
            A::Set(l) => {
                for u in U {
                    let n = l.iter().find(|x| x.0 == u).map(|x| x.1).unwrap_or(0);
                    self.changed(s, u, n);
                }
            }
            A::Vote(u, p, o) => {
                let wt = s.weights[u];
                s.votes[*p].3.insert(u, (*o, wt));
            }
            A::CouncilVote(u, p, o) => {
                s.votes[*p].3.insert(u, (*o, 1));
            }
            A::CouncilSet(l) => s.council = l.clone(),
            A::CouncilUpdate(l) => {
                for (u, n) in l {
                    s.council.retain(|x| x != u);
                    if *n > 0 {
                        s.council.push(u);
                    }
                }
            }
            A::Wait(_) => {}
        }
        self.check(s)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
    }
}

pub fn c03(ctx: &mut Ctx) {
    let (a, b) = ctx.q((5, 4), (7, 6));
    for kind in KINDS {
        ctx.explore(&M { kind, rich: false }, a);
    }
    for kind in KINDS {
        ctx.explore(&M { kind, rich: true }, b);
    }
    // the last moments of a voting period, to the nanosecond
    let offs: [i64; 10] = [-2_000_000_000, -1_000_000_001, -1_000_000_000, -999_999_999, -500_000_000, -2, -1, 0, 1, 1_000_000_000];
    let phases = [0u64, 1, 500_000_000, 999_999_999];
    ctx.grid(
        "moments-around-the-end",
        offs.len() * phases.len() * 4 * 3,
        |i| json!({"kind":format!("{:?}",KINDS[i%4]),"change":i/4%3,"offset":offs[i/12%offs.len()],"phase":phases[i/12/offs.len()]}),
        |i| {
            let (kind, ch, off, ph) = (KINDS[i % 4], i / 4 % 3, offs[i / 12 % offs.len()], phases[i / 12 / offs.len()]);
            let mut cfg = Cfg::new(kind);
            cfg.members = vec![("usera".into(), 2), ("userb".into(), 2)];
            let mut w = World::new(&cfg);
            if kind != Kind::Multisig {
                w.stake("usera", 2).unwrap();
                w.stake("userb", 2).unwrap();
            }
            w.c.nanos = w.c.nanos / 1_000_000_000 * 1_000_000_000 + ph;
            let p = w.propose("usera", vec![]).unwrap();
            w.vote("usera", p, "yes").unwrap();
            w.vote("userb", p, "no").unwrap();
            w.c.height += 100;
            w.c.nanos = (w.c.nanos as i64 + 1000 * 1_000_000_000 + off) as u64;
            let n = [1u128, 0, 3][ch];
            let r = match (kind, ch) {
                (Kind::Multisig, _) => w.update_members(&[("usera", n)]),
                (_, 2) => w.stake("usera", 1),
                _ => w.unstake("usera", 2 - n),
            };
            if kind == Kind::Nft && ch == 2 && r.is_err() {
                return Ok(false);
            }
            ensure!(r.is_ok(), "accept", "{r:?}");
            let exp = vec![("usera".to_string(), 0u8, if off < 0 { n } else { 2 }), ("userb".to_string(), 1u8, 2)];
            let got = w.votes(p);
            ensure!(got == exp, "vote-weight", "weight {n} {off} ns from the end: votes {got:?}, expected {exp:?}");
            let t = w.tally(p);
            ensure!(t[0] == exp[0].2 && t[1] == 2, "tally", "weight {n} {off} ns from the end: tally {t:?}");
            Ok(true)
        },
    );
    // many simultaneously open proposals: none is left behind, however many there are
    let sizes: Vec<usize> = ctx.q(vec![11, 31, 51], vec![11, 31, 51, 101, 130]);
    ctx.grid("many-open-proposals", sizes.len() * 4, |i| json!({"kind":format!("{:?}",KINDS[i%4]),"proposals":sizes[i/4]}), |i| {
        let kind = KINDS[i % 4];
        let mut cfg = Cfg::new(kind);
        cfg.members = vec![("usera".into(), 2), ("userb".into(), 2)];
        let mut w = World::new(&cfg);
        if kind != Kind::Multisig {
            w.stake("usera", 2).unwrap();
            w.stake("userb", 2).unwrap();
        }
        let mut ids = vec![];
        for k in 0..sizes[i / 4] {
            let p = w.propose("usera", vec![]).unwrap();
            w.vote("usera", p, OUTCOMES[k % 4]).unwrap();
            w.vote("userb", p, "no").unwrap();
            ids.push(p);
        }
        if kind == Kind::Multisig {
            w.update_members(&[("usera", 1)]).unwrap();
        } else {
            w.unstake("usera", 1).unwrap();
        }
        for (k, p) in ids.iter().enumerate() {
            let v = w.votes(*p);
            let exp = vec![("usera".to_string(), (k % 4) as u8, 1u128), ("userb".to_string(), 1u8, 2u128)];
            ensure!(v == exp, "vote-weight", "proposal {p} of {}: votes {v:?}, expected {exp:?}", ids.len());
        }
        Ok(true)
    });
}

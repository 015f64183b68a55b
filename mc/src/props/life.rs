//! C04, C05, C06: the life of a proposal, from creation through votes, weight changes and the
//! passing of time to its execution.
use super::poll::{dec, rule};
use crate::ensure;
use crate::explore::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::Hasher;

const SEC: u64 = 1_000_000_000;
pub const DUR: u64 = 1000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Judge {
    /// what takes effect, how often, and the reported status
    Effect,
    /// when execution is possible
    Timing,
    /// where deposits are
    Deposit,
}

#[derive(Clone)]
pub struct P {
    id: u64,
    council: bool,
    end: u64,
    votes: BTreeMap<&'static str, (u8, u128)>,
    earliest: u64,
    executed: bool,
    /// effect on userd's uluna if carried out
    pay: u128,
    deposit: Option<(u128, &'static str, Vec<String>)>,
}

#[derive(Clone)]
pub struct S {
    w: World,
    weights: BTreeMap<&'static str, u128>,
    /// (time, total after that)
    hist: Vec<(u64, u128)>,
    ps: Vec<P>,
    /// expected uluna of the payee
    paid: u128,
    name: String,
    /// expected deposit-asset holdings relative to the start, by account (deposit judge)
    held: BTreeMap<String, i128>,
}

#[derive(Clone, Debug)]
pub enum A {
    Vote(&'static str, usize, u8),
    Execute(usize),
    Wait(u64),
    WaitEnd(usize),
    /// to this many nanoseconds from the end of voting / of the delay
    Near(usize, i64),
    Delay(usize, i64),
    Stake(&'static str, u128),
    Unstake(&'static str, u128),
    Reweigh(&'static str, u128),
    Propose(&'static str, u128, Option<&'static str>),
}

pub struct M {
    pub label: &'static str,
    pub kind: Kind,
    pub early: bool,
    pub judge: Judge,
    /// general proposals, council proposals at the start
    pub general: usize,
    pub council: usize,
    pub voters: Vec<&'static str>,
    pub outcomes: Vec<u8>,
    pub waits: Vec<u64>,
    pub moves: bool,
    pub gov: Gov,
    pub proposals: usize,
    /// the actions fail when carried out
    pub failing: bool,
    /// moments to the nanosecond; the value is the time within the second of the creation
    pub fine: Option<u64>,
}
const NEAR: [i64; 7] = [-1_000_000_001, -1_000_000_000, -500_000_000, -1, 0, 1, 999_999_999];

impl M {
    pub fn new(label: &'static str, kind: Kind, judge: Judge) -> M {
        M {
            label,
            kind,
            early: false,
            judge,
            general: 1,
            council: 0,
            voters: vec!["usera", "userb", "userc"],
            outcomes: vec![0, 1, 2, 3],
            waits: vec![],
            moves: false,
            gov: Gov { quorum: "0.5".into(), threshold: "0.5".into(), veto: Some("0.25".into()), duration: DUR, min_deposit: None, early: false },
            proposals: 0,
            failing: false,
            fine: None,
        }
    }
    fn total_at(&self, s: &S, t: u64) -> u128 {
        // in force just before any change made in that second
        s.hist.iter().rev().find(|x| x.0 / SEC < t / SEC).map(|x| x.1).unwrap_or(0)
    }
    fn total_now(&self, s: &S) -> u128 {
        s.weights.values().sum()
    }
    fn tally(p: &P) -> [u128; 4] {
        let mut t = [0; 4];
        for (o, a) in p.votes.values() {
            t[*o as usize] += a;
        }
        t
    }
    /// (status, quorum reached, decided, votes available)
    fn outcome(&self, s: &S, p: &P) -> (Value, bool, bool, u128) {
        let now = s.w.c.nanos;
        let (max, q, t) = if p.council {
            (2, dec("0.6"), dec("0.5"))
        } else {
            let max = if now >= p.end { self.total_at(s, p.end) } else { self.total_now(s) };
            (max, dec(&self.gov.quorum), dec(&self.gov.threshold))
        };
        let (st, qr, d) = rule(Self::tally(p), max, q, t, self.gov.veto.as_ref().map(|v| dec(v)));
        (st, qr, d, max)
    }
    fn exec_class(st: &Value) -> String {
        if st["passed"].is_object() {
            "passed".into()
        } else {
            match &st["rejected"]["reason"] {
                Value::String(s) if s == "quorum_not_reached" || s == "threshold_not_reached" => "none".into(),
                v => v.to_string(),
            }
        }
    }
    fn actions_of(&self, k: usize) -> (Vec<Value>, u128) {
        let pay = 10 + k as u128;
        let md = |n: String| {
            json!({"update_metadata":{"name":{"change":n},"description":"no_change","logo":"no_change",
                "github_username":"no_change","discord_username":"no_change","twitter_username":"no_change","telegram_username":"no_change"}})
        };
        let mut v = vec![md(format!("first{k}")), act_pay("userd", "uluna", pay), md(format!("second{k}"))];
        if self.failing {
            v.push(act_pay("userd", "uluna", 10_000_000));
        }
        (v, pay)
    }
    fn council_actions(k: usize) -> Vec<Value> {
        let md = |n: String| {
            json!({"update_metadata":{"name":{"change":n},"description":"no_change","logo":"no_change",
                "github_username":"no_change","discord_username":"no_change","twitter_username":"no_change","telegram_username":"no_change"}})
        };
        vec![md(format!("first{k}")), md(format!("second{k}"))]
    }
    fn dao_name(w: &mut World) -> String {
        let e = w.d.enterprise.clone();
        w.c.q(&e, &json!({"dao_info":{}})).unwrap()["metadata"]["name"].as_str().unwrap().to_string()
    }
    fn holdings(&self, w: &mut World, u: &str) -> i128 {
        match self.kind {
            Kind::Denom => w.c.bal(u, DENOM) as i128,
            Kind::Token => {
                let t = w.token.clone();
                w.cw20_bal(&t, u) as i128
            }
            _ => w.owned(u).len() as i128,
        }
    }
    fn check(&self, s: &mut S) -> Chk {
        match self.judge {
            Judge::Effect => {
                let now = s.w.c.nanos;
                let got = s.w.c.bal("userd", "uluna");
                ensure!(got == s.paid, "effect", "the payee holds {got}, expected {}", s.paid);
                let n = Self::dao_name(&mut s.w);
                ensure!(n == s.name, "effect", "DAO name is {n}, expected {}", s.name);
                for i in 0..s.ps.len() {
                    let p = s.ps[i].clone();
                    let st = s.w.proposal_status(p.id);
                    let full = s.w.proposal(p.id);
                    ensure!(full["proposal_status"] == json!(st) && full["proposal"]["status"] == json!(st), "status",
                        "proposal {}: status queries disagree: {st} vs {}", p.id, full["proposal_status"]);
                    let (o, _, _, max) = self.outcome(s, &p);
                    let passes = o["passed"].is_object();
                    let d = s.w.d.clone();
                    for who in [MALLORY, "usera", &d.membership, &d.council, &d.enterprise, &d.governance, &d.treasury, &d.distributor, &d.outposts] {
                        // running the actions without executing the proposal must not be possible
                        let mut t = s.w.clone();
                        let c = t.d.controller.clone();
                        let r = t.ex(who, &c, json!({"execute_proposal_actions":{"proposal_id":p.id}}), &[]);
                        let paid = t.c.bal("userd", "uluna");
                        ensure!(paid == s.paid && (r.is_err() || M::dao_name(&mut t) == s.name), "bypass",
                            "{who} carried out the actions of proposal {} without executing it", p.id);
                    }
                    if p.executed {
                        ensure!(st == "executed", "status", "executed proposal {} reported {st}", p.id);
                        continue;
                    }
                    if max == 0 {
                        continue;
                    }
                    let shown = as_u128(&full["total_votes_available"]);
                    ensure!(shown == max, "available", "proposal {}: {shown} votes reported available, expected {max}", p.id);
                    let mut t = s.w.clone();
                    let r = t.execute(MALLORY, p.id);
                    match st.as_str() {
                        "passed" => ensure!(now >= p.end && passes && r.is_ok(), "status",
                            "proposal {} reported passed at {}s after end; rule says {o}, execution {r:?}", p.id, (now as i128 - p.end as i128) / SEC as i128),
                        "rejected" => ensure!(now >= p.end && !passes, "status", "proposal {} reported rejected; rule says {o}", p.id),
                        "in_progress_can_execute_early" => ensure!(now < p.end && r.is_ok(), "status",
                            "proposal {} reported executable early but executing it gives {r:?}", p.id),
                        "in_progress" => {
                            ensure!(now < p.end, "status", "proposal {} reported in progress after its end", p.id);
                            let draw = o.to_string().contains("draw");
                            ensure!(r.is_err() || draw, "status", "proposal {} reported in progress (not executable), yet it executes", p.id);
                        }
                        x => return viol("status", format!("unexecuted proposal {} reported {x}", p.id)),
                    }
                }
            }
            Judge::Timing => {
                let now = s.w.c.nanos;
                for p in s.ps.clone() {
                    if p.executed {
                        continue;
                    }
                    let (_, q, d, max) = self.outcome(s, &p);
                    if max == 0 {
                        continue;
                    }
                    let may = now >= p.end || ((p.council || self.early) && q && d && now >= p.earliest);
                    let mut t = s.w.clone();
                    let r = t.execute(MALLORY, p.id);
                    ensure!(r.is_ok() == may, if may { "blocked" } else { "too-early" },
                        "proposal {}: execution {:?} at {}s relative to its end, {}s relative to the end of its delay (quorum {q}, decided {d}, early allowed {})",
                        p.id, r.map(|_| "accepted"), (now as i128 - p.end as i128) / SEC as i128, (now as i128 - p.earliest as i128) / SEC as i128, self.early);
                }
            }
            Judge::Deposit => {
                let c = s.w.d.controller.clone();
                let held: u128 = s.ps.iter().filter(|p| !p.executed).filter_map(|p| p.deposit.as_ref().map(|d| d.0)).sum();
                let mut w = s.w.clone();
                let got = self.holdings(&mut w, &c);
                ensure!(got == held as i128, "held", "the controller holds {got} of the deposit asset, open deposits are {held}");
                for (u, exp) in &s.held {
                    let got = self.holdings(&mut w, u);
                    ensure!(got == *exp, "deposit-moved", "{u} holds {got} of the deposit asset, expected {exp}");
                }
                if self.kind == Kind::Nft {
                    for p in s.ps.iter().filter(|p| !p.executed) {
                        for id in &p.deposit.as_ref().unwrap().2 {
                            let o = w.nft_owner(id);
                            ensure!(o == c, "held", "deposited NFT {id} of open proposal {} is held by {o}", p.id);
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn reweigh(&self, s: &mut S, u: &'static str, n: u128) {
        s.weights.insert(u, n);
        let now = s.w.c.nanos;
        let tot = s.weights.values().sum();
        s.hist.push((now, tot));
        for p in s.ps.iter_mut() {
            if !p.council && !p.executed && now < p.end {
                if let Some(v) = p.votes.get_mut(u) {
                    v.1 = n;
                }
            }
        }
    }
}

impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("{}-{:?}{}", self.label, self.kind, if self.early { "-early" } else { "" })
    }
    fn init(&self) -> Vec<S> {
        let mut cfg = Cfg::new(self.kind);
        cfg.gov = self.gov.clone();
        cfg.gov.early = self.early;
        cfg.council = Some(Council::new(&["usera", "userd"], "0.6", "0.5", Some(&["update_metadata"])));
        cfg.members = vec![("usera".into(), 2), ("userb".into(), 1), ("userc".into(), 1)];
        let mut w = World::new(&cfg);
        if self.kind != Kind::Multisig {
            w.stake("usera", 2).unwrap();
            w.stake("userb", 1).unwrap();
            w.stake("userc", 1).unwrap();
        }
        let hist = vec![(w.c.nanos, 4)];
        w.c.advance(2, 10);
        if let Some(x) = self.fine {
            w.c.nanos = w.c.nanos / SEC * SEC + x;
        }
        let mut ps = vec![];
        for k in 0..self.general + self.council {
            let council = k >= self.general;
            let (id, pay) = if council {
                (w.propose_council("usera", M::council_actions(k)).unwrap(), 0)
            } else {
                let (a, pay) = self.actions_of(k);
                (w.propose("usera", a).unwrap(), pay)
            };
            ps.push(P { id, council, end: w.c.nanos + self.gov.duration * SEC, votes: BTreeMap::new(), earliest: 0, executed: false, pay, deposit: None });
            w.c.advance(1, 7);
        }
        let mut held = BTreeMap::new();
        if self.judge == Judge::Deposit {
            let t = w.d.treasury.clone();
            for u in ["usera", "userb", "userc", "userd", t.as_str()] {
                held.insert(u.to_string(), self.holdings(&mut w.clone(), u));
            }
        }
        vec![S {
            paid: w.c.bal("userd", "uluna"),
            name: M::dao_name(&mut w),
            w,
            weights: [("usera", 2), ("userb", 1), ("userc", 1), ("userd", 0)].into_iter().collect(),
            hist,
            ps,
            held,
        }]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        if s.ps.len() < self.proposals {
            let d = self.gov.min_deposit.unwrap_or(0);
            v.push(A::Propose("usera", d, None));
            v.push(A::Propose("userb", d, Some("userc")));
            if self.kind != Kind::Nft {
                v.push(A::Propose("userb", d + 1, None));
            }
        }
        for i in 0..s.ps.len() {
            v.push(A::Execute(i));
            for u in &self.voters {
                for o in &self.outcomes {
                    v.push(A::Vote(u, i, *o));
                }
            }
            if self.fine.is_some() {
                for o in NEAR {
                    v.push(A::Near(i, o));
                    if s.ps[i].earliest > 0 {
                        v.push(A::Delay(i, o));
                    }
                }
            } else if s.w.c.nanos < s.ps[i].end {
                v.push(A::WaitEnd(i));
            }
        }
        for x in &self.waits {
            v.push(A::Wait(*x));
        }
        if self.moves {
            if self.kind == Kind::Multisig {
                v.push(A::Reweigh("usera", 0));
                v.push(A::Reweigh("userd", 5));
            } else {
                v.push(A::Stake("userd", 3));
                v.push(A::Unstake("usera", 1));
                v.push(A::Unstake("userc", 1));
            }
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let before = s.w.c.digest();
        let now = s.w.c.nanos;
        match a {
            A::Wait(x) => s.w.c.advance(x.div_ceil(5), *x),
            A::WaitEnd(i) => {
                let left = s.ps[*i].end - now;
                s.w.c.advance((left / SEC / 5).max(1), left / SEC);
            }
            A::Near(i, o) | A::Delay(i, o) => {
                let p = &s.ps[*i];
                let t = (if matches!(a, A::Near(..)) { p.end } else { p.earliest } as i64 + o) as u64;
                if t <= now {
                    return Ok(Step::Skip);
                }
                s.w.c.height += (t - now).div_ceil(5 * SEC);
                s.w.c.nanos = t;
            }
            A::Stake(u, n) => {
                if s.w.stake(u, *n).is_err() {
                    return Ok(Step::Skip);
                }
                if self.judge == Judge::Deposit {
                    *s.held.get_mut(*u).unwrap() -= *n as i128;
                }
                let x = s.weights[u] + n;
                self.reweigh(s, u, x);
            }
            A::Unstake(u, n) => {
                if s.w.unstake(u, *n).is_err() {
                    return Ok(Step::Skip);
                }
                let x = s.weights[u] - n;
                self.reweigh(s, u, x);
            }
            A::Reweigh(u, n) => {
                s.w.update_members(&[(u, *n)]).unwrap();
                self.reweigh(s, u, *n);
            }
            A::Vote(u, i, o) => {
                let p = s.ps[*i].clone();
                let wt = if p.council { (*u == "usera" || *u == "userd") as u128 } else { s.weights[u] };
                let pre = M::exec_class(&self.outcome(s, &p).0);
                let r = if p.council { s.w.council_vote(u, p.id, OUTCOMES[*o as usize]) } else { s.w.vote(u, p.id, OUTCOMES[*o as usize]) };
                if r.is_err() {
                    ensure!(wt == 0 || now >= p.end || p.executed, "vote-refused", "{a:?}: {r:?}");
                    return Ok(Step::Rejected);
                }
                ensure!(wt > 0 && now < p.end && !p.executed, "vote-accepted", "{a:?} accepted (weight {wt}, executed {})", p.executed);
                s.ps[*i].votes.insert(u, (*o, wt));
                let post = M::exec_class(&self.outcome(s, &s.ps[*i]).0);
                if self.early && self.kind != Kind::Multisig && !p.council && pre != post {
                    s.ps[*i].earliest = (now + self.gov.duration / 10 * SEC).min(p.end);
                }
            }
            A::Propose(u, d, owner) => {
                let k = s.ps.len();
                let (acts, pay) = self.actions_of(k);
                let ids: Vec<String> = if self.kind == Kind::Nft { s.w.owned(u).into_iter().take(*d as usize).collect() } else { vec![] };
                let r = s.w.propose_deposit(u, *d, *owner, acts);
                let id = match r {
                    Ok(id) => id,
                    Err(e) => {
                        ensure!(self.kind == Kind::Nft && (ids.len() as u128) < *d, "propose-refused", "{a:?}: {e}");
                        return Ok(Step::Skip);
                    }
                };
                *s.held.get_mut(*u).unwrap() -= *d as i128;
                s.ps.push(P { id, council: false, end: now + self.gov.duration * SEC, votes: BTreeMap::new(), earliest: 0, executed: false, pay,
                    deposit: Some((*d, owner.unwrap_or(u), ids)) });
            }
            A::Execute(i) => {
                let p = s.ps[*i].clone();
                let (o, _, _, max) = self.outcome(s, &p);
                let r = s.w.execute(MALLORY, p.id);
                if p.executed {
                    ensure!(r.is_err(), "executed-twice", "proposal {} executed a second time", p.id);
                }
                if r.is_err() {
                    ensure!(s.w.c.digest() == before, "rejected-changed", "refused execution changed the state");
                    return Ok(Step::Rejected);
                }
                ensure!(max > 0, "no-votes", "proposal {} executed although no votes were available", p.id);
                s.ps[*i].executed = true;
                if o["passed"].is_object() && !self.failing {
                    s.paid += p.pay;
                    s.name = format!("second{i}");
                }
                if let Some((d, owner, _)) = &p.deposit {
                    let reason = o["rejected"]["reason"].as_str().unwrap_or("").to_string();
                    let to = if reason == "quorum_not_reached" || reason == "is_veto_outcome" { s.w.d.treasury.clone() } else { owner.to_string() };
                    *s.held.get_mut(&to).unwrap() += *d as i128;
                }
            }
        }
        self.check(s)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
    }
}

pub fn c04(ctx: &mut Ctx) {
    let th = ctx.thorough;
    for kind in KINDS {
        for early in [false, true] {
            let d = if th { 6 } else { 5 };
            ctx.explore(&M { early, moves: true, outcomes: vec![0, 1, 3], ..M::new("one", kind, Judge::Effect) }, if th { d } else { 4 });
            ctx.explore(&M { early, outcomes: vec![0, 1], voters: vec!["usera", "userb"], waits: vec![100], ..M::new("one-deep", kind, Judge::Effect) }, d + 1);
            ctx.explore(
                &M { early, general: 2, voters: vec!["usera", "userb"], outcomes: vec![0, 1], ..M::new("two", kind, Judge::Effect) },
                if th { 6 } else { 5 },
            );
            ctx.explore(
                &M { early, general: 1, council: 1, voters: vec!["usera", "userd"], outcomes: vec![0, 1], ..M::new("council", kind, Judge::Effect) },
                if th { 7 } else { 5 },
            );
        }
        ctx.explore(
            &M { moves: true, waits: vec![1], voters: vec!["usera"], outcomes: vec![0, 1], ..M::new("after-end", kind, Judge::Effect) },
            if th { 7 } else { 5 },
        );
        ctx.explore(&M { failing: true, outcomes: vec![0, 1], ..M::new("failing", kind, Judge::Effect) }, if th { 6 } else { 5 });
    }
    fine(ctx, Judge::Effect, if th { 4 } else { 3 });
}

fn fine(ctx: &mut Ctx, judge: Judge, depth: usize) {
    for kind in KINDS {
        for early in [true, false] {
            for x in [0, 500_000_000, 999_999_999] {
                ctx.explore(&M { early, fine: Some(x), voters: vec!["usera", "userb"], outcomes: vec![0, 1], ..M::new(["moments0", "moments5", "moments9"][(x / 450_000_000) as usize], kind, judge) }, depth);
            }
            ctx.explore(&M { early, fine: Some(1), general: 0, council: 1, voters: vec!["usera", "userd"], outcomes: vec![0, 1], ..M::new("moments-council", kind, judge) }, depth);
        }
    }
}

pub fn c05(ctx: &mut Ctx) {
    let th = ctx.thorough;
    fine(ctx, Judge::Timing, if th { 5 } else { 4 });
    for kind in KINDS {
        for early in [true, false] {
            ctx.explore(&M { early, outcomes: vec![0, 1, 3], waits: vec![99, 1], ..M::new("timing", kind, Judge::Timing) }, if th { 6 } else { 4 });
            ctx.explore(
                &M { early, voters: vec!["usera", "userb"], outcomes: vec![0, 1, 2], waits: vec![100, 850], moves: th, ..M::new("late", kind, Judge::Timing) },
                if th { 6 } else { 5 },
            );
            let mut g = M::new("odd-duration", kind, Judge::Timing);
            g.gov.duration = 37;
            g.gov.veto = None;
            ctx.explore(&M { early, voters: vec!["usera", "userb"], outcomes: vec![0, 3], waits: vec![1, 2], ..g }, if th { 7 } else { 5 });
            ctx.explore(
                &M { early, general: 0, council: 1, voters: vec!["usera", "userd"], outcomes: vec![0, 1, 2], waits: vec![1], ..M::new("council", kind, Judge::Timing) },
                if th { 6 } else { 5 },
            );
        }
    }
}

pub fn c06(ctx: &mut Ctx) {
    let th = ctx.thorough;
    for kind in [Kind::Denom, Kind::Token, Kind::Nft] {
        for early in [false, true] {
            let mut g = M::new("deposits", kind, Judge::Deposit);
            g.gov.min_deposit = Some(if kind == Kind::Nft { 1 } else { 2 });
            g.general = 0;
            g.proposals = 2;
            g.early = early;
            g.voters = vec!["usera", "userb"];
            g.outcomes = vec![0, 1, 3];
            ctx.explore(&g, if th { 6 } else { 5 });
            g.label = "deposits-failing";
            g.failing = true;
            g.outcomes = vec![0, 2];
            ctx.explore(&g, if th { 6 } else { 5 });
            g.label = "deposits-one";
            g.failing = false;
            g.proposals = 1;
            g.moves = true;
            g.voters = vec!["usera", "userb", "userc"];
            g.outcomes = vec![0, 1, 2, 3];
            ctx.explore(&g, if th { 6 } else { 5 });
            if kind == Kind::Nft {
                // a deposit of several NFTs
                g.label = "deposits-two-nfts";
                g.gov.min_deposit = Some(2);
                g.outcomes = vec![0, 3];
                g.voters = vec!["usera", "userb"];
                g.moves = false;
                ctx.explore(&g, if th { 6 } else { 5 });
            }
        }
    }
}

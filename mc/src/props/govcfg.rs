//! C09: governance settings stay legal and never change a poll already under way.
use super::create::*;
use super::poll::{dec, rule};
use crate::ensure;
use crate::explore::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const EPS: &str = "0.000000000000000001";
const OVER: &str = "1.000000000000000001";

fn legal_frac(x: &str) -> bool {
    let d = dec(x);
    d > 0 && d <= dec("1")
}

fn config(w: &mut World) -> (Value, Value, Value) {
    let (g, m) = (w.d.controller.clone(), w.d.membership.clone());
    let q = w.c.q(&g, &json!({"gov_config":{}})).unwrap();
    let u = match w.kind {
        Kind::Denom => w.c.q(&m, &json!({"denom_config":{}})).unwrap()["unlocking_period"].clone(),
        Kind::Token => w.c.q(&m, &json!({"token_config":{}})).unwrap()["unlocking_period"].clone(),
        Kind::Nft => w.c.q(&m, &json!({"nft_config":{}})).unwrap()["unlocking_period"].clone(),
        Kind::Multisig => Value::Null,
    };
    (q["gov_config"].clone(), q["council_gov_config"].clone(), u)
}

fn at_creation(ctx: &mut Ctx) {
    let fr = ["0", EPS, "0.5", "1", OVER];
    let veto = [None, Some("0"), Some(EPS), Some("1"), Some(OVER)];
    let durs = [0u64, 1, 1000];
    let unl = [json!({"time":0}), json!({"time":999}), json!({"time":1000}), json!({"time":1001}), json!({"height":1})];
    let mins = [None, Some(0u128), Some(5)];
    let base = World::base(&[]);
    let dims = [4, 5, 5, 5, 3, 5, 3];
    let n: usize = dims.iter().product();
    let pick = |mut i: usize| {
        let mut o = [0; 7];
        for k in 0..7 {
            o[k] = i % dims[k];
            i /= dims[k];
        }
        o
    };
    ctx.grid(
        "governance settings at creation",
        n,
        |i| {
            let o = pick(i);
            json!({"kind":format!("{:?}",KINDS[o[0]]),"quorum":fr[o[1]],"threshold":fr[o[2]],"veto":veto[o[3]],"duration":durs[o[4]],"unlocking":unl[o[5]],"min_deposit":mins[o[6]].map(|x|x.to_string())})
        },
        |i| {
            let o = pick(i);
            let kind = KINDS[o[0]];
            if kind == Kind::Multisig && o[5] > 0 {
                return Ok(false);
            }
            let mut w = base.clone();
            w.kind = kind;
            let mut cfg = Cfg::new(kind);
            cfg.gov = Gov { quorum: fr[o[1]].into(), threshold: fr[o[2]].into(), veto: veto[o[3]].map(|x| x.into()), duration: durs[o[4]], min_deposit: mins[o[6]], early: i % 2 == 0 };
            cfg.unlocking = unl[o[5]].clone();
            let long_enough = kind == Kind::Multisig || cfg.unlocking.get("height").is_some() || cfg.unlocking["time"].as_u64().unwrap() >= durs[o[4]];
            let ok = legal_frac(fr[o[1]]) && legal_frac(fr[o[2]]) && veto[o[3]].map(legal_frac).unwrap_or(true) && durs[o[4]] > 0
                && !(kind == Kind::Multisig && mins[o[6]].is_some()) && long_enough;
            let r = w.create(&cfg);
            ensure!(r.is_ok() == ok, if ok { "creation-refused" } else { "creation-accepted" }, "creating a {kind:?} DAO with {:?}: {:?}", cfg.gov, r.as_ref().map(|_| "accepted"));
            if let Ok(d) = r {
                w.d = d;
                let (g, c, u) = config(&mut w);
                ensure!(same_gov(&g, &cfg.gov.json()) && c.is_null(), "stored", "settings stored as {g}, requested {}", cfg.gov.json());
                ensure!(kind == Kind::Multisig || u == cfg.unlocking, "stored", "unlocking period stored as {u}");
            }
            Ok(true)
        },
    );
    // council settings
    ctx.grid(
        "council settings at creation",
        4 * 25 * 4,
        |i| json!({"kind":i/100,"quorum":fr[i%5],"threshold":fr[i/5%5],"members":i/25%4}),
        |i| {
            let kind = KINDS[i / 100];
            let mut w = base.clone();
            w.kind = kind;
            let mut cfg = Cfg::new(kind);
            let m: &[&str] = [&["usera"][..], &["usera", "userb"], &["usera", "usera"], &["usera", "userb", "usera"]][i / 25 % 4];
            cfg.council = Some(Council::new(m, fr[i % 5], fr[i / 5 % 5], None));
            let ok = legal_frac(fr[i % 5]) && legal_frac(fr[i / 5 % 5]) && i / 25 % 4 < 2;
            let r = w.create(&cfg);
            ensure!(r.is_ok() == ok, if ok { "creation-refused" } else { "creation-accepted" }, "creating a {kind:?} DAO with council {:?}: {:?}", cfg.council, r.as_ref().map(|_| "accepted"));
            Ok(true)
        },
    );
}

/// decimals compare by value, everything else literally
fn same_gov(a: &Value, b: &Value) -> bool {
    let d = |v: &Value| v.as_str().map(dec);
    d(&a["quorum"]) == d(&b["quorum"])
        && d(&a["threshold"]) == d(&b["threshold"])
        && d(&a["veto_threshold"]) == d(&b["veto_threshold"])
        && a["vote_duration"] == b["vote_duration"]
        && a["minimum_deposit"] == b["minimum_deposit"]
        && a["allow_early_proposal_execution"] == b["allow_early_proposal_execution"]
}

/// one change of settings; None keeps the value
#[derive(Clone, Debug, Default, PartialEq)]
struct Up {
    q: Option<&'static str>,
    t: Option<&'static str>,
    v: Option<Option<&'static str>>,
    d: Option<u64>,
    u: Option<(bool, u64)>, // (in seconds, n)
    m: Option<Option<u128>>,
    e: Option<bool>,
}
#[derive(Clone, Debug, PartialEq)]
struct Conf {
    q: String,
    t: String,
    v: Option<String>,
    d: u64,
    m: Option<u128>,
    e: bool,
    u: Value,
}
fn unlock(u: (bool, u64)) -> Value {
    if u.0 {
        json!({ "time": u.1 })
    } else {
        json!({ "height": u.1 })
    }
}
impl Up {
    fn action(&self) -> Value {
        let mut g = nc_gov();
        let ch = |v: Value| json!({ "change": v });
        if let Some(x) = self.q {
            g["quorum"] = ch(json!(x));
        }
        if let Some(x) = self.t {
            g["threshold"] = ch(json!(x));
        }
        if let Some(x) = self.v {
            g["veto_threshold"] = ch(json!(x));
        }
        if let Some(x) = self.d {
            g["voting_duration"] = ch(json!(x.to_string()));
        }
        if let Some(x) = self.u {
            g["unlocking_period"] = ch(unlock(x));
        }
        if let Some(x) = self.m {
            g["minimum_deposit"] = ch(json!(x.map(|x| x.to_string())));
        }
        if let Some(x) = self.e {
            g["allow_early_proposal_execution"] = ch(json!(x));
        }
        json!({ "update_gov_config": g })
    }
    /// (legal when proposed, result when executed on `c` if legal then)
    fn apply(&self, kind: Kind, c: &Conf) -> (bool, Option<Conf>) {
        let mut n = c.clone();
        if let Some(x) = self.q {
            n.q = x.into();
        }
        if let Some(x) = self.t {
            n.t = x.into();
        }
        if let Some(x) = self.v {
            n.v = x.map(|x| x.into());
        }
        if let Some(x) = self.d {
            n.d = x;
        }
        if let Some(x) = self.m {
            n.m = x;
        }
        if let Some(x) = self.e {
            n.e = x;
        }
        let legal = legal_frac(&n.q) && legal_frac(&n.t) && n.v.as_deref().map(legal_frac).unwrap_or(true) && n.d > 0 && !(kind == Kind::Multisig && n.m.is_some());
        let mut fits = true;
        if let Some(u) = self.u {
            fits = !u.0 || u.1 >= n.d;
            if kind != Kind::Multisig {
                n.u = unlock(u);
            }
        }
        (legal, if legal && fits { Some(n) } else { None })
    }
}
impl Conf {
    fn matches(&self, w: &mut World) -> Chk {
        let (g, _, u) = config(w);
        let want = json!({"quorum":self.q,"threshold":self.t,"veto_threshold":self.v,"vote_duration":self.d,"minimum_deposit":self.m.map(|x|x.to_string()),"allow_early_proposal_execution":self.e});
        ensure!(same_gov(&g, &want), "settings", "settings are {g}, expected {want}");
        ensure!(w.kind == Kind::Multisig || u == self.u, "unlocking", "unlocking period is {u}, expected {}", self.u);
        Ok(())
    }
}
fn start(kind: Kind) -> (World, Conf) {
    let mut cfg = Cfg::new(kind);
    cfg.gov = Gov { quorum: "0.4".into(), threshold: "0.5".into(), veto: Some("0.3".into()), duration: 100, min_deposit: None, early: true };
    cfg.unlocking = json!({"time":100});
    cfg.members = vec![("usera".into(), 3), ("userb".into(), 1)];
    cfg.council = Some(Council::new(&["userb", "userd"], "0.6", "0.7", Some(&["update_metadata"])));
    let mut w = World::new(&cfg);
    if kind != Kind::Multisig {
        w.stake("usera", 3).unwrap();
        w.stake("userb", 1).unwrap();
        w.c.advance(1, 5);
    }
    let c = Conf { q: "0.4".into(), t: "0.5".into(), v: Some("0.3".into()), d: 100, m: None, e: true, u: json!({"time":100}) };
    (w, c)
}

fn single(ctx: &mut Ctx) {
    let worlds: Vec<(World, Conf)> = KINDS.iter().map(|k| start(*k)).collect();
    let qs = [None, Some("0.75"), Some("0"), Some(OVER)];
    let ts = [None, Some("1"), Some("0"), Some(OVER)];
    let vs = [None, Some(None), Some(Some("0.9")), Some(Some("0")), Some(Some(OVER))];
    let ds = [None, Some(0), Some(50), Some(200)];
    let us = [None, Some((true, 49)), Some((true, 99)), Some((true, 100)), Some((true, 200)), Some((false, 3))];
    let ms = [None, Some(None), Some(Some(4))];
    let es = [None, Some(false)];
    let dims = [4, 4, 4, 5, 4, 6, 3, 2];
    let n: usize = dims.iter().product();
    let pick = |mut i: usize| {
        let mut o = [0; 8];
        for k in 0..8 {
            o[k] = i % dims[k];
            i /= dims[k];
        }
        (o[0], Up { q: qs[o[1]], t: ts[o[2]], v: vs[o[3]], d: ds[o[4]], u: us[o[5]], m: ms[o[6]], e: es[o[7]] })
    };
    ctx.grid(
        "one change of settings by proposal",
        n,
        |i| {
            let (k, u) = pick(i);
            json!({"kind":format!("{:?}",KINDS[k]),"change":u.action()})
        },
        |i| {
            let (k, u) = pick(i);
            let (mut w, c) = worlds[k].clone();
            let (legal, res) = u.apply(KINDS[k], &c);
            let r = w.enact("usera", vec![u.action()]);
            ensure!(r.is_ok() == legal, if legal { "change-refused" } else { "change-accepted" }, "proposing {}: {r:?}", u.action());
            let want = res.clone().unwrap_or(c);
            want.matches(&mut w)?;
            Ok(res.is_some())
        },
    );
}

#[derive(Clone)]
struct Run {
    id: u64,
    council: bool,
    poll: Value,
    end: u64,
    q: String,
    t: String,
    v: Option<String>,
    votes: BTreeMap<&'static str, (u8, u128)>,
    done: bool,
}
#[derive(Clone)]
struct S {
    w: World,
    c: Conf,
    council: Option<(String, String)>,
    runs: Vec<Run>,
    queued: Vec<(u64, Vec<usize>)>,
    name: String,
}
#[derive(Clone, Debug)]
enum A {
    Enact(Vec<usize>),
    Queue(usize),
    Fire(usize),
    Council(u8),
    Open(bool),
    Vote(usize, &'static str, u8),
    Finish(usize),
}
struct M {
    kind: Kind,
    pool: Vec<Up>,
    pairs: Vec<(usize, usize)>,
    queue: bool,
    label: &'static str,
}
const SEC: u64 = 1_000_000_000;
impl M {
    fn run(&self, s: &mut S, list: &[usize]) {
        // all or nothing
        let mut c = s.c.clone();
        for k in list {
            match self.pool[*k].apply(self.kind, &c).1 {
                Some(n) => c = n,
                None => return,
            }
        }
        s.c = c;
    }
    fn poll_of(w: &mut World, id: u64) -> Value {
        let p = w.poll(id);
        json!([p["quorum"], p["threshold"], p["veto_threshold"], p["ends_at"], p["started_at"]])
    }
    fn open(&self, s: &mut S, council: bool) -> Chk<bool> {
        let k = s.runs.len();
        let acts = vec![meta_change("name", json!(format!("n{k}")))];
        let r = if council { s.w.propose_council("userb", acts) } else if s.c.m.is_some() && self.kind == Kind::Denom { s.w.propose_deposit("usera", s.c.m.unwrap(), None, acts) } else { s.w.propose("usera", acts) };
        let Ok(id) = r else { return Ok(false) };
        let poll = M::poll_of(&mut s.w, id);
        let (q, t) = if council { s.council.clone().unwrap() } else { (s.c.q.clone(), s.c.t.clone()) };
        let end = s.w.c.nanos + s.c.d * SEC;
        ensure!(poll[0].as_str().map(dec) == Some(dec(&q)) && poll[1].as_str().map(dec) == Some(dec(&t)) && poll[2].as_str().map(dec) == s.c.v.as_deref().map(dec) && poll[3] == json!(end.to_string()),
            "new-poll", "new {} proposal runs under {poll}; settings are {:?} {:?}", if council { "council" } else { "general" }, s.c, s.council);
        s.runs.push(Run { id, council, poll, end, q, t, v: s.c.v.clone(), votes: BTreeMap::new(), done: false });
        Ok(true)
    }
    fn check(&self, s: &mut S) -> Chk {
        s.c.clone().matches(&mut s.w)?;
        let (g, cc, _) = config(&mut s.w);
        for k in ["quorum", "threshold"] {
            ensure!(legal_frac(g[k].as_str().unwrap()), "illegal", "{k} in force is {}", g[k]);
        }
        match &s.council {
            None => ensure!(cc.is_null(), "council-settings", "council settings are {cc}, expected none"),
            Some((q, t)) => ensure!(cc["quorum"] == json!(q) && cc["threshold"] == json!(t), "council-settings", "council settings are {cc}, expected {q} {t}"),
        }
        for r in s.runs.clone() {
            let p = M::poll_of(&mut s.w, r.id);
            ensure!(p == r.poll, "poll-changed", "proposal {} ran under {} and now under {p}", r.id, r.poll);
            let q = s.w.proposal(r.id);
            ensure!(q["proposal"]["expires"] == json!({"at_time":r.end.to_string()}), "poll-changed", "proposal {} now ends {}", r.id, q["proposal"]["expires"]);
        }
        Ok(())
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("{}-{:?}", self.label, self.kind)
    }
    fn init(&self) -> Vec<S> {
        let (w, c) = start(self.kind);
        let mut s = S { w, c, council: Some(("0.6".into(), "0.7".into())), runs: vec![], queued: vec![], name: "dao".into() };
        if !self.queue {
            self.open(&mut s, false).unwrap();
            self.open(&mut s, true).unwrap();
            s.w.c.advance(1, 5);
        }
        vec![s]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        if self.queue {
            for i in 0..self.pool.len() {
                if s.queued.len() < 3 {
                    v.push(A::Queue(i));
                }
            }
            for i in 0..s.queued.len() {
                v.push(A::Fire(i));
            }
            return v;
        }
        for i in 0..self.pool.len() {
            v.push(A::Enact(vec![i]));
        }
        for (a, b) in &self.pairs {
            v.push(A::Enact(vec![*a, *b]));
        }
        for k in 0..2 {
            v.push(A::Council(k));
        }
        if s.runs.len() < 4 {
            v.push(A::Open(false));
            v.push(A::Open(true));
        }
        for (i, r) in s.runs.iter().enumerate() {
            if !r.done {
                v.push(A::Finish(i));
                if r.council {
                    v.push(A::Vote(i, "userd", 0));
                } else {
                    v.push(A::Vote(i, "usera", 0));
                    v.push(A::Vote(i, "userb", 0));
                    v.push(A::Vote(i, "userb", 3));
                }
            }
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let now = s.w.c.nanos;
        match a {
            A::Enact(l) => {
                let mut c = s.c.clone();
                c.m = None;
                if s.c.m.is_some() {
                    return Ok(Step::Skip);
                }
                // each action is validated on its own against the settings when proposed
                let legal = l.iter().all(|k| self.pool[*k].apply(self.kind, &s.c).0);
                let r = s.w.enact_by(&["usera", "userb"], l.iter().map(|k| self.pool[*k].action()).collect());
                ensure!(r.is_ok() == legal, if legal { "change-refused" } else { "change-accepted" }, "{a:?}: {r:?}");
                if !legal {
                    return Ok(Step::Rejected);
                }
                self.run(s, l);
            }
            A::Queue(k) => {
                let legal = self.pool[*k].apply(self.kind, &s.c).0;
                let r = s.w.propose("usera", vec![self.pool[*k].action()]);
                if s.c.m.is_some() {
                    return Ok(Step::Skip);
                }
                ensure!(r.is_ok() == legal, if legal { "change-refused" } else { "change-accepted" }, "{a:?}: {r:?}");
                let Ok(id) = r else { return Ok(Step::Rejected) };
                s.w.vote("usera", id, "yes").unwrap();
                s.w.vote("userb", id, "yes").unwrap();
                s.queued.push((id, vec![*k]));
            }
            A::Fire(i) => {
                let (id, l) = s.queued.remove(*i);
                s.w.c.advance(100, 1000);
                let r = s.w.execute(MALLORY, id);
                ensure!(r.is_ok(), "execution", "proposal {id} cannot be executed: {r:?}");
                self.run(s, &l);
            }
            A::Council(k) => {
                if s.c.m.is_some() {
                    return Ok(Step::Skip);
                }
                let c = if *k == 0 { None } else { Some(Council::new(&["userb", "userd"], "1", "1", Some(&["update_metadata"]))) };
                if s.w.enact_by(&["usera", "userb"], vec![council_action(c.map(|c| c.json()))]).is_err() {
                    return viol("council-change-refused", "changing the council was refused");
                }
                s.council = if *k == 0 { None } else { Some(("1".into(), "1".into())) };
            }
            A::Open(c) => {
                if (*c && s.council.is_none()) || (s.c.m.is_some() && self.kind != Kind::Denom && !*c) {
                    return Ok(Step::Skip);
                }
                let ok = self.open(s, *c)?;
                ensure!(ok, "open-refused", "{a:?} refused");
            }
            A::Vote(i, u, o) => {
                let r = s.runs[*i].clone();
                let x = if r.council { s.w.council_vote(u, r.id, OUTCOMES[*o as usize]) } else { s.w.vote(u, r.id, OUTCOMES[*o as usize]) };
                let may = now < r.end && (!r.council || s.council.is_some());
                ensure!(x.is_ok() == may, "voting", "{a:?} {}s before the end the proposal was created with: {:?}", (r.end as i128 - now as i128) / SEC as i128, x.map(|_| "accepted"));
                if !may {
                    return Ok(Step::Rejected);
                }
                let wt = if r.council { 1 } else if *u == "usera" { 3 } else { 1 };
                s.runs[*i].votes.insert(u, (*o, wt));
            }
            A::Finish(i) => {
                let r = s.runs[*i].clone();
                if now < r.end {
                    let left = (r.end - now) / SEC;
                    s.w.c.advance(left.div_ceil(5), left);
                }
                let max = if r.council { if s.council.is_some() { 2 } else { return Ok(Step::Skip) } } else { 4 };
                let mut t = [0; 4];
                for (o, a) in r.votes.values() {
                    t[*o as usize] += a;
                }
                let (o, _, _) = rule(t, max, dec(&r.q), dec(&r.t), r.v.as_deref().map(dec));
                let x = s.w.execute(MALLORY, r.id);
                ensure!(x.is_ok(), "execution", "proposal {} cannot be executed after its end: {x:?}", r.id);
                s.runs[*i].done = true;
                if o["passed"].is_object() {
                    s.name = format!("n{i}");
                }
                let e = s.w.d.enterprise.clone();
                let n = s.w.c.q(&e, &json!({"dao_info":{}})).unwrap()["metadata"]["name"].as_str().unwrap().to_string();
                ensure!(n == s.name, "outcome", "after proposal {} (created under quorum {}, threshold {}, veto {:?}, votes {:?}) the name is {n}, expected {}", r.id, r.q, r.t, r.v, r.votes, s.name);
            }
        }
        self.check(s)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn std::hash::Hasher) {
        h_chain(&s.w.c, h);
    }
}

pub fn c09(ctx: &mut Ctx) {
    at_creation(ctx);
    single(ctx);
    for kind in KINDS {
        let pool = vec![
            Up { q: Some("1"), ..Default::default() },
            Up { q: Some("0.1"), t: Some("0.9"), ..Default::default() },
            Up { v: Some(None), d: Some(300), ..Default::default() },
            Up { v: Some(Some("1")), d: Some(10), ..Default::default() },
            Up { u: Some((true, 250)), ..Default::default() },
            Up { e: Some(false), ..Default::default() },
            Up { u: Some((false, 1)), ..Default::default() },
            Up { t: Some("0"), ..Default::default() },
        ];
        let m = M { kind, pool: pool.clone(), pairs: vec![(4, 2), (2, 4), (0, 1), (1, 6)], queue: false, label: "running proposals" };
        ctx.explore(&m, ctx.q(3, 4));
        let mut p2 = pool;
        if kind != Kind::Multisig {
            p2.push(Up { m: Some(Some(1)), ..Default::default() });
        }
        ctx.explore(&M { kind, pool: p2, pairs: vec![], queue: true, label: "queued changes" }, ctx.q(5, 6));
    }
}

//! C22: DAO upgrades. C23: the version registry.
use super::create::meta_change;
use super::effects::{diff, snapshot};
use crate::ensure;
use crate::explore::*;
use crate::sim::{code, Chain};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::Hasher;

type V = (u64, u64, u64);
fn vj(v: V) -> Value {
    json!({"major":v.0,"minor":v.1,"patch":v.2})
}

// ------------------------------------------------------------------ C22

/// versions that may be registered besides 1.0.0
const VS: [V; 7] = [(1, 0, 9), (1, 0, 10), (1, 2, 0), (1, 2, 1), (1, 3, 0), (1, 10, 0), (2, 0, 0)];
const UNKNOWN: [V; 3] = [(1, 2, 2), (3, 0, 0), (0, 9, 9)];
/// the release whose component code this one installs
const REL: V = (1, 2, 1);

fn add(w: &mut World, v: V, base: u64) {
    let a = w.versioning.clone();
    w.ex(ADMIN, &a, json!({"add_version":{"version":version_info(v, base)}}), &[]).unwrap();
}

/// A DAO at version `cur` with some state of its own.
fn dao(kind: Kind, cur: V, base: u64) -> World {
    let mut w = World::base(&[]);
    w.c.inst(ADMIN, code::SINK, &json!({}), None).unwrap();
    if cur != (1, 0, 0) {
        add(&mut w, cur, base);
    }
    let mut cfg = Cfg::new(kind);
    cfg.gov.early = true;
    cfg.assets = Some(vec![native("uluna")]);
    cfg.council = Some(Council::new(&["usera", "userb"], "0.3", "0.5", None));
    cfg.min_weight = Some(1);
    w.kind = kind;
    w.d = w.create(&cfg).unwrap();
    if kind != Kind::Multisig {
        w.stake("usera", 2).unwrap();
        w.stake("userb", 1).unwrap();
        w.unstake("userb", 1).unwrap();
    }
    let d = w.d.distributor.clone();
    w.ex(ADMIN, &d, json!({"distribute_native":{}}), &[crate::sim::coin(12, "uluna")]).unwrap();
    w.c.advance(1, 5);
    w
}

struct Case {
    /// versions registered after the DAO was created, with code bases, in registration order
    reg: Vec<(V, u64)>,
    target: V,
    msgs: Vec<(V, &'static str)>,
}

/// runs one upgrade and judges it
fn upgrade(w0: &World, cur: (V, u64), c: &Case, via_proposal: bool) -> Chk<bool> {
    let mut w = w0.clone();
    let mut all: BTreeMap<V, u64> = [((1, 0, 0), 1), cur].into_iter().collect();
    for (v, b) in &c.reg {
        add(&mut w, *v, *b);
        all.insert(*v, *b);
    }
    let e = w.d.enterprise.clone();
    let g = w.d.controller.clone();
    let before = snapshot(&mut w);
    ensure!(before["version"] == vj(cur.0), "created-version", "a new DAO reports {}, registry's latest was {:?}", before["version"], cur.0);
    let codes = |w: &World| -> Vec<(String, u64)> { w.c.contracts.iter().map(|(a, c)| (a.clone(), c.code_id)).collect() };
    let codes0 = codes(&w);
    let log0 = w.c.migrations.len();
    let digest = w.c.digest();
    let msg = json!({"new_version":vj(c.target),"migrate_msgs":c.msgs.iter().map(|(v,m)|{
        let b: cosmwasm_std::Binary = m.as_bytes().into();
        json!({"version":vj(*v),"migrate_msg":b})}).collect::<Vec<_>>()});
    let walk: Vec<(V, u64)> = all.iter().filter(|(v, _)| **v > cur.0 && **v <= c.target).map(|(v, b)| (*v, *b)).collect();
    let dup = c.msgs.iter().enumerate().any(|(i, (v, _))| c.msgs[..i].iter().any(|(x, _)| x == v));
    let bad = walk.iter().any(|(v, _)| c.msgs.iter().any(|(x, m)| x == v && m.contains("bad")));
    let legal = c.target > cur.0 && all.contains_key(&c.target) && !dup;
    let must = legal && !bad && all.contains_key(&REL);
    if via_proposal {
        // an early-executing DAO; an upgrade that fails leaves everything else as it was
        let r = w.enact("usera", vec![json!({"upgrade_dao":msg})]);
        if c.target <= cur.0 {
            ensure!(r.is_err(), "downgrade-proposed", "upgrade from {:?} to {:?} could be proposed", cur.0, c.target);
            return Ok(true);
        }
        if r.is_err() {
            return viol("not-executed", format!("{r:?}"));
        }
        let v = w.c.q(&e, &json!({"dao_info":{}})).unwrap()["dao_version"].clone();
        ensure!(v == if must { vj(c.target) } else { vj(cur.0) }, "version-after-proposal", "{v}, target {:?}, registered {all:?}", c.target);
    } else {
        let r = w.ex(&g, &e, json!({"upgrade_dao":msg}), &[]);
        ensure!(!r.is_ok() || legal, "illegal-upgrade", "upgrade {:?} -> {:?} accepted, registered {all:?}, messages {:?}", cur.0, c.target, c.msgs);
        ensure!(r.is_ok() || !must, "upgrade-refused", "upgrade {:?} -> {:?} refused: {r:?}, registered {all:?}", cur.0, c.target);
        if r.is_err() {
            ensure!(w.c.digest() == digest, "partial", "failed upgrade changed something");
        }
    }
    let done = w.c.q(&e, &json!({"dao_info":{}})).unwrap()["dao_version"] == vj(c.target) && must;
    if !done {
        ensure!(codes(&w) == codes0 && w.c.migrations.len() == log0, "partial", "code ids changed by a failed upgrade");
        return Ok(true);
    }
    // the enterprise contract went through exactly the walk
    let steps: Vec<(u64, String)> = w.c.migrations[log0..].iter().filter(|x| x.0 == e).map(|x| (x.1, x.2.clone())).collect();
    let exp: Vec<(u64, String)> = walk
        .iter()
        .map(|(v, b)| (b * 100 + code::ENTERPRISE, c.msgs.iter().find(|(x, _)| x == v).map(|x| x.1).unwrap_or("{}").to_string()))
        .collect();
    ensure!(steps == exp, "walk", "upgrade {:?} -> {:?} over {all:?}: enterprise went through {steps:?}, expected {exp:?}", cur.0, c.target);
    let rb = all[&REL];
    let mem = match w.kind {
        Kind::Denom => code::DENOM_MEMBERSHIP,
        Kind::Token => code::TOKEN_MEMBERSHIP,
        Kind::Nft => code::NFT_MEMBERSHIP,
        Kind::Multisig => code::MULTISIG_MEMBERSHIP,
    };
    let d = w.d.clone();
    let want: BTreeMap<String, u64> = [
        (e.clone(), all[&c.target] * 100 + code::ENTERPRISE),
        (d.outposts.clone(), rb * 100 + code::OUTPOSTS),
        (d.distributor.clone(), rb * 100 + code::DISTRIBUTOR),
        (d.membership.clone(), rb * 100 + mem),
        (d.council.clone(), rb * 100 + code::MULTISIG_MEMBERSHIP),
    ]
    .into_iter()
    .collect();
    for (a, id) in codes(&w) {
        let old = codes0.iter().find(|x| x.0 == a).map(|x| x.1);
        let exp = want.get(&a).copied().or(old);
        ensure!(Some(id) == exp, "code-after", "{a} runs code {id}, expected {exp:?}");
    }
    // nothing but the version changed
    let after = snapshot(&mut w);
    let mut exp = before.clone();
    exp["version"] = vj(c.target);
    if let Some(x) = diff("", &after, &exp) {
        return viol("state-changed", format!("upgrade changed {x}"));
    }
    // and the DAO can go on: a second upgrade is refused, governance still works
    ensure!(w.ex(&g, &e, json!({"upgrade_dao":{"new_version":vj(c.target),"migrate_msgs":[]}}), &[]).is_err(), "repeat", "upgrade repeated");
    let r = w.enact("usera", vec![meta_change("name", json!("after"))]);
    ensure!(r.is_ok(), "stuck", "governance after the upgrade: {r:?}");
    ensure!(w.c.q(&e, &json!({"dao_info":{}})).unwrap()["metadata"]["name"] == json!("after"), "stuck", "proposal without effect after upgrade");
    Ok(true)
}

pub fn c22(ctx: &mut Ctx) {
    // all registries over VS, all current versions and targets
    let curs: Vec<V> = [(1, 0, 0)].into_iter().chain(VS).collect();
    let targets: Vec<V> = curs.iter().cloned().chain(UNKNOWN).collect();
    let kinds: Vec<Kind> = KINDS.to_vec();
    let worlds: BTreeMap<(usize, V), World> =
        kinds.iter().enumerate().flat_map(|(i, k)| curs.iter().map(move |v| ((i, *v), dao(*k, *v, 7)))).collect();
    let (nc, nt) = (curs.len(), targets.len());
    let n = nc * nt * 128;
    let dec = |i: usize| (curs[i % nc], targets[i / nc % nt], i / nc / nt % 128);
    ctx.grid(
        "registries",
        n,
        |i| json!(format!("(current, target, registered later) = {:?}", dec(i))),
        |i| {
            let (cur, target, mask) = dec(i);
            let mut reg: Vec<(V, u64)> = (0..7).filter(|k| mask >> k & 1 == 1 && VS[*k] != cur).map(|k| (VS[k], 10 + k as u64)).collect();
            if mask % 3 == 1 {
                reg.reverse();
            }
            let k = (mask + i) % 4;
            let base = if cur == (1, 0, 0) { 1 } else { 7 };
            upgrade(&worlds[&(k, cur)], (cur, base), &Case { reg, target, msgs: vec![] }, i % 5 == 4)
        },
    );
    // migrate messages: present for any subset, duplicated, failing, for versions outside the walk
    let mvs: [V; 5] = [(1, 0, 0), (1, 0, 10), (1, 2, 1), (1, 3, 0), (2, 0, 0)];
    let texts = ["{}", "{ }", "{\"bad\":1}"];
    // per version: no message, one of the texts, or two messages
    let opts = 5usize;
    ctx.grid(
        "messages",
        opts.pow(5) * 2 * 4,
        |i| json!(format!("message choice {}, target {}, {:?}", i / 8, i % 2, kinds[i / 2 % 4])),
        |i| {
            let mut msgs: Vec<(V, &'static str)> = vec![];
            let mut m = i / 8;
            for v in mvs {
                match m % opts {
                    0 => {}
                    4 => {
                        msgs.push((v, "{}"));
                        msgs.push((v, "{ }"));
                    }
                    x => msgs.push((v, texts[x - 1])),
                }
                m /= opts;
            }
            let target = if i % 2 == 0 { (2, 0, 0) } else { (1, 3, 0) };
            let reg = mvs[1..].iter().enumerate().map(|(k, v)| (*v, 10 + k as u64)).collect();
            upgrade(&worlds[&(i / 2 % 4, (1, 0, 0))], ((1, 0, 0), 1), &Case { reg, target, msgs }, false)
        },
    );
    // long histories: more versions than a page of the registry
    let lens: Vec<usize> = ctx.q(vec![1, 2, 9, 10, 11, 49, 50, 51, 52, 99, 100, 101, 102, 151], (1..=160).collect());
    ctx.grid(
        "long",
        lens.len() * 6,
        |i| json!(format!("{} versions, target variant {}", lens[i / 6], i % 6)),
        |i| {
            let n = lens[i / 6];
            // 1.2.1 first, then a mix of patch, minor and major steps
            let mut reg: Vec<(V, u64)> = vec![(REL, 9)];
            for k in 1..n as u64 {
                let v = match k % 3 {
                    0 => (1, 2 + k, 0),
                    1 => (1, 2 + k, 7),
                    _ => (2 + k / 50, k, k),
                };
                reg.push((v, 9 + k));
            }
            let mut vs: Vec<V> = reg.iter().map(|x| x.0).collect();
            vs.sort();
            let target = match i % 6 {
                0 => vs[n - 1],
                1 => vs[0],
                2 => vs[n / 2],
                3 => vs[(n - 1).min(50)],
                4 => vs[(n - 1).min(49)],
                _ => (50, 0, 0),
            };
            let msgs = vec![(vs[n - 1], "{ }"), (vs[n / 2], "{  }")];
            let msgs = if msgs[0].0 == msgs[1].0 { vec![msgs[0]] } else { msgs };
            upgrade(&worlds[&(i % 4, (1, 0, 0))], ((1, 0, 0), 1), &Case { reg, target, msgs }, false)
        },
    );
}

// ------------------------------------------------------------------ C23

const FIELDS: [&str; 11] = [
    "attestation_code_id",
    "enterprise_code_id",
    "enterprise_governance_code_id",
    "enterprise_governance_controller_code_id",
    "enterprise_outposts_code_id",
    "enterprise_treasury_code_id",
    "funds_distributor_code_id",
    "token_staking_membership_code_id",
    "denom_staking_membership_code_id",
    "nft_staking_membership_code_id",
    "multisig_membership_code_id",
];

#[derive(Clone)]
struct S {
    c: Chain,
    a: String,
    admin: String,
    vs: BTreeMap<V, Value>,
    n: u64,
}
#[derive(Clone, Debug)]
enum A {
    Add(V, &'static str),
    /// edit of one group of fields
    Edit(V, usize, &'static str),
    Admin(&'static str, &'static str),
}
struct M {
    versions: Vec<V>,
}
impl M {
    fn check(&self, s: &mut S) -> Chk {
        let a = s.a.clone();
        let q = s.c.q(&a, &json!({"admin":{}})).unwrap();
        ensure!(q["admin"] == json!(s.admin), "admin", "{q} instead of {}", s.admin);
        let mut probe: Vec<V> = self.versions.clone();
        probe.extend([(0, 0, 0), (1, 1, 1), (99, 0, 0)]);
        for v in probe {
            let q = s.c.q(&a, &json!({"version":{"version":vj(v)}}));
            match (s.vs.get(&v), q) {
                (None, Ok(x)) => return viol("phantom-version", format!("{v:?} is reported as {x} but was never added")),
                (None, Err(_)) => {}
                (Some(e), Ok(x)) => ensure!(x["version"] == *e, "version-content", "{v:?}: {} instead of {e}", x["version"]),
                (Some(_), Err(e)) => return viol("version-lost", format!("{v:?}: {e}")),
            }
        }
        for sa in [None, Some((1, 9, 0)), Some((1, 1, 1)), Some((0, 0, 0)), Some((2, 0, 0))] {
            let q = s.c.q(&a, &json!({"versions":{"start_after":sa.map(vj),"limit":50}})).unwrap();
            let e: Vec<&Value> = s.vs.iter().filter(|(v, _)| sa.map_or(true, |x| **v > x)).map(|x| x.1).collect();
            ensure!(q["versions"] == json!(e), "order", "versions after {sa:?}: {q}");
        }
        let q = s.c.q(&a, &json!({"latest_version":{}}));
        match (s.vs.last_key_value(), q) {
            (None, Ok(x)) => viol("latest", format!("empty registry reports {x}")),
            (None, Err(_)) => Ok(()),
            (Some((_, e)), Ok(x)) => {
                ensure!(x["version"] == *e, "latest", "latest is {x}, expected {e}");
                Ok(())
            }
            (Some(_), Err(e)) => viol("latest", e),
        }
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("registry-{}", self.versions.len())
    }
    fn init(&self) -> Vec<S> {
        let mut c = Chain::new();
        let a = c.inst(ADMIN, code::VERSIONING, &json!({ "admin": "admina" }), None).unwrap();
        let mut s = S { c, a, admin: "admina".into(), vs: BTreeMap::new(), n: 0 };
        self.check(&mut s).unwrap();
        vec![s]
    }
    fn actions(&self, _: &S) -> Vec<A> {
        let mut l = vec![];
        for v in &self.versions {
            l.push(A::Add(*v, "admina"));
            l.push(A::Edit(*v, 0, "admina"));
        }
        for v in &self.versions[..2] {
            for k in 1..4 {
                l.push(A::Edit(*v, k, "admina"));
            }
            for who in ["adminb", MALLORY, ADMIN] {
                l.push(A::Add(*v, who));
                l.push(A::Edit(*v, 1, who));
            }
        }
        for who in ["admina", "adminb", MALLORY] {
            for to in ["admina", "adminb"] {
                l.push(A::Admin(who, to));
            }
        }
        l
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let d = s.c.digest();
        let addr = s.a.clone();
        let base = 3 + s.vs.len() as u64 + s.n;
        let (r, exp) = match a {
            A::Add(v, who) => {
                let mut info = version_info(*v, base);
                info["changelog"] = json!([format!("change {base}"), "b"]);
                let exp = *who == s.admin && !s.vs.contains_key(v);
                let r = s.c.exec(who, &addr, &json!({"add_version":{"version":info}}), &[]);
                if exp {
                    s.vs.insert(*v, info);
                }
                (r, exp)
            }
            A::Edit(v, k, who) => {
                let mut m = json!({"version":vj(*v)});
                match k {
                    0 => {}
                    1 => m["changelog"] = json!(["edited"]),
                    2 => {
                        for f in FIELDS.iter().step_by(2) {
                            m[*f] = json!(9000 + s.n);
                        }
                    }
                    _ => {
                        for f in FIELDS.iter().skip(1).step_by(2) {
                            m[*f] = json!(8000 + s.n);
                        }
                    }
                }
                let exp = *who == s.admin && s.vs.contains_key(v);
                let r = s.c.exec(who, &addr, &json!({"edit_version":m}), &[]);
                if exp {
                    s.n += 1;
                    let e = s.vs.get_mut(v).unwrap();
                    for (f, x) in m.as_object().unwrap() {
                        e[f] = x.clone();
                    }
                }
                (r, exp)
            }
            A::Admin(who, to) => {
                let exp = *who == s.admin;
                let r = s.c.exec(who, &addr, &json!({"update_admin":{"new_admin":to}}), &[]);
                if exp {
                    s.admin = to.to_string();
                }
                (r, exp)
            }
        };
        ensure!(r.is_ok() == exp, if exp { "refused" } else { "accepted" }, "{a:?} with admin {} and versions {:?}: {r:?}", s.admin, s.vs.keys());
        if !exp {
            ensure!(s.c.digest() == d, "effect", "refused {a:?} changed state");
            return Ok(Step::Rejected);
        }
        self.check(s)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.c, h);
        h_into(&s.n, h);
    }
}

pub fn c23(ctx: &mut Ctx) {
    ctx.explore(&M { versions: vec![(1, 10, 0), (1, 9, 0), (2, 0, 0), (1, 9, 10), (1, 9, 9)] }, ctx.q(4, 5));
    // every order of registration of seven versions that differ in every component
    let vs: [V; 7] = [(0, 1, 0), (1, 0, 0), (1, 0, 256), (1, 9, 0), (1, 10, 0), (10, 0, 0), (9, 255, 1)];
    let n = (1..=7).product::<usize>();
    ctx.grid(
        "registration-orders",
        n,
        |i| json!(format!("{:?}", perm(&vs, i))),
        |i| {
            let m = M { versions: vs.to_vec() };
            let mut s = m.init().pop().unwrap();
            for v in perm(&vs, i) {
                m.step(&mut s, &A::Add(v, "admina"))?;
            }
            Ok(true)
        },
    );
    // every set of edited fields
    ctx.grid(
        "edited-fields",
        1 << 12,
        |i| json!(format!("field set {i:#b}")),
        |i| {
            let m = M { versions: vec![(1, 0, 0), (1, 1, 0), (2, 0, 0)] };
            let mut s = m.init().pop().unwrap();
            for v in &m.versions {
                m.step(&mut s, &A::Add(*v, "admina"))?;
            }
            let mut msg = json!({"version":vj((1, 1, 0))});
            for (k, f) in FIELDS.iter().enumerate() {
                if i >> k & 1 == 1 {
                    msg[*f] = json!(7000 + k);
                }
            }
            if i >> 11 & 1 == 1 {
                msg["changelog"] = json!([]);
            }
            let a = s.a.clone();
            s.c.exec("admina", &a, &json!({"edit_version":msg}), &[]).unwrap();
            let e = s.vs.get_mut(&(1, 1, 0)).unwrap();
            for (f, x) in msg.as_object().unwrap() {
                e[f] = x.clone();
            }
            m.check(&mut s)?;
            Ok(true)
        },
    );
}
fn perm(vs: &[V; 7], mut i: usize) -> Vec<V> {
    let mut l = vs.to_vec();
    let mut o = vec![];
    for k in (1..=7).rev() {
        o.push(l.remove(i % k));
        i /= k;
    }
    o
}

//! C08: the council does only what it is allowed to, by its own votes.
use super::create::*;
use super::poll::{dec, rule};
use crate::ensure;
use crate::explore::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const TYPES: [&str; 14] = [
    "update_metadata", "update_asset_whitelist", "update_nft_whitelist", "upgrade_dao", "deploy_cross_chain_treasury",
    "update_gov_config", "update_council", "request_funding_from_dao", "execute_msgs", "execute_treasury_msgs",
    "execute_enterprise_msgs", "modify_multisig_membership", "distribute_funds", "update_minimum_weight_for_rewards",
];
/// the first five may be delegated to a council
const SAFE: usize = 5;

pub fn action(t: usize) -> Value {
    match TYPES[t] {
        "update_metadata" => meta_change("name", json!("x")),
        "update_asset_whitelist" => assets_action(vec![native("uluna")], vec![], Value::Null),
        "update_nft_whitelist" => nfts_action(&["somenft"], &[], Value::Null),
        "upgrade_dao" => upgrade_action((2, 0, 0)),
        "deploy_cross_chain_treasury" => json!({"deploy_cross_chain_treasury":{"cross_chain_msg_spec":spec("juno-1"),"asset_whitelist":null,
            "nft_whitelist":null,"ics_proxy_code_id":1,"enterprise_treasury_code_id":2,"chain_global_proxy":"proxy"}}),
        "update_gov_config" => gov_change("quorum", json!("0.9")),
        "update_council" => council_action(None),
        "request_funding_from_dao" => act_pay("userd", "uluna", 1),
        "execute_msgs" => msgs_action("execute_msgs", &[bank_msg("userd", "uluna", 1)]),
        "execute_treasury_msgs" => msgs_action("execute_treasury_msgs", &[bank_msg("userd", "uluna", 1)]),
        "execute_enterprise_msgs" => msgs_action("execute_enterprise_msgs", &[bank_msg("userd", "uluna", 1)]),
        "modify_multisig_membership" => members_action(&[("userd", 5)]),
        "distribute_funds" => distribute_action(vec![asset(native("uluna"), 1)]),
        _ => json!({"update_minimum_weight_for_rewards":{"minimum_weight_for_rewards":"5"}}),
    }
}

fn lists() -> Vec<Option<Vec<usize>>> {
    let mut v = vec![None, Some(vec![])];
    for i in 0..14 {
        v.push(Some(vec![i]));
        for j in 0..14 {
            v.push(Some(vec![i, j]));
        }
        // behind all safe ones
        v.push(Some((0..SAFE).chain([i]).collect()));
        v.push(Some([i].into_iter().chain(0..SAFE).collect()));
    }
    v
}
fn names(l: &Option<Vec<usize>>) -> Option<Vec<String>> {
    l.as_ref().map(|l| l.iter().map(|i| TYPES[*i].to_string()).collect())
}

fn allowed_types(ctx: &mut Ctx) {
    let ls = lists();
    let base = World::base(&[]);
    let daos: Vec<World> = KINDS
        .iter()
        .map(|k| {
            let mut cfg = Cfg::new(*k);
            cfg.gov.early = true;
            let mut w = World::new(&cfg);
            if *k != Kind::Multisig {
                w.stake("usera", 3).unwrap();
            }
            w
        })
        .collect();
    let n = ls.len() * KINDS.len() * 2;
    ctx.grid(
        "allowed council action types, at creation and by proposal",
        n,
        |i| json!({"list":names(&ls[i / 8]),"kind":format!("{:?}",KINDS[i/2%4]),"at":if i%2==0 {"creation"} else {"proposal"}}),
        |i| {
            let l = &ls[i / 8];
            let kind = KINDS[i / 2 % 4];
            let ok = l.as_ref().map(|l| l.iter().all(|x| *x < SAFE)).unwrap_or(true);
            let c = Council { members: vec!["usera".into(), "userb".into()], quorum: "0.4".into(), threshold: "0.6".into(), allowed: names(l) };
            let want = names(l).unwrap_or(vec!["upgrade_dao".into()]);
            let mut w;
            let r;
            if i % 2 == 0 {
                w = base.clone();
                w.kind = kind;
                let mut cfg = Cfg::new(kind);
                cfg.council = Some(c);
                let d = w.create(&cfg);
                r = d.is_ok();
                if let Ok(d) = d {
                    w.d = d;
                }
            } else {
                w = daos[i / 2 % 4].clone();
                r = w.enact("usera", vec![council_action(Some(c.json()))]).is_ok();
            }
            ensure!(r == ok, if ok { "list-refused" } else { "list-accepted" }, "council with allowed types {:?}: accepted = {r}", names(l));
            if ok {
                let g = w.d.controller.clone();
                let q = w.c.q(&g, &json!({"gov_config":{}})).unwrap();
                ensure!(q["council_gov_config"]["allowed_proposal_action_types"] == json!(want), "list-stored", "allowed types stored as {}, expected {want:?}", q["council_gov_config"]);
                ensure!(q["council_gov_config"]["quorum"] == json!("0.4") && q["council_gov_config"]["threshold"] == json!("0.6"), "list-stored", "council settings stored as {}", q["council_gov_config"]);
                let cm = w.d.council.clone();
                ensure!(w.weight_of(&cm, "usera") == 1 && w.weight_of(&cm, "userb") == 1 && w.total_at(&cm, json!({"never":{}})) == 2, "members", "council membership not as set");
            }
            Ok(true)
        },
    );
}

fn creation(ctx: &mut Ctx) {
    // allowed lists: default and all subsets of the safe types; action lists: singles and pairs
    let mut subsets: Vec<Option<Vec<usize>>> = vec![None];
    for m in 0..1usize << SAFE {
        subsets.push(Some((0..SAFE).filter(|b| m >> b & 1 == 1).collect()));
    }
    let worlds: Vec<Vec<World>> = [Kind::Multisig, Kind::Denom]
        .iter()
        .map(|k| {
            subsets
                .iter()
                .map(|l| {
                    let mut cfg = Cfg::new(*k);
                    let names: Option<Vec<String>> = names(l);
                    cfg.council = Some(Council { members: vec!["userb".into(), "userd".into()], quorum: "0.4".into(), threshold: "0.6".into(), allowed: names });
                    let mut w = World::new(&cfg);
                    if *k == Kind::Denom {
                        w.stake("usera", 2).unwrap();
                        w.stake("userb", 1).unwrap();
                    }
                    w
                })
                .collect()
        })
        .collect();
    let mut acts: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..14 {
        acts.push(vec![i]);
        for j in 0..14 {
            acts.push(vec![i, j]);
        }
    }
    // usera: general member, userb: both, userd: council only
    let who = ["usera", "userb", "userd", MALLORY];
    let n = worlds.len() * subsets.len() * acts.len() * who.len();
    let pick = |i: usize| {
        let u = who[i % 4];
        let a = &acts[i / 4 % acts.len()];
        let l = i / 4 / acts.len() % subsets.len();
        (i / 4 / acts.len() / subsets.len(), l, a, u)
    };
    ctx.grid(
        "council proposals by allowed types, actions and creator",
        n,
        |i| {
            let (k, l, a, u) = pick(i);
            json!({"kind":k,"allowed":names(&subsets[l]),"actions":a.iter().map(|x| TYPES[*x]).collect::<Vec<_>>(),"who":u})
        },
        |i| {
            let (k, l, a, u) = pick(i);
            let mut w = worlds[k][l].clone();
            let allowed = subsets[l].clone().unwrap_or(vec![3]);
            let ok = (u == "userb" || u == "userd") && a.iter().all(|x| allowed.contains(x));
            let p = proposal(a.iter().map(|x| action(*x)).collect());
            let g = w.d.controller.clone();
            let r = w.ex(u, &g, json!({ "create_council_proposal": p }), &[]);
            ensure!(r.is_ok() == ok, if ok { "council-creation-refused" } else { "council-creation-accepted" },
                "council proposal with {:?} by {u}, allowed {allowed:?}: {:?}", a.iter().map(|x| TYPES[*x]).collect::<Vec<_>>(), r.as_ref().map(|_| "accepted"));
            if let Ok(r) = r {
                check_stored(&mut w, pid(&r).unwrap(), u, &p, "council")?;
            }
            Ok(ok)
        },
    );
}

// ---- votes ----
#[derive(Clone)]
struct P {
    id: u64,
    council: bool,
    end: u64,
    votes: BTreeMap<&'static str, (u8, u128)>,
    executed: bool,
    quorum: &'static str,
    threshold: &'static str,
}
#[derive(Clone)]
struct S {
    w: World,
    council: Option<BTreeSet<&'static str>>,
    hist: Vec<(u64, u128)>,
    weights: BTreeMap<&'static str, u128>,
    ps: Vec<P>,
    name: String,
}
#[derive(Clone, Debug)]
enum A {
    CouncilVote(&'static str, usize, u8),
    GeneralVote(&'static str, usize, u8),
    Execute(usize),
    SetCouncil(u8),
    Reweigh(&'static str, u128),
    WaitEnd,
    NewCouncilProposal(&'static str),
}
struct M {
    kind: Kind,
    name: &'static str,
    quorum: &'static str,
    threshold: &'static str,
    veto: Option<&'static str>,
    voters: Vec<&'static str>,
    outcomes: Vec<u8>,
    cross: bool,
    changes: bool,
}
const SEC: u64 = 1_000_000_000;

impl M {
    fn expect(&self, s: &S, p: &P) -> (Value, bool, bool, u128) {
        let now = s.w.c.nanos;
        let max = if p.council {
            if now >= p.end {
                s.hist.iter().rev().find(|x| x.0 / SEC < p.end / SEC).map(|x| x.1).unwrap_or(0)
            } else {
                s.hist.last().unwrap().1
            }
        } else {
            s.weights.values().sum()
        };
        let mut t = [0; 4];
        for (o, a) in p.votes.values() {
            t[*o as usize] += a;
        }
        if max == 0 {
            return (Value::Null, false, false, 0);
        }
        let (a, b, c) = rule(t, max, dec(p.quorum), dec(p.threshold), self.veto.map(dec));
        (a, b, c, max)
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("{}-{:?}", self.name, self.kind)
    }
    fn init(&self) -> Vec<S> {
        let mut cfg = Cfg::new(self.kind);
        cfg.gov = Gov { quorum: "0.5".into(), threshold: "0.5".into(), veto: self.veto.map(|x| x.into()), duration: 1000, min_deposit: None, early: true };
        cfg.members = vec![("usera".into(), 7), ("userb".into(), 1)];
        cfg.council = Some(Council::new(&["usera", "userc", "userd"], self.quorum, self.threshold, Some(&["update_metadata"])));
        let mut w = World::new(&cfg);
        if self.kind != Kind::Multisig {
            w.stake("usera", 3).unwrap();
            w.stake("userb", 1).unwrap();
        }
        let hist = vec![(w.c.nanos, 3)];
        w.c.advance(2, 10);
        let mut ps = vec![];
        for council in [true, false] {
            let acts = vec![meta_change("name", json!(format!("name{}", ps.len())))];
            let id = if council { w.propose_council("userc", acts) } else { w.propose("usera", acts) }.unwrap();
            ps.push(P { id, council, end: w.c.nanos + 1000 * SEC, votes: BTreeMap::new(), executed: false,
                quorum: if council { self.quorum } else { "0.5" }, threshold: if council { self.threshold } else { "0.5" } });
        }
        w.c.advance(1, 5);
        let weights = if self.kind == Kind::Multisig { [("usera", 7), ("userb", 1)] } else { [("usera", 3), ("userb", 1)] };
        vec![S { w, council: Some(["usera", "userc", "userd"].into_iter().collect()), hist, weights: weights.into_iter().collect(), ps, name: "dao".into() }]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        for i in 0..s.ps.len() {
            let c = s.ps[i].council;
            if c || self.cross {
                for u in &self.voters {
                    for o in if c { &self.outcomes[..] } else { &[0] } {
                        v.push(A::CouncilVote(u, i, *o));
                    }
                }
                v.push(A::Execute(i));
            }
            if self.cross {
                for u in ["usera", "userb", "userd"] {
                    v.push(A::GeneralVote(u, i, 0));
                }
            }
        }
        if self.changes {
            for k in 0..3 {
                v.push(A::SetCouncil(k));
            }
            if s.ps.len() < 3 {
                v.push(A::NewCouncilProposal("userb"));
                v.push(A::NewCouncilProposal("usera"));
            }
            v.push(A::Reweigh("usera", 1));
            v.push(A::Reweigh("userd", 2));
        }
        if s.w.c.nanos < s.ps[0].end {
            v.push(A::WaitEnd);
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let now = s.w.c.nanos;
        match a {
            A::CouncilVote(u, i, o) => {
                let p = s.ps[*i].clone();
                let may = p.council && now < p.end && !p.executed && s.council.as_ref().map(|c| c.contains(u)).unwrap_or(false);
                let r = s.w.council_vote(u, p.id, OUTCOMES[*o as usize]);
                ensure!(r.is_ok() == may, if may { "council-vote-refused" } else { "council-vote-accepted" }, "{a:?} on {}: {:?}", if p.council { "a council proposal" } else { "a general proposal" }, r.as_ref().map(|_| "accepted"));
                if !may {
                    return Ok(Step::Rejected);
                }
                s.ps[*i].votes.insert(u, (*o, 1));
            }
            A::GeneralVote(u, i, o) => {
                let p = s.ps[*i].clone();
                let w = s.weights.get(u).copied().unwrap_or(0);
                let may = !p.council && now < p.end && !p.executed && w > 0;
                let r = s.w.vote(u, p.id, OUTCOMES[*o as usize]);
                ensure!(r.is_ok() == may, if may { "general-vote-refused" } else { "general-vote-accepted" }, "{a:?} on {}: {:?}", if p.council { "a council proposal" } else { "a general proposal" }, r.as_ref().map(|_| "accepted"));
                if !may {
                    return Ok(Step::Rejected);
                }
                s.ps[*i].votes.insert(u, (*o, w));
            }
            A::Execute(i) => {
                let p = s.ps[*i].clone();
                let (o, q, d, max) = self.expect(s, &p);
                let r = s.w.execute(MALLORY, p.id);
                if p.council {
                    let may = !p.executed && max > 0 && (now >= p.end || (q && d));
                    ensure!(r.is_ok() == may, if may { "council-execution-refused" } else { "council-execution-accepted" },
                        "executing the council proposal (votes {:?}, council of {max}): {:?}, rule says {o}", p.votes, r.as_ref().map(|_| "accepted"));
                }
                if r.is_err() {
                    return Ok(Step::Rejected);
                }
                s.ps[*i].executed = true;
                if o["passed"].is_object() {
                    s.name = format!("name{i}");
                }
            }
            A::SetCouncil(k) => {
                let l: Option<Vec<&'static str>> = match k {
                    0 => None,
                    1 => Some(vec!["userb"]),
                    _ => Some(vec!["userb", "userc", "userd", "mallory"]),
                };
                // by proposal of the dominating general member, at once
                let c = l.clone().map(|l| Council::new(&l, "0.5", "1", Some(&["update_metadata"])).json());
                let Ok(_) = s.w.enact("usera", vec![council_action(c)]) else { return Ok(Step::Skip) };
                let t = s.w.c.nanos;
                s.hist.push((t, l.as_ref().map(|x| x.len()).unwrap_or(0) as u128));
                s.council = l.map(|l| l.into_iter().collect());
            }
            A::Reweigh(u, n) => {
                if self.kind == Kind::Multisig {
                    s.w.update_members(&[(u, *n)]).unwrap();
                    s.weights.insert(u, *n);
                } else {
                    let have = s.weights.get(u).copied().unwrap_or(0);
                    let r = if *n > have { s.w.stake(u, n - have) } else if *n < have { s.w.unstake(u, have - n) } else { return Ok(Step::Skip) };
                    if r.is_err() {
                        return Ok(Step::Skip);
                    }
                    s.weights.insert(u, *n);
                }
                for p in s.ps.iter_mut() {
                    if !p.council && !p.executed && now < p.end {
                        if let Some(v) = p.votes.get_mut(u) {
                            v.1 = *n;
                        }
                    }
                }
            }
            A::NewCouncilProposal(u) => {
                let may = s.council.as_ref().map(|c| c.contains(u)).unwrap_or(false);
                let r = s.w.propose_council(u, vec![meta_change("name", json!("name2"))]);
                ensure!(r.is_ok() == may, if may { "council-creation-refused" } else { "council-creation-accepted" }, "{a:?}: {r:?}");
                if !may {
                    return Ok(Step::Rejected);
                }
                let set = s.hist.len() > 1;
                s.ps.push(P { id: r.unwrap(), council: true, end: s.w.c.nanos + 1000 * SEC, votes: BTreeMap::new(), executed: false,
                    quorum: if set { "0.5" } else { self.quorum }, threshold: if set { "1" } else { self.threshold } });
            }
            A::WaitEnd => {
                let left = s.ps[0].end - now;
                s.w.c.advance(left / SEC / 5, left / SEC);
            }
        }
        // what is recorded
        for p in s.ps.clone().iter().filter(|p| p.council) {
            let mut want: Vec<(String, u8, u128)> = p.votes.iter().map(|(u, (o, a))| (u.to_string(), *o, *a)).collect();
            want.sort();
            let got = s.w.votes(p.id);
            ensure!(got == want, "council-votes", "votes on council proposal {}: {got:?}, expected {want:?}", p.id);
        }
        let e = s.w.d.enterprise.clone();
        let n = s.w.c.q(&e, &json!({"dao_info":{}})).unwrap()["metadata"]["name"].as_str().unwrap().to_string();
        ensure!(n == s.name, "council-effect", "DAO name is {n}, expected {}", s.name);
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn std::hash::Hasher) {
        h_chain(&s.w.c, h);
    }
}

pub fn c08(ctx: &mut Ctx) {
    allowed_types(ctx);
    creation(ctx);
    let b = |kind, name, q, t, veto| M { kind, name, quorum: q, threshold: t, veto, voters: vec!["usera", "userb", "userc", "userd"], outcomes: vec![0, 1, 2, 3], cross: false, changes: false };
    for kind in [Kind::Multisig, Kind::Denom] {
        for (q, t, v) in [("0.34", "0.5", None), ("0.67", "0.67", Some("0.2")), ("1", "1", None), ("0.3", "0.4", Some("0.5"))] {
            ctx.explore(&b(kind, Box::leak(format!("votes-{q}-{t}").into_boxed_str()), q, t, v), ctx.q(5, 7));
        }
    }
    for kind in KINDS {
        ctx.explore(&M { cross: true, voters: vec!["usera", "userb", "userd"], outcomes: vec![0, 1], ..b(kind, "cross", "0.34", "0.5", None) }, ctx.q(4, 6));
        ctx.explore(&M { changes: true, outcomes: vec![0, 1], ..b(kind, "changes", "0.5", "0.5", None) }, ctx.q(4, 5));
    }
}

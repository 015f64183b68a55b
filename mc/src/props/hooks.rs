//! C30: membership contracts report every weight change to every registered hook, and to nobody else.
use crate::ensure;
use crate::explore::*;
use crate::sim::code;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hasher;

const U: [&str; 4] = ["usera", "userb", "userc", "userd"];

#[derive(Clone)]
struct S {
    w: World,
    at: String,
    /// three recipients, of which one has an address below the controller's
    sinks: Vec<String>,
    on: BTreeSet<usize>,
    seen: Vec<usize>,
}
#[derive(Clone, Debug)]
enum A {
    Add(usize),
    Remove(usize),
    /// the controller itself stops / starts being told
    Controller(bool),
    Stake(&'static str, u128),
    StakeFor(&'static str, &'static str, u128),
    AddStakes(Vec<(&'static str, u128)>),
    Unstake(&'static str, u128),
    Update(Vec<(&'static str, u128)>),
    Set(Vec<(&'static str, u128)>),
    Claim(&'static str),
    Wait,
}
struct M {
    kind: Kind,
    council: bool,
}
fn log(w: &mut World, a: &str) -> Vec<Value> {
    w.c.q(a, &json!({"log":{}})).unwrap().as_array().unwrap().clone()
}
impl M {
    fn act(&self, s: &mut S, a: &A) -> Result<(), String> {
        let (g, m) = (s.w.d.controller.clone(), s.at.clone());
        let list = |l: &[(&'static str, u128)]| l.iter().map(|(u, n)| json!({"user":u,"weight":n.to_string()})).collect::<Vec<_>>();
        match a {
            A::Add(i) => {
                let h = s.sinks[*i].clone();
                s.w.ex(&g, &m, json!({"add_weight_change_hook":{"hook_addr":h}}), &[]).map(|_| ())
            }
            A::Remove(i) => {
                let h = s.sinks[*i].clone();
                s.w.ex(&g, &m, json!({"remove_weight_change_hook":{"hook_addr":h}}), &[]).map(|_| ())
            }
            A::Controller(on) => s.w.ex(&g, &m, json!({if *on { "add_weight_change_hook" } else { "remove_weight_change_hook" }:{"hook_addr":g}}), &[]).map(|_| ()),
            A::Stake(u, n) => s.w.stake(u, *n).map(|_| ()),
            A::StakeFor(p, u, n) => s.w.stake_for(p, u, *n).map(|_| ()),
            A::Unstake(u, n) => s.w.unstake(u, *n).map(|_| ()),
            A::AddStakes(l) => {
                let t = s.w.token.clone();
                let n: u128 = l.iter().map(|x| x.1).sum();
                let v: Vec<Value> = l.iter().map(|(u, n)| json!({"user":u,"staked_amount":n.to_string()})).collect();
                s.w.ex(ADMIN, &t, json!({"send":{"contract":m,"amount":n.to_string(),"msg":b64(&json!({"add_stakes":{"stakers":v}}))}}), &[]).map(|_| ())
            }
            A::Update(l) => s.w.ex(&g, &m, json!({"update_members":{"update_members":list(l)}}), &[]).map(|_| ()),
            A::Set(l) => s.w.ex(&g, &m, json!({"set_members":{"new_members":list(l)}}), &[]).map(|_| ()),
            A::Claim(u) => s.w.claim(u).map(|_| ()),
            A::Wait => {
                s.w.c.advance(200, 1_000_000);
                Ok(())
            }
        }
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("hooks-{:?}{}", self.kind, if self.council { "-council" } else { "" })
    }
    fn init(&self) -> Vec<S> {
        let mut cfg = Cfg::new(self.kind);
        cfg.members = vec![("usera".into(), 1), ("userb".into(), 2)];
        cfg.council = Some(Council::new(&["usera", "userd"], "0.5", "0.5", None));
        let mut w = World::base(&[]);
        w.kind = self.kind;
        let mut sinks = vec![w.c.inst(ADMIN, code::SINK, &json!({}), None).unwrap()];
        w.d = w.create(&cfg).unwrap();
        for _ in 0..2 {
            sinks.push(w.c.inst(ADMIN, code::SINK, &json!({}), None).unwrap());
        }
        if self.kind != Kind::Multisig {
            w.stake("usera", 1).unwrap();
            w.stake("userb", 2).unwrap();
        }
        let at = if self.council { w.d.council.clone() } else { w.d.membership.clone() };
        vec![S { w, at, sinks, on: BTreeSet::new(), seen: vec![0; 3] }]
    }
    fn actions(&self, _: &S) -> Vec<A> {
        let mut v: Vec<A> = (0..3).flat_map(|i| [A::Add(i), A::Remove(i)]).collect();
        v.push(A::Controller(false));
        v.push(A::Controller(true));
        if self.council || self.kind == Kind::Multisig {
            v.extend([
                A::Update(vec![("usera", 3)]),
                A::Update(vec![("userb", 0), ("userc", 2)]),
                A::Update(vec![("userc", 0)]),
                A::Update(vec![]),
                A::Set(vec![("usera", 1), ("userd", 4)]),
                A::Set(vec![("userb", 7)]),
                A::Set(vec![]),
            ]);
        } else {
            v.extend([A::Stake("usera", 1), A::StakeFor("userb", "userc", 1), A::Unstake("usera", 1), A::Unstake("userb", 2), A::Unstake("userb", 1), A::Claim("userb"), A::Wait]);
            if self.kind == Kind::Token {
                v.push(A::AddStakes(vec![("usera", 2), ("userd", 1)]));
                v.push(A::AddStakes(vec![("userc", 1), ("userc", 2)]));
            }
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let at = s.at.clone();
        let old: BTreeMap<&str, u128> = U.iter().map(|u| (*u, s.w.weight_of(&at, u))).collect();
        let r = self.act(s, a);
        if r.is_err() {
            for i in 0..3 {
                let h = s.sinks[i].clone();
                ensure!(log(&mut s.w, &h).len() == s.seen[i], "told-of-nothing", "{a:?} failed, but hook {i} was told");
            }
            // funds, weights and claims are other properties' business
            ensure!(matches!(a, A::Stake(..) | A::StakeFor(..) | A::Unstake(..) | A::Claim(_)), "refused", "{a:?}: {r:?}");
            return Ok(Step::Rejected);
        }
        match a {
            A::Add(i) => drop(s.on.insert(*i)),
            A::Remove(i) => drop(s.on.remove(i)),
            _ => {}
        }
        let new: BTreeMap<&str, u128> = U.iter().map(|u| (*u, s.w.weight_of(&at, u))).collect();
        for i in 0..3 {
            let h = s.sinks[i].clone();
            let l = log(&mut s.w, &h);
            let fresh = l[s.seen[i]..].to_vec();
            s.seen[i] = l.len();
            if !s.on.contains(&i) {
                ensure!(fresh.is_empty(), "told-unregistered", "{a:?}: {fresh:?} told to hook {i}, which is not registered");
                continue;
            }
            let mut now = old.clone();
            let mut told = BTreeSet::new();
            for m in &fresh {
                ensure!(m[0] == json!(at) && m[2] == json!([]), "sender", "{a:?}: {m}");
                let Some(cs) = m[1]["weights_changed"]["weight_changes"].as_array() else {
                    return viol("message", format!("{a:?}: {m}"));
                };
                for c in cs {
                    let u = c["user"].as_str().unwrap_or("");
                    let Some(u) = U.iter().find(|x| **x == u) else {
                        return viol("message", format!("{a:?}: {m}"));
                    };
                    ensure!(as_u128(&c["old_weight"]) == now[u], "old-weight", "{a:?}: {c}, but {u} had {}", now[u]);
                    now.insert(u, as_u128(&c["new_weight"]));
                    told.insert(*u);
                }
            }
            ensure!(now == new, "not-told", "{a:?}: hook {i} was told {fresh:?}, weights went from {old:?} to {new:?}");
        }
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        // what was told already does not matter any more
        let mut c = s.w.c.clone();
        for x in &s.sinks {
            let k = std::sync::Arc::make_mut(c.contracts.get_mut(x).unwrap());
            std::sync::Arc::make_mut(&mut k.store).clear();
        }
        h_chain(&c, h);
    }
}

/// any number of hooks, and calls that change the weights of many accounts at once
fn many(ctx: &mut Ctx) {
    let sizes: Vec<usize> = ctx.q(vec![1, 2, 3, 5, 9, 11, 31, 51], vec![1, 2, 3, 4, 5, 6, 9, 10, 11, 20, 30, 31, 50, 51, 100, 101]);
    let kinds = [Kind::Multisig, Kind::Token];
    ctx.grid(
        "many hooks and many members",
        sizes.len() * sizes.len() * 2,
        |i| json!({"hooks": sizes[i / 2 % sizes.len()], "members": sizes[i / 2 / sizes.len()], "kind": format!("{:?}", kinds[i % 2])}),
        |i| {
            let (kind, hooks, members) = (kinds[i % 2], sizes[i / 2 % sizes.len()], sizes[i / 2 / sizes.len()]);
            let mut w = World::new(&Cfg::new(kind));
            let sinks: Vec<String> = (0..hooks).map(|_| w.c.inst(ADMIN, code::SINK, &json!({}), None).unwrap()).collect();
            let (g, m) = (w.d.controller.clone(), w.d.membership.clone());
            for h in &sinks {
                w.ex(&g, &m, json!({"add_weight_change_hook":{"hook_addr":h}}), &[]).unwrap();
            }
            let us: Vec<String> = (0..members).map(|k| format!("member{k:03}")).collect();
            for round in 1..3u128 {
                let r = if kind == Kind::Multisig {
                    let l: Vec<Value> = us.iter().enumerate().map(|(k, u)| json!({"user":u,"weight":(round * 5 + k as u128).to_string()})).collect();
                    w.ex(&g, &m, json!({"update_members":{"update_members":l}}), &[])
                } else {
                    let l: Vec<Value> = us.iter().map(|u| json!({"user":u,"staked_amount":round.to_string()})).collect();
                    let (t, n) = (w.token.clone(), round * members as u128);
                    w.ex(ADMIN, &t, json!({"send":{"contract":m,"amount":n.to_string(),"msg":b64(&json!({"add_stakes":{"stakers":l}}))}}), &[])
                };
                ensure!(r.is_ok(), "refused", "{members} members, {hooks} hooks: {r:?}");
                let mut want: BTreeMap<String, u128> = BTreeMap::new();
                for u in &us {
                    want.insert(u.clone(), w.weight_of(&m, u));
                }
                for (k, h) in sinks.iter().enumerate() {
                    let mut known: BTreeMap<String, u128> = us.iter().map(|u| (u.clone(), 0)).collect();
                    for x in log(&mut w, h) {
                        for c in x[1]["weights_changed"]["weight_changes"].as_array().cloned().unwrap_or_default() {
                            let u = c["user"].as_str().unwrap_or("").to_string();
                            ensure!(known.get(&u) == Some(&as_u128(&c["old_weight"])), "old-weight", "hook {k}: {c}");
                            known.insert(u, as_u128(&c["new_weight"]));
                        }
                    }
                    let miss: Vec<_> = want.iter().filter(|(u, n)| known[*u] != **n).collect();
                    ensure!(miss.is_empty(), "not-told", "hook {k} of {hooks} is not up to date on {miss:?}");
                }
            }
            Ok(true)
        },
    );
}

pub fn c30(ctx: &mut Ctx) {
    many(ctx);
    for kind in KINDS {
        ctx.explore(&M { kind, council: false }, ctx.q(5, 7));
    }
    for kind in [Kind::Token, Kind::Multisig] {
        ctx.explore(&M { kind, council: true }, ctx.q(5, 7));
    }
}

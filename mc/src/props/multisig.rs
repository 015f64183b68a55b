//! C16: multisig membership (of the DAO and of its council) is exactly what was last set.
use crate::ensure;
use crate::explore::*;
use crate::sim::code;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::Hasher;

const U: [&str; 4] = ["usera", "userb", "userc", "userd"];
type L = Vec<(&'static str, u128)>;

#[derive(Clone)]
pub struct S {
    w: World,
    at: String,
    m: BTreeMap<&'static str, u128>,
    /// entries that may still be listed with weight zero
    by: String,
}
#[derive(Clone, Debug)]
pub enum A {
    Update(L),
    Set(L),
    Wait,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    Dao,
    Council,
    /// council of a token DAO
    TokenCouncil,
}
struct M {
    at: Where,
    big: bool,
}

fn members(w: &mut World, at: &str) -> BTreeMap<String, u128> {
    let r = w.c.q(at, &json!({"members":{"start_after":null,"limit":100}})).unwrap();
    let l = r["members"].as_array().unwrap();
    let m: BTreeMap<String, u128> = l.iter().map(|x| (x["user"].as_str().unwrap().to_string(), as_u128(&x["weight"]))).collect();
    assert!(m.len() == l.len(), "member list repeats a member: {r}");
    m
}

fn check(w: &mut World, at: &str, m: &BTreeMap<&'static str, u128>) -> Chk {
    for u in U.iter().chain(&["stranger"]) {
        let got = w.weight_of(at, u);
        let exp = m.get(u).copied().unwrap_or(0);
        ensure!(got == exp, "weight", "weight of {u}: {got}, expected {exp}");
    }
    let t = w.total_at(at, json!({"never":{}}));
    let exp: u128 = m.values().sum();
    ensure!(t == exp, "total", "total weight {t}, expected {exp}");
    let got: BTreeMap<String, u128> = members(w, at).into_iter().filter(|x| x.1 > 0).collect();
    let exp: BTreeMap<String, u128> = m.iter().filter(|x| *x.1 > 0).map(|(u, a)| (u.to_string(), *a)).collect();
    ensure!(got == exp, "members", "members {got:?}, expected {exp:?}");
    Ok(())
}

impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("multisig-{:?}{}", self.at, if self.big { "-big" } else { "" })
    }
    fn init(&self) -> Vec<S> {
        let mut cfg = Cfg::new(if self.at == Where::TokenCouncil { Kind::Token } else { Kind::Multisig });
        cfg.members = vec![("usera".into(), 2), ("userb".into(), 1)];
        cfg.council = Some(Council::new(&["usera", "userc"], "0.5", "0.5", None));
        let w = World::new(&cfg);
        let at = if self.at == Where::Dao { w.d.membership.clone() } else { w.d.council.clone() };
        let m = if self.at == Where::Dao { vec![("usera", 2), ("userb", 1)] } else { vec![("usera", 1), ("userc", 1)] };
        let by = w.d.controller.clone();
        vec![S { w, at, m: m.into_iter().collect(), by }]
    }
    fn actions(&self, _: &S) -> Vec<A> {
        let b = if self.big { 1u128 << 100 } else { 5 };
        let mut v = vec![A::Wait, A::Set(vec![]), A::Update(vec![])];
        let ls: Vec<L> = vec![
            vec![("usera", 0)],
            vec![("usera", b)],
            vec![("userb", 3)],
            vec![("userd", 1), ("userb", 0)],
            vec![("userc", 2), ("usera", 1), ("userb", b)],
            vec![("usera", 1), ("usera", 1)],
            vec![("userc", 4), ("userb", 2), ("userc", 1)],
            vec![("userc", 0), ("userd", b)],
        ];
        for l in ls {
            v.push(A::Update(l.clone()));
            v.push(A::Set(l));
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let (l, set) = match a {
            A::Wait => {
                s.w.c.advance(1, 5);
                return Ok(Step::Accepted);
            }
            A::Update(l) => (l, false),
            A::Set(l) => (l, true),
        };
        let v: Vec<Value> = l.iter().map(|(u, w)| json!({"user":u,"weight":w.to_string()})).collect();
        let msg = if set { json!({"set_members":{"new_members":v}}) } else { json!({"update_members":{"update_members":v}}) };
        let before = s.w.c.digest();
        let (by, at) = (s.by.clone(), s.at.clone());
        let r = s.w.ex(&by, &at, msg, &[]);
        let mut us: Vec<&str> = l.iter().map(|x| x.0).collect();
        us.sort();
        us.dedup();
        if us.len() < l.len() {
            ensure!(r.is_err(), "duplicate", "{a:?} accepted");
            ensure!(s.w.c.digest() == before, "duplicate-effect", "refused {a:?} changed state");
            check(&mut s.w.clone(), &at, &s.m)?;
            return Ok(Step::Rejected);
        }
        ensure!(r.is_ok(), "refused", "{a:?}: {r:?}");
        if set {
            s.m.clear();
        }
        for (u, w) in l {
            s.m.insert(u, *w);
        }
        check(&mut s.w.clone(), &at, &s.m)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
        h_into(&s.m, h);
    }
}

pub fn c16(ctx: &mut Ctx) {
    for at in [Where::Dao, Where::Council, Where::TokenCouncil] {
        ctx.explore(&M { at, big: false }, ctx.q(4, 5));
    }
    ctx.explore(&M { at: Where::Dao, big: true }, ctx.q(3, 4));
    initial(ctx);
    via_proposals(ctx);
    imported(ctx);
}

/// every initial member list of up to three entries
fn initial(ctx: &mut Ctx) {
    let ws = [0u128, 1, 7];
    let us = ["usera", "userb", "userc"];
    let one = us.len() * ws.len();
    let dec = move |mut i: usize| -> L {
        let n = i % 4;
        i /= 4;
        (0..n)
            .map(|_| {
                let e = (us[i % 3], ws[i / 3 % 3]);
                i /= one;
                e
            })
            .collect()
    };
    let base = World::base(&[]);
    ctx.grid(
        "initial-members",
        4 * one * one * one,
        |i| json!(format!("{:?}", dec(i))),
        |i| {
            let l = dec(i);
            let mut w = base.clone();
            let init: Vec<Value> = l.iter().map(|(u, x)| json!({"user":u,"weight":x.to_string()})).collect();
            let r = w.c.inst(
                ADMIN,
                code::MULTISIG_MEMBERSHIP,
                &json!({"enterprise_contract":"enterprise","initial_weights":init,"weight_change_hooks":null,
                    "total_weight_by_height_checkpoints":null,"total_weight_by_seconds_checkpoints":null}),
                None,
            );
            let mut us: Vec<&str> = l.iter().map(|x| x.0).collect();
            us.sort();
            us.dedup();
            if us.len() < l.len() {
                ensure!(r.is_err(), "duplicate", "initial members {l:?} accepted");
                return Ok(true);
            }
            ensure!(r.is_ok(), "refused", "initial members {l:?}: {r:?}");
            let m: BTreeMap<&'static str, u128> = l.into_iter().collect();
            check(&mut w, &r.unwrap(), &m)?;
            Ok(true)
        },
    );
}

/// DAO and council members changed by executed proposals
fn via_proposals(ctx: &mut Ctx) {
    let ls: Vec<L> = vec![
        vec![("userb", 3)],
        vec![("userb", 0), ("userc", 1)],
        vec![("userd", 2), ("userc", 9), ("userb", 1)],
        vec![("userc", 0)],
    ];
    let cs: Vec<Vec<&'static str>> = vec![vec!["usera"], vec!["userb", "userc"], vec!["userd", "userc", "usera"]];
    let (nl, nc) = (ls.len(), cs.len());
    let mut cfg = Cfg::new(Kind::Multisig);
    cfg.members = vec![("usera".into(), 20), ("userb".into(), 1)];
    cfg.council = Some(Council::new(&["usera", "userc"], "0.5", "0.5", None));
    cfg.gov.early = true;
    let base = World::new(&cfg);
    ctx.grid(
        "by-proposal",
        nl * nl * nc * nc,
        |i| json!([format!("{:?}", ls[i % nl]), format!("{:?}", ls[i / nl % nl]), cs[i / nl / nl % nc], cs[i / nl / nl / nc]]),
        |i| {
            let mut w = base.clone();
            let mut m: BTreeMap<&'static str, u128> = [("usera", 20), ("userb", 1)].into_iter().collect();
            for (l, c) in [(&ls[i % nl], &cs[i / nl / nl % nc]), (&ls[i / nl % nl], &cs[i / nl / nl / nc])] {
                let e: Vec<Value> = l.iter().map(|(u, x)| json!({"user":u,"weight":x.to_string()})).collect();
                w.enact(
                    "usera",
                    vec![
                        json!({"modify_multisig_membership":{"edit_members":e}}),
                        json!({"update_council":{"dao_council":{"members":c,"quorum":"0.5","threshold":"0.5","allowed_proposal_action_types":null}}}),
                    ],
                )
                .unwrap();
                for (u, x) in l {
                    m.insert(u, *x);
                }
                let at = w.d.membership.clone();
                check(&mut w, &at, &m)?;
                let cm: BTreeMap<&'static str, u128> = c.iter().map(|u| (*u, 1)).collect();
                let at = w.d.council.clone();
                check(&mut w, &at, &cm)?;
            }
            Ok(true)
        },
    );
}

/// a multisig imported from a cw3 contract has that contract's voters
fn imported(ctx: &mut Ctx) {
    let sizes = [1usize, 2, 9, 10, 11, 29, 30, 31, 35];
    ctx.grid(
        "imported-cw3",
        sizes.len(),
        |i| json!(sizes[i]),
        |i| {
            let n = sizes[i];
            let mut w = World::base(&[]);
            let voters: Vec<Value> = (0..n).map(|k| json!([format!("voter{k:02}"), k + 1])).collect();
            let cw3 = w.c.inst(ADMIN, code::CW3, &json!({ "voters": voters }), None).unwrap();
            let cfg = Cfg::new(Kind::Multisig);
            w.d = w.create_with(&cfg, json!({"import_cw3":{"cw3_contract":cw3}})).unwrap();
            let at = w.d.membership.clone();
            let got = members(&mut w, &at);
            let exp: BTreeMap<String, u128> = (0..n).map(|k| (format!("voter{k:02}"), k as u128 + 1)).collect();
            ensure!(got == exp, "imported", "{n} voters imported as {got:?}");
            let t = w.total_at(&at, json!({"never":{}}));
            ensure!(t == (n * (n + 1) / 2) as u128, "total", "{t}");
            Ok(true)
        },
    );
}

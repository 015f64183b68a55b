//! C21: attestations. Every history of setting, replacing, removing and signing; in every state
//! every kind of participation is tried, on a copy, by every user.
use super::create::meta_change;
use crate::ensure;
use crate::explore::*;
use crate::sim::coin;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::hash::Hasher;

#[derive(Clone)]
struct S {
    w: World,
    att: Option<String>,
    text: String,
    /// earlier attestation contracts
    old: Vec<String>,
    signed: BTreeSet<String>,
    sets: usize,
    open: u64,
    council: u64,
    ready: u64,
    rejected: u64,
}
#[derive(Clone, Debug)]
enum A {
    Set(bool),
    Remove,
    Sign(usize),
    SignOld(usize),
}
struct M {
    kind: Kind,
    deposit: bool,
    initial: bool,
}
/// users[0..2] are members and on the council; the third has nothing at stake
const U: [&str; 3] = ["usera", "userb", "userc"];

impl M {
    fn check(&self, s: &mut S) -> Chk {
        let e = s.w.d.enterprise.clone();
        let cc = s.w.c.q(&e, &json!({"component_contracts":{}})).unwrap();
        ensure!(cc["attestation_contract"].as_str().map(|x| x.to_string()) == s.att, "attestation-contract", "{} vs {:?}", cc["attestation_contract"], s.att);
        if let Some(a) = s.att.clone() {
            let t = s.w.c.q(&a, &json!({"attestation_text":{}})).unwrap();
            ensure!(t["text"] == json!(s.text), "text", "{t} instead of {}", s.text);
        }
        for u in U {
            let r = s.att.is_some() && !s.signed.contains(u);
            let q = s.w.c.q(&e, &json!({"is_restricted_user":{"user":u}})).unwrap();
            ensure!(q["is_restricted"] == json!(r), "reported-restriction", "{u}: {q}, expected {r}");
            if let Some(a) = s.att.clone() {
                let q = s.w.c.q(&a, &json!({"has_user_signed":{"user":u}})).unwrap();
                ensure!(q["has_signed"] == json!(!r), "reported-signature", "{u}: {q}");
            }
            self.probe(s, u, r)?;
        }
        Ok(())
    }
    /// everything `u` may try, each on its own copy of the chain
    fn probe(&self, s: &S, u: &str, restricted: bool) -> Chk {
        let (open, council, ready, rejected) = (s.open, s.council, s.ready, s.rejected);
        let member = u != "userc";
        let k = self.kind;
        let act = || vec![meta_change("name", json!("x"))];
        let run = |what: &str, allowed: bool, f: &dyn Fn(&mut World) -> Result<(), String>| -> Chk {
            let mut w = s.w.clone();
            let d = w.c.digest();
            let r = f(&mut w);
            if allowed {
                ensure!(r.is_ok(), &format!("{what}-blocked"), "{u} (restricted: {restricted}) cannot {what}: {r:?}");
            } else {
                ensure!(r.is_err(), &format!("{what}-allowed"), "{u}, who has not signed, can {what}");
                ensure!(w.c.digest() == d, &format!("{what}-effect"), "refused {what} by {u} changed state");
            }
            Ok(())
        };
        let ok = !restricted;
        if member && !(self.deposit && k != Kind::Multisig) {
            run("propose", ok, &|w| w.propose(u, act()).map(|_| ()))?;
        }
        if self.deposit && k != Kind::Multisig {
            let n = if k == Kind::Nft { 1 } else { 10 };
            run("propose with deposit", ok, &|w| w.propose_deposit(u, n, None, act()).map(|_| ()))?;
            run("propose with deposit for another", ok, &|w| w.propose_deposit(u, n, Some("userd"), act()).map(|_| ()))?;
        }
        run("execute", ok, &|w| w.execute(u, ready).map(|_| ()))?;
        run("finish a rejected proposal", ok, &|w| w.execute(u, rejected).map(|_| ()))?;
        if member {
            for o in OUTCOMES {
                run("vote", ok, &|w| w.vote(u, open, o).map(|_| ()))?;
            }
            run("propose in council", ok, &|w| w.propose_council(u, act()).map(|_| ()))?;
            run("vote in council", ok, &|w| w.council_vote(u, council, "yes").map(|_| ()))?;
            run("claim rewards", ok, &|w| {
                let (d, b) = (w.d.distributor.clone(), w.c.bal(u, "uluna"));
                w.ex(u, &d, json!({"claim_rewards":{"user":u,"native_denoms":["uluna"],"cw20_assets":[]}}), &[])?;
                if w.c.bal(u, "uluna") <= b {
                    return Err("nothing paid".into());
                }
                Ok(())
            })?;
        }
        // rewards cannot be drawn for them by anyone else either
        run("have rewards claimed by another", false, &|w| {
            let d = w.d.distributor.clone();
            let other = if u == "usera" { "userb" } else { "usera" };
            w.ex(other, &d, json!({"claim_rewards":{"user":u,"native_denoms":["uluna"],"cw20_assets":[]}}), &[]).map(|_| ())
        })?;
        if k != Kind::Multisig {
            for payer in ["userd", u] {
                run("receive a stake", ok, &|w| w.stake_for(payer, u, 1).map(|_| ()))?;
            }
            // paying for someone unrestricted is not restricted
            let free = s.att.is_none() || s.signed.contains("usera");
            run("stake for usera", free, &|w| w.stake_for(u, "usera", 1).map(|_| ()))?;
            if k == Kind::Token {
                let both = free && ok;
                run("receive a batch stake", both, &|w| {
                    let (t, m) = (w.token.clone(), w.d.membership.clone());
                    let msg = b64(&json!({"add_stakes":{"stakers":[{"user":"usera","staked_amount":"1"},{"user":u,"staked_amount":"2"}]}}));
                    w.ex("userd", &t, json!({"send":{"contract":m,"amount":"3","msg":msg}}), &[]).map(|_| ())
                })?;
            }
            if k == Kind::Denom {
                run("stake without naming themselves", ok, &|w| {
                    let m = w.d.membership.clone();
                    w.ex(u, &m, json!({"stake":{"user":null}}), &[coin(1, DENOM)]).map(|_| ())
                })?;
            }
            if member {
                run("unstake", true, &|w| w.unstake(u, 1).map(|_| ()))?;
                run("claim unlocked assets", true, &|w| w.claim(u).map(|_| ()))?;
            }
        }
        Ok(())
    }
}

impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!("{:?}{}{}", self.kind, if self.deposit { "-deposit" } else { "" }, if self.initial { "-initial" } else { "" })
    }
    fn init(&self) -> Vec<S> {
        let mut cfg = Cfg::new(self.kind);
        cfg.members = vec![("usera".into(), 2), ("userb".into(), 2)];
        cfg.gov.early = false;
        cfg.assets = Some(vec![native("uluna")]);
        cfg.council = Some(Council::new(&["usera", "userb"], "0.3", "0.5", Some(&["update_metadata"])));
        if self.deposit && self.kind != Kind::Multisig {
            cfg.gov.min_deposit = Some(if self.kind == Kind::Nft { 1 } else { 10 });
        }
        if self.initial {
            cfg.attestation = Some("first text".into());
        }
        let mut w = World::new(&cfg);
        let mut signed = BTreeSet::new();
        if self.initial {
            let a = w.d.attestation.clone().unwrap();
            for u in ["usera", "userb"] {
                w.ex(u, &a, json!({"sign_attestation":{}}), &[]).unwrap();
                signed.insert(u.to_string());
            }
        }
        if self.kind != Kind::Multisig {
            for u in ["usera", "userb"] {
                w.stake(u, 2).unwrap();
                // a matured claim
                w.unstake(u, 1).unwrap();
            }
            // userd pays for others' stakes; has NFTs and tokens from the start
        }
        let d = w.d.distributor.clone();
        w.ex(ADMIN, &d, json!({"distribute_native":{}}), &[coin(100, "uluna")]).unwrap();
        let dep = self.deposit && self.kind != Kind::Multisig;
        let prop = |w: &mut World, u: &str| -> u64 {
            let a = vec![meta_change("name", json!("y"))];
            if dep {
                // NFT holders have one left for probing: userd pays with the proposer named as owner
                let n = if w.kind == Kind::Nft { 1 } else { 10 };
                let p = if w.kind == Kind::Nft && self.initial { MALLORY } else { u };
                if w.kind == Kind::Nft && self.initial {
                    let a = w.d.attestation.clone().unwrap();
                    w.ex(MALLORY, &a, json!({"sign_attestation":{}}), &[]).unwrap();
                }
                let p = if w.kind == Kind::Nft { MALLORY } else { p };
                w.propose_deposit(p, n, None, a).unwrap()
            } else {
                w.propose(u, a).unwrap()
            }
        };
        let ready = prop(&mut w, "usera");
        let rejected = prop(&mut w, "usera");
        for u in ["usera", "userb"] {
            w.vote(u, ready, "yes").unwrap();
            w.vote(u, rejected, "no").unwrap();
        }
        w.c.advance(300, 2000);
        let open = prop(&mut w, "userb");
        let council = w.propose_council("userb", vec![meta_change("name", json!("z"))]).unwrap();
        w.c.advance(1, 5);
        let att = w.d.attestation.clone();
        let mut s = S { w, att, text: "first text".into(), old: vec![], signed, sets: 0, open, council, ready, rejected };
        self.check(&mut s).unwrap();
        vec![s]
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![A::Remove];
        if s.sets < 3 {
            v.push(A::Set(true));
            v.push(A::Set(false));
        }
        for u in 0..3 {
            v.push(A::Sign(u));
        }
        if !s.old.is_empty() {
            v.push(A::SignOld(0));
            v.push(A::SignOld(2));
        }
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        let (e, g) = (s.w.d.enterprise.clone(), s.w.d.controller.clone());
        match a {
            A::Set(same) => {
                s.sets += 1;
                if !same {
                    s.text = format!("text {}", s.sets);
                }
                s.w.ex(&g, &e, json!({"set_attestation":{"attestation_text":s.text}}), &[]).unwrap();
                s.old.extend(s.att.take());
                s.att = s.w.dao_at(&e).unwrap().attestation;
                ensure!(s.att.is_some(), "not-set", "no attestation after setting one");
                ensure!(!s.old.contains(s.att.as_ref().unwrap()), "reused", "old attestation contract reused");
                s.signed.clear();
            }
            A::Remove => {
                if s.att.is_none() {
                    return Ok(Step::Skip);
                }
                s.w.ex(&g, &e, json!({"remove_attestation":{}}), &[]).unwrap();
                s.old.extend(s.att.take());
            }
            A::Sign(u) => {
                let Some(a) = s.att.clone() else { return Ok(Step::Skip) };
                s.w.ex(U[*u], &a, json!({"sign_attestation":{}}), &[]).unwrap();
                s.signed.insert(U[*u].to_string());
            }
            A::SignOld(u) => {
                let a = s.old.last().unwrap().clone();
                s.w.ex(U[*u], &a, json!({"sign_attestation":{}}), &[]).unwrap();
            }
        }
        self.check(s)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
        h_into(&s.sets, h);
    }
}

pub fn c21(ctx: &mut Ctx) {
    for kind in KINDS {
        for deposit in [false, true] {
            for initial in [false, true] {
                if deposit && kind == Kind::Multisig {
                    continue;
                }
                ctx.explore(&M { kind, deposit, initial }, ctx.q(5, 7));
            }
        }
    }
}

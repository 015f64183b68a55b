//! C29 and C10: what an executed proposal does, and that it does all of it or nothing.
use super::create::*;
use crate::ensure;
use crate::explore::*;
use crate::sim::{code, coin};
use crate::world::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const DENOMS: [&str; 3] = ["uluna", DENOM, "uother"];
/// divisible by every total weight that can occur
const SHARE: u128 = 120;

/// Everything the property talks about, observed through queries only.
pub fn snapshot(w: &mut World) -> Value {
    let d = w.d.clone();
    let (t, n) = (w.token.clone(), w.nft.clone());
    let info = w.c.q(&d.enterprise, &json!({"dao_info":{}})).unwrap();
    let mut comp = w.c.q(&d.enterprise, &json!({"component_contracts":{}})).unwrap();
    let att = comp["attestation_contract"].clone();
    comp.as_object_mut().unwrap().remove("attestation_contract");
    let att_text = match att.as_str() {
        Some(a) => w.c.q(a, &json!({"attestation_text":{}})).unwrap()["text"].clone(),
        None => Value::Null,
    };
    let gc = w.c.q(&d.controller, &json!({"gov_config":{}})).unwrap();
    let unlocking = match w.kind {
        Kind::Denom => w.c.q(&d.membership, &json!({"denom_config":{}})).unwrap()["unlocking_period"].clone(),
        Kind::Token => w.c.q(&d.membership, &json!({"token_config":{}})).unwrap()["unlocking_period"].clone(),
        Kind::Nft => w.c.q(&d.membership, &json!({"nft_config":{}})).unwrap()["unlocking_period"].clone(),
        Kind::Multisig => Value::Null,
    };
    let list = |w: &mut World, m: &str| -> Value {
        let r = w.c.q(m, &json!({"members":{"start_after":null,"limit":100}})).unwrap();
        let mut o = Map::new();
        for x in r["members"].as_array().unwrap() {
            if as_u128(&x["weight"]) > 0 {
                o.insert(x["user"].as_str().unwrap().into(), json!(s(as_u128(&x["weight"]))));
            }
        }
        Value::Object(o)
    };
    let mut weights = Map::new();
    for u in USERS {
        let x = w.weight(u);
        if x > 0 {
            weights.insert(u.into(), json!(s(x)));
        }
    }
    let council = list(w, &d.council.clone());
    let mut assets: Vec<String> = w.c.q(&d.treasury, &json!({"asset_whitelist":{"start_after":null,"limit":100}})).unwrap()["assets"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.to_string())
        .collect();
    assets.sort();
    let mut nfts: Vec<String> = w.c.q(&d.treasury, &json!({"nft_whitelist":{"start_after":null,"limit":100}})).unwrap()["nfts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.to_string())
        .collect();
    nfts.sort();
    let sink = sink_of(w);
    let mut bal = Map::new();
    let mut accts: Vec<String> = USERS.iter().map(|s| s.to_string()).collect();
    accts.extend([d.enterprise.clone(), d.controller.clone(), d.governance.clone(), d.membership.clone(), d.council.clone(), d.treasury.clone(), d.distributor.clone(), d.outposts.clone(), sink.clone()]);
    let mut pend = Map::new();
    let mut restricted = Map::new();
    for a in &accts {
        for den in DENOMS {
            bal.insert(format!("{a}/{den}"), json!(s(w.c.bal(a, den))));
        }
        bal.insert(format!("{a}/token"), json!(s(w.cw20_bal(&t, a))));
        bal.insert(format!("{a}/nfts"), json!(w.owned(a)));
    }
    let _ = n;
    for u in USERS {
        let r = w.c.q(&d.distributor, &json!({"user_rewards":{"user":u,"native_denoms":DENOMS,"cw20_assets":[t]}})).unwrap();
        for x in r["native_rewards"].as_array().unwrap() {
            pend.insert(format!("{u}/{}", x["denom"].as_str().unwrap()), json!(s(as_u128(&x["amount"]))));
        }
        for x in r["cw20_rewards"].as_array().unwrap() {
            pend.insert(format!("{u}/token"), json!(s(as_u128(&x["amount"]))));
        }
        let r = w.c.q(&d.enterprise, &json!({"is_restricted_user":{"user":u}})).unwrap();
        restricted.insert(u.into(), r["is_restricted"].clone());
    }
    let minw = w.c.q(&d.distributor, &json!({"minimum_eligible_weight":{}})).unwrap()["minimum_eligible_weight"].clone();
    let log = w.c.q(&sink, &json!({"log":{}})).unwrap();
    let ccd = w.c.q(&d.outposts, &json!({"cross_chain_treasuries":{"start_after":null,"limit":null}})).unwrap();
    json!({"metadata":info["metadata"],"version":info["dao_version"],"dao_type":info["dao_type"],"components":comp,"attestation":att_text,"restricted":restricted,
        "gov":gc["gov_config"],"council_gov":gc["council_gov_config"],"unlocking":unlocking,"weights":weights,"council":council,
        "total":s(w.total()),"assets":assets,"nfts":nfts,"balances":bal,"pending":pend,"min_weight":s(as_u128(&minw)),"sink":log,
        "cross_chain":ccd,"ibc":w.c.outbox.iter().map(|m| sent(m)).collect::<Vec<_>>()})
}
/// what an outgoing IBC message asks whom to do
fn sent(m: &str) -> Value {
    use super::outpost::{decode, proxied, unb64};
    let Some(s) = decode(m) else { return json!(m) };
    let Some((msg, _)) = proxied(&s) else { return s.memo };
    let x = &msg["wasm"]["execute"];
    if x.is_object() {
        json!({"to":s.receiver,"over":s.channel,"tell":x["contract_addr"],"msg":unb64(&x["msg"]),"funds":x["funds"]})
    } else {
        json!({"to":s.receiver,"over":s.channel,"create":msg["wasm"]["instantiate"]["code_id"]})
    }
}
pub fn sink_of(w: &World) -> String {
    w.c.contracts.iter().find(|(_, c)| c.code_id == code::SINK).map(|x| x.0.clone()).unwrap()
}

#[derive(Clone, Debug)]
pub enum Act {
    Meta(&'static str, Value),
    /// several fields in one action
    Metas(Vec<(&'static str, Value)>),
    Govs(Vec<(&'static str, Value)>),
    Gov(&'static str, Value),
    /// duration and unlocking period in one action
    GovBoth(u64, u64),
    Council(Option<u8>),
    Assets(Vec<usize>, Vec<usize>),
    Nfts(Vec<&'static str>, Vec<&'static str>),
    /// who, (asset index, amount)
    Pay(&'static str, Vec<(usize, u128)>),
    /// sender component (0 controller, 1 treasury, 2 enterprise), messages
    Msgs(usize, Vec<M>),
    Members(Vec<(&'static str, u128)>),
    Distribute(Vec<(usize, u128)>),
    MinWeight(u128),
    Upgrade((u64, u64, u64)),
    /// the treasury on another chain: (what, chain)
    Remote(usize, &'static str),
    Deploy(&'static str),
}
fn remote_msg(k: usize, w: &World) -> Value {
    match k {
        0 => json!({"update_asset_whitelist":{"add":[native("ujuno"), cw20(&w.token)],"remove":[native("uold")]}}),
        1 => json!({"update_nft_whitelist":{"add":["junonft"],"remove":["oldnft"]}}),
        2 => json!({"spend":{"recipient":"userd","assets":[asset(native("ujuno"), 7), asset(native("uluna"), 3)]}}),
        _ => json!({"execute_cosmos_msgs":{"msgs":[bank_msg("userd", "uluna", 4)]}}),
    }
}
#[derive(Clone, Debug)]
pub enum M {
    Bank(&'static str, &'static str, u128),
    Sink(u32, Option<(u128, &'static str)>),
    SinkFail,
    SetAttestation(&'static str),
    RemoveAttestation,
    /// token transfer by the sender
    Cw20(&'static str, u128),
}
/// uluna, udao, uother, the token
fn info(i: usize, w: &World) -> Value {
    if i < 3 {
        native(DENOMS[i])
    } else {
        cw20(&w.token)
    }
}
fn aname(i: usize) -> &'static str {
    if i < 3 {
        DENOMS[i]
    } else {
        "token"
    }
}
fn council_cfg(v: u8) -> Council {
    match v {
        0 => Council::new(&["userb"], "0.4", "0.7", Some(&["update_metadata"])),
        _ => Council::new(&["userb", "userd"], "0.2", "0.6", None),
    }
}

impl Act {
    pub fn json(&self, w: &World) -> Value {
        match self {
            Act::Meta(k, v) => meta_change(k, v.clone()),
            Act::Metas(l) => {
                let mut g = nc_meta();
                for (k, v) in l {
                    g[*k] = json!({ "change": v });
                }
                json!({ "update_metadata": g })
            }
            Act::Govs(l) => {
                let mut g = nc_gov();
                for (k, v) in l {
                    g[*k] = json!({ "change": v });
                }
                json!({ "update_gov_config": g })
            }
            Act::Gov(k, v) => gov_change(k, v.clone()),
            Act::GovBoth(d, u) => {
                let mut g = nc_gov();
                g["voting_duration"] = json!({"change":s(*d as u128)});
                g["unlocking_period"] = json!({"change":{"time":u}});
                json!({ "update_gov_config": g })
            }
            Act::Council(c) => council_action(c.map(|c| council_cfg(c).json())),
            Act::Assets(a, r) => assets_action(a.iter().map(|i| info(*i, w)).collect(), r.iter().map(|i| info(*i, w)).collect(), Value::Null),
            Act::Nfts(a, r) => nfts_action(a, r, Value::Null),
            Act::Pay(u, l) => funding(u, l.iter().map(|(i, n)| asset(info(*i, w), *n)).collect(), Value::Null),
            Act::Msgs(c, l) => {
                let k = ["execute_msgs", "execute_treasury_msgs", "execute_enterprise_msgs"][*c];
                let sink = sink_of(w);
                let ms: Vec<String> = l
                    .iter()
                    .map(|m| match m {
                        M::Bank(to, d, n) => bank_msg(to, d, *n),
                        M::Sink(x, f) => wasm_msg(&sink, &json!({"note":x}), &f.iter().copied().collect::<Vec<_>>()),
                        M::SinkFail => wasm_msg(&sink, &json!({"fail":{}}), &[]),
                        M::SetAttestation(t) => wasm_msg(&w.d.enterprise, &json!({"set_attestation":{"attestation_text":t}}), &[]),
                        M::RemoveAttestation => wasm_msg(&w.d.enterprise, &json!({"remove_attestation":{}}), &[]),
                        M::Cw20(to, n) => wasm_msg(&w.token, &json!({"transfer":{"recipient":to,"amount":s(*n)}}), &[]),
                    })
                    .collect();
                msgs_action(k, &ms)
            }
            Act::Members(l) => members_action(l),
            Act::Distribute(l) => distribute_action(l.iter().map(|(i, n)| asset(info(*i, w), *n)).collect()),
            Act::MinWeight(x) => json!({"update_minimum_weight_for_rewards":{"minimum_weight_for_rewards":s(*x)}}),
            Act::Upgrade(v) => upgrade_action(*v),
            Act::Remote(k, ch) => {
                let m = remote_msg(*k, w);
                let (name, body) = m.as_object().unwrap().iter().next().unwrap();
                let mut b = body.clone();
                b["remote_treasury_target"] = target(ch);
                if *k == 3 {
                    b["action_type"] = json!("treasury");
                }
                json!({ match *k { 2 => "request_funding_from_dao", 3 => "execute_treasury_msgs", _ => name.as_str() }: b })
            }
            Act::Deploy(ch) => super::access::deploy(ch),
        }
    }

    /// the stated effect, on the observed state; Err = the action cannot be carried out
    pub fn apply(&self, w: &World, e: &mut Value) -> Result<(), ()> {
        let d = &w.d;
        match self {
            Act::Meta(k, v) => match *k {
                "name" | "logo" => e["metadata"][*k] = v.clone(),
                "description" => e["metadata"]["description"] = v.clone(),
                _ => e["metadata"]["socials"][*k] = v.clone(),
            },
            Act::Metas(l) => {
                for (k, v) in l {
                    Act::Meta(k, v.clone()).apply(w, e)?;
                }
            }
            Act::Govs(l) => {
                for (k, v) in l {
                    Act::Gov(k, v.clone()).apply(w, e)?;
                }
            }
            Act::Gov(k, v) => match *k {
                "voting_duration" => e["gov"]["vote_duration"] = json!(v.as_str().unwrap().parse::<u64>().unwrap()),
                "unlocking_period" => {
                    if let Some(t) = v.get("time").and_then(|x| x.as_u64()) {
                        if t < e["gov"]["vote_duration"].as_u64().unwrap() {
                            return Err(());
                        }
                    }
                    if w.kind != Kind::Multisig {
                        e["unlocking"] = v.clone();
                    }
                }
                _ => e["gov"][*k] = v.clone(),
            },
            Act::GovBoth(dur, u) => {
                if u < dur {
                    return Err(());
                }
                e["gov"]["vote_duration"] = json!(dur);
                if w.kind != Kind::Multisig {
                    e["unlocking"] = json!({ "time": u });
                }
            }
            Act::Council(c) => match c {
                None => {
                    e["council_gov"] = Value::Null;
                    e["council"] = json!({});
                }
                Some(c) => {
                    let c = council_cfg(*c);
                    e["council_gov"] = json!({"allowed_proposal_action_types":c.allowed.unwrap_or(vec!["upgrade_dao".into()]),"quorum":c.quorum,"threshold":c.threshold});
                    let mut m = Map::new();
                    for u in c.members {
                        m.insert(u, json!("1"));
                    }
                    e["council"] = Value::Object(m);
                }
            },
            Act::Assets(a, r) => {
                let mut l: BTreeSet<String> = strs(&e["assets"]);
                for i in a {
                    l.insert(info(*i, w).to_string());
                }
                for i in r {
                    l.remove(&info(*i, w).to_string());
                }
                e["assets"] = json!(l);
            }
            Act::Nfts(a, r) => {
                let mut l: BTreeSet<String> = strs(&e["nfts"]);
                for i in a {
                    l.insert(json!(i).to_string());
                }
                for i in r {
                    l.remove(&json!(i).to_string());
                }
                e["nfts"] = json!(l);
            }
            Act::Pay(u, l) => {
                for (i, n) in l {
                    mv(e, &d.treasury, u, aname(*i), *n)?;
                }
            }
            Act::Msgs(c, l) => {
                let from = [&d.controller, &d.treasury, &d.enterprise][*c].clone();
                for m in l {
                    match m {
                        M::Bank(to, den, n) => mv(e, &from, to, den, *n)?,
                        M::Sink(x, f) => {
                            let mut fs = vec![];
                            if let Some((n, den)) = f {
                                mv(e, &from, &sink_of(w), den, *n)?;
                                fs.push(format!("{n}{den}"));
                            }
                            e["sink"].as_array_mut().unwrap().push(json!([from, {"note":x}, fs]));
                        }
                        M::SinkFail => return Err(()),
                        M::SetAttestation(t) => {
                            if *c != 0 {
                                return Err(());
                            }
                            e["attestation"] = json!(t);
                            for u in USERS {
                                e["restricted"][u] = json!(true);
                            }
                        }
                        M::RemoveAttestation => {
                            if *c != 0 {
                                return Err(());
                            }
                            e["attestation"] = Value::Null;
                            for u in USERS {
                                e["restricted"][u] = json!(false);
                            }
                        }
                        M::Cw20(to, n) => mv(e, &from, to, "token", *n)?,
                    }
                }
            }
            Act::Members(l) => {
                let mut ws = e["weights"].as_object().unwrap().clone();
                for (u, n) in l {
                    ws.remove(*u);
                    if *n > 0 {
                        ws.insert(u.to_string(), json!(s(*n)));
                    }
                }
                e["total"] = json!(s(ws.values().map(as_u128).sum()));
                e["weights"] = Value::Object(ws);
            }
            Act::Distribute(l) => {
                let min = as_u128(&e["min_weight"]);
                let el: BTreeMap<String, u128> =
                    e["weights"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), as_u128(v))).filter(|x| x.1 >= min).collect();
                let tot: u128 = el.values().sum();
                for (i, n) in l {
                    if !strs(&e["assets"]).contains(&info(*i, w).to_string()) || tot == 0 {
                        return Err(());
                    }
                    mv(e, &d.treasury, &d.distributor, aname(*i), *n)?;
                    for (u, x) in &el {
                        let k = format!("{u}/{}", aname(*i));
                        assert_eq!(n * x % tot, 0, "scenario amounts must divide");
                        e["pending"][&k] = json!(s(as_u128(&e["pending"][&k]) + n * x / tot));
                    }
                }
            }
            Act::MinWeight(x) => e["min_weight"] = json!(s(*x)),
            Act::Upgrade(v) => {
                let cur = &e["version"];
                let c = (cur["major"].as_u64().unwrap(), cur["minor"].as_u64().unwrap(), cur["patch"].as_u64().unwrap());
                if *v <= c || !VERSIONS.contains(v) {
                    return Err(());
                }
                e["version"] = json!({"major":v.0,"minor":v.1,"patch":v.2});
            }
            Act::Remote(k, ch) => {
                if *ch != "chain-a" {
                    return Err(());
                }
                e["ibc"].as_array_mut().unwrap().push(json!({"to":"proxya","over":"channel-1","tell":"treasurya","msg":remote_msg(*k, w),"funds":[]}));
            }
            Act::Deploy(ch) => {
                if *ch == "chain-a" {
                    return Err(());
                }
                e["ibc"].as_array_mut().unwrap().push(json!({"to":format!("gproxy{ch}"),"over":"channel-1","create":1}));
            }
        }
        Ok(())
    }
}
const VERSIONS: [(u64, u64, u64); 3] = [(1, 0, 0), (1, 2, 1), (1, 3, 0)];

fn strs(v: &Value) -> BTreeSet<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn mv(e: &mut Value, from: &str, to: &str, a: &str, n: u128) -> Result<(), ()> {
    let (f, t) = (format!("{from}/{a}"), format!("{to}/{a}"));
    let have = as_u128(&e["balances"][&f]);
    if have < n {
        return Err(());
    }
    e["balances"][&f] = json!(s(have - n));
    let have = as_u128(&e["balances"][&t]);
    e["balances"][&t] = json!(s(have + n));
    Ok(())
}

/// first differing path between what is and what should be
pub fn diff(path: &str, got: &Value, want: &Value) -> Option<String> {
    match (got, want) {
        (Value::Object(a), Value::Object(b)) => {
            let keys: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
            keys.into_iter().find_map(|k| diff(&format!("{path}.{k}"), a.get(k).unwrap_or(&Value::Null), b.get(k).unwrap_or(&Value::Null)))
        }
        _ => (got != want).then(|| format!("{path} is {got}, expected {want}")),
    }
}

/// weights: usera 2, userb 1, userc 1; whitelisted: uluna, token; treasury 1000 of each asset,
/// controller and enterprise 50 uluna each; council userd for the safe action types.
pub fn world(kind: Kind, deposit: bool) -> World {
    let mut cfg = Cfg::new(kind);
    cfg.gov.early = true;
    cfg.gov.min_deposit = if deposit && kind != Kind::Multisig { Some(2) } else { None };
    cfg.council = Some(Council::new(
        &["userd"],
        "0.5",
        "0.5",
        Some(&["update_metadata", "update_asset_whitelist", "update_nft_whitelist", "upgrade_dao", "deploy_cross_chain_treasury"]),
    ));
    let mut w = World::base(&[]);
    w.kind = kind;
    cfg.assets = Some(vec![native("uluna"), cw20(&w.token)]);
    cfg.nfts = Some(vec!["oldnft".into()]);
    w.c.inst(ADMIN, code::SINK, &json!({}), None).unwrap();
    // the factory uses the newest version, so newer ones are registered after the creation
    w.d = w.create(&cfg).expect("DAO creation");
    for (i, v) in VERSIONS[1..].iter().enumerate() {
        let ver = w.versioning.clone();
        w.ex(ADMIN, &ver, json!({"add_version":{"version":version_info(*v, 2 + i as u64)}}), &[]).unwrap();
    }
    let t = w.d.treasury.clone();
    for d in DENOMS {
        w.c.mint(&t, d, 1000);
    }
    let (tok, g, e) = (w.token.clone(), w.d.controller.clone(), w.d.enterprise.clone());
    w.ex(ADMIN, &tok, json!({"mint":{"recipient":t,"amount":"1000"}}), &[]).unwrap();
    for a in [g, e] {
        w.c.mint(&a, "uluna", 50);
    }
    if kind != Kind::Multisig {
        w.stake("usera", 2).unwrap();
        w.stake("userb", 1).unwrap();
        w.stake("userc", 1).unwrap();
    }
    // a treasury on chain-a
    let (g, o) = (w.d.controller.clone(), w.d.outposts.clone());
    w.ex(&g, &o, super::access::deploy("chain-a"), &[]).unwrap();
    let from = super::outpost::derived("channel-1", "gproxychain-a");
    w.ex(&from, &o, super::outpost::callback(1, "proxya"), &[]).unwrap();
    w.ex(&from, &o, super::outpost::callback(2, "treasurya"), &[]).unwrap();
    w.c.outbox = Default::default();
    w.c.advance(1, 5);
    w
}
/// every action type with every shape of payload over a small universe
fn wide(kind: Kind) -> Vec<Act> {
    let mut v = vec![];
    // each entry untouched, added or removed; in both orders
    let nfts = ["oldnft", "newnft", "nft2", "nft3"];
    for k in 0..81usize {
        let (mut a, mut r) = (vec![], vec![]);
        for i in 0..4 {
            match k / 3usize.pow(i) % 3 {
                1 => a.push(i as usize),
                2 => r.push(i as usize),
                _ => {}
            }
        }
        let (mut ra, mut rr) = (a.clone(), r.clone());
        ra.reverse();
        rr.reverse();
        for (a, r) in [(a, r), (ra, rr)] {
            v.push(Act::Nfts(a.iter().map(|i| nfts[*i]).collect(), r.iter().map(|i| nfts[*i]).collect()));
            v.push(Act::Assets(a, r));
        }
    }
    // payments and distributions of every list of different assets, in every order
    let mut ls: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..4 {
        let to = ls.len();
        for k in from..to {
            for i in (0..4).filter(|i| !ls[k].contains(i)).collect::<Vec<_>>() {
                let mut l = ls[k].clone();
                l.push(i);
                ls.push(l);
            }
        }
        from = to;
    }
    for l in &ls {
        for (u, amt) in [("userd", 1), ("userb", 1000), ("userd", 1001)] {
            v.push(Act::Pay(u, l.iter().map(|i| (*i, if amt == 1 { 10 + *i as u128 } else { amt })).collect()));
        }
        v.push(Act::Distribute(l.iter().map(|i| (*i, SHARE * (1 + *i as u128))).collect()));
    }
    // messages, by each sender
    let ms = [M::Bank("userd", "uluna", 11), M::Sink(1, None), M::Sink(2, Some((13, "uluna"))), M::Bank("userb", "uluna", 29), M::Cw20("userd", 7), M::SinkFail];
    for c in 0..3 {
        for k in 0..6 + 36 + 216 {
            let l: Vec<M> = match k {
                0..=5 => vec![ms[k].clone()],
                6..=41 => vec![ms[(k - 6) / 6].clone(), ms[(k - 6) % 6].clone()],
                _ => vec![ms[(k - 42) / 36].clone(), ms[(k - 42) / 6 % 6].clone(), ms[(k - 42) % 6].clone()],
            };
            v.push(Act::Msgs(c, l));
        }
        v.push(Act::Msgs(c, vec![]));
        v.push(Act::Msgs(c, (0..12).map(|i| M::Sink(i, None)).collect()));
    }
    // metadata fields together
    let f = [("name", json!("n2")), ("description", json!("d2")), ("logo", json!({"url":"u2"})), ("github_username", json!("g2")), ("discord_username", json!("c2")), ("twitter_username", json!("t2")), ("telegram_username", json!("m2"))];
    for k in 0..128 {
        v.push(Act::Metas((0..7).filter(|i| k >> i & 1 == 1).map(|i| f[i].clone()).collect()));
    }
    // governance settings together
    let f = [("quorum", json!("0.45")), ("threshold", json!("0.65")), ("veto_threshold", json!("0.35")), ("voting_duration", json!("400")), ("unlocking_period", json!({"time":4000})), ("allow_early_proposal_execution", json!(false))];
    for k in 0..64 {
        v.push(Act::Govs((0..6).filter(|i| k >> i & 1 == 1).map(|i| f[i].clone()).collect()));
    }
    if kind == Kind::Multisig {
        for k in 0..256usize {
            let l: Vec<(&'static str, u128)> = (0..4).filter(|i| k >> (2 * i) & 3 > 0).map(|i| (["usera", "userb", "userc", "userd"][i], [0, 0, 1, 5][k >> (2 * i) & 3])).collect();
            let mut r = l.clone();
            r.reverse();
            v.push(Act::Members(l));
            v.push(Act::Members(r));
        }
    }
    v
}
fn clearing() -> Vec<Act> {
    let mut v: Vec<Act> = ["description", "github_username", "discord_username", "twitter_username", "telegram_username"].iter().map(|k| Act::Meta(k, Value::Null)).collect();
    v.push(Act::Meta("logo", json!("none")));
    v.push(Act::Meta("description", json!("")));
    v
}
fn good(kind: Kind) -> Vec<Act> {
    let mut v = vec![
        Act::Meta("name", json!("renamed")),
        Act::Meta("description", json!("words")),
        Act::Meta("logo", json!({"url":"http://x"})),
        Act::Meta("github_username", json!("gh")),
        Act::Meta("discord_username", json!("dc")),
        Act::Meta("twitter_username", json!("tw")),
        Act::Meta("telegram_username", json!("tg")),
        Act::Gov("quorum", json!("0.4")),
        Act::Gov("threshold", json!("0.6")),
        Act::Gov("veto_threshold", json!("0.35")),
        Act::Gov("voting_duration", json!("1500")),
        Act::Gov("voting_duration", json!("500")),
        Act::Gov("unlocking_period", json!({"time":1200})),
        Act::Gov("unlocking_period", json!({"height":7})),
        Act::Gov("allow_early_proposal_execution", json!(false)),
        Act::GovBoth(700, 800),
        Act::Council(Some(0)),
        Act::Council(Some(1)),
        Act::Council(None),
        Act::Assets(vec![2, 1], vec![0]),
        Act::Assets(vec![0], vec![3, 2]),
        Act::Nfts(vec!["newnft"], vec!["oldnft"]),
        Act::Nfts(vec!["oldnft", "nft2"], vec![]),
        Act::Pay("userd", vec![(0, 300), (3, 20)]),
        Act::Pay("userb", vec![(1, 700), (2, 1)]),
        Act::Msgs(0, vec![M::Bank("userc", "uluna", 30), M::Sink(1, None)]),
        Act::Msgs(1, vec![M::Sink(2, Some((400, "uluna"))), M::Cw20("userd", 900)]),
        Act::Msgs(2, vec![M::Sink(3, Some((30, "uluna"))), M::Bank("userb", "uluna", 5)]),
        Act::Msgs(0, vec![M::SetAttestation("be nice")]),
        Act::Msgs(0, vec![M::RemoveAttestation, M::Sink(4, None)]),
        Act::Distribute(vec![(0, SHARE)]),
        Act::Distribute(vec![(0, 2 * SHARE), (3, SHARE)]),
        Act::Distribute(vec![(2, SHARE)]),
        Act::MinWeight(2),
        Act::MinWeight(1),
        Act::Upgrade((1, 2, 1)),
        Act::Upgrade((1, 3, 0)),
    ];
    if kind == Kind::Multisig {
        v.push(Act::Members(vec![("userb", 2), ("userd", 1), ("userc", 0)]));
        v.push(Act::Members(vec![("userc", 3)]));
    } else {
        v.push(Act::Gov("minimum_deposit", json!("4")));
    }
    v.extend((0..4).map(|k| Act::Remote(k, "chain-a")));
    v.push(Act::Deploy("chain-c"));
    v
}
/// actions that are accepted in a proposal but cannot be carried out
fn failing() -> Vec<Act> {
    vec![
        Act::Pay("userd", vec![(0, 1001)]),
        Act::Pay("userd", vec![(0, 5), (3, 1001)]),
        Act::Msgs(0, vec![M::SinkFail]),
        Act::Msgs(0, vec![M::Sink(7, None), M::Bank("userd", "uluna", 51)]),
        Act::Msgs(1, vec![M::Sink(8, Some((10, "uluna"))), M::SinkFail]),
        Act::Msgs(2, vec![M::Bank("userd", "uluna", 9), M::SinkFail]),
        Act::Msgs(2, vec![M::SetAttestation("x")]),
        Act::Distribute(vec![(0, SHARE), (1, SHARE)]),
        Act::Distribute(vec![(3, SHARE), (0, 2000)]),
        Act::Upgrade((1, 2, 5)),
        Act::Upgrade((9, 0, 0)),
        Act::Gov("unlocking_period", json!({"time":5})),
        Act::Remote(0, "chain-b"),
        Act::Remote(1, "chain-b"),
        Act::Remote(2, "chain-b"),
        Act::Remote(3, "chain-c"),
        Act::Deploy("chain-a"),
    ]
}

/// carries out the proposal and compares with what the actions say
fn run_one(w: &mut World, acts: &[Act], council: bool) -> Chk<bool> {
    let js: Vec<Value> = acts.iter().map(|a| a.json(w)).collect();
    let before = snapshot(w);
    let mut want = before.clone();
    let before_weights = before["weights"].clone();
    let ok = acts.iter().all(|a| a.apply(w, &mut want).is_ok());
    if !ok {
        want = before;
    }
    let id = if council {
        let id = w.propose_council("userd", js).map_err(|e| v("proposal", format!("council proposal refused: {e}")))?;
        w.council_vote("userd", id, "yes").map_err(|e| v("vote", format!("vote refused: {e}")))?;
        w.execute(MALLORY, id).map_err(|e| v("execute", format!("execution failed: {e}")))?;
        id
    } else {
        let us: Vec<&str> = USERS.iter().filter(|u| before_weights.get(**u).is_some()).copied().collect();
        w.enact_by(&us, js).map_err(|e| v("execute", format!("a passing proposal could not be executed: {e}")))?
    };
    let got = snapshot(w);
    if let Some(m) = diff("", &got, &want) {
        return viol(if ok { "effect" } else { "partial" }, format!("after executing {acts:?}{}: {m}", if ok { "" } else { " (which must have no effect)" }));
    }
    ensure!(w.proposal_status(id) == "executed", "status", "proposal {id} reported {}", w.proposal_status(id));
    Ok(ok)
}
fn v(sig: &str, m: String) -> Violation {
    Violation { sig: sig.into(), msg: m }
}

fn safe(a: &Act) -> bool {
    matches!(a, Act::Meta(..) | Act::Assets(..) | Act::Nfts(..) | Act::Upgrade(_) | Act::Remote(0 | 1, _) | Act::Deploy(_))
}

pub fn c29(ctx: &mut Ctx) {
    let worlds: Vec<World> = KINDS.iter().map(|k| world(*k, false)).collect();
    for (ki, kind) in KINDS.iter().enumerate() {
        let mut g = good(*kind);
        let ng = g.len();
        g.extend(failing());
        // taking back what an earlier action (or proposal) has set
        g.extend(clearing());
        let m = g.len();
        ctx.grid(
            &format!("{kind:?}: one or two actions"),
            m * (m + 1),
            |i| json!({"actions":pair(&g, m, i).iter().map(|a| format!("{a:?}")).collect::<Vec<_>>()}),
            |i| run_one(&mut worlds[ki].clone(), &pair(&g, m, i), false),
        );
        let sf: Vec<Act> = g.iter().filter(|a| safe(a)).cloned().collect();
        let ms = sf.len();
        ctx.grid(
            &format!("{kind:?}: council proposals, one or two actions"),
            ms * (ms + 1),
            |i| json!({"actions":pair(&sf, ms, i).iter().map(|a| format!("{a:?}")).collect::<Vec<_>>()}),
            |i| run_one(&mut worlds[ki].clone(), &pair(&sf, ms, i), true),
        );
        // three actions: all triples of a representative (quick) or full alphabet
        let rep: Vec<Act> = if ctx.thorough {
            g[..ng].to_vec()
        } else {
            [0, 10, 12, 16, 18, 19, 21, 23, 26, 30, 32, 33, 35].iter().map(|i| g[*i].clone()).chain(g[37..ng].iter().cloned()).collect()
        };
        let r = rep.len();
        ctx.grid(
            &format!("{kind:?}: three actions"),
            r * r * r,
            |i| json!({"actions":[format!("{:?}",rep[i/(r*r)]),format!("{:?}",rep[i/r%r]),format!("{:?}",rep[i%r])]}),
            |i| run_one(&mut worlds[ki].clone(), &[rep[i / (r * r)].clone(), rep[i / r % r].clone(), rep[i % r].clone()], false),
        );
    }
    for (ki, kind) in KINDS.iter().enumerate() {
        let l = wide(*kind);
        ctx.grid(
            &format!("{kind:?}: one action, every shape of payload"),
            l.len(),
            |i| json!({"actions":[format!("{:?}", l[i])]}),
            |i| run_one(&mut worlds[ki].clone(), &[l[i].clone()], false),
        );
    }
    for kind in [Kind::Token, Kind::Multisig] {
        ctx.explore(&Hist(kind), ctx.q(3, 4));
    }
}
fn pair(g: &[Act], m: usize, i: usize) -> Vec<Act> {
    if i < m {
        vec![g[i].clone()]
    } else {
        let i = i - m;
        vec![g[i / m].clone(), g[i % m].clone()]
    }
}

/// sequences of executed proposals, each compared with its stated effect
struct Hist(Kind);
impl Model for Hist {
    type S = World;
    type A = Act;
    fn name(&self) -> String {
        format!("{:?}: sequences of executed proposals", self.0)
    }
    fn init(&self) -> Vec<World> {
        vec![world(self.0, false)]
    }
    fn actions(&self, _: &World) -> Vec<Act> {
        let g = good(self.0);
        [0, 3, 10, 12, 16, 18, 19, 20, 21, 23, 26, 27, 30, 31, 32, 33, 36].iter().map(|i| g[*i].clone()).chain(g[37..].iter().filter(|a| !matches!(a, Act::Gov(..))).cloned()).chain([failing()[4].clone(), Act::Meta("github_username", Value::Null)]).collect()
    }
    fn step(&self, s: &mut World, a: &Act) -> Chk<Step> {
        let js = a.json(s);
        let mut now = snapshot(s);
        if matches!(a, Act::Upgrade(_)) && a.apply(s, &mut now).is_err() && s.clone().propose("usera", vec![js]).is_err() {
            return Ok(Step::Rejected);
        }
        run_one(s, &[a.clone()], false)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &World, h: &mut dyn std::hash::Hasher) {
        h_chain(&s.c, h);
    }
}

// ---- C10 ----

/// Storage of every contract except the controller and governance (which record the vote and the
/// execution) and the token and NFT contracts (which move the deposit); the bank; code and admins.
fn rest(w: &World) -> BTreeMap<String, u64> {
    use std::hash::{Hash, Hasher};
    let mut o = BTreeMap::new();
    for (a, c) in &w.c.contracts {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        c.code_id.hash(&mut h);
        c.admin.hash(&mut h);
        if ![&w.d.controller, &w.d.governance, &w.token, &w.nft].contains(&a) {
            c.store.hash(&mut h);
        }
        o.insert(a.clone(), h.finish());
    }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    w.c.outbox.hash(&mut h);
    w.c.migrations.hash(&mut h);
    o.insert("outbox".into(), h.finish());
    o
}

fn atomic(w: &mut World, acts: &[Act], council: bool, deposit: bool) -> Chk<bool> {
    let js: Vec<Value> = acts.iter().map(|a| a.json(w)).collect();
    let mut want = snapshot(w);
    let before = want.clone();
    let ok = acts.iter().all(|a| a.apply(w, &mut want).is_ok());
    let id = if council {
        w.propose_council("userd", js)
    } else if deposit {
        w.propose_deposit("userb", 2, None, js)
    } else {
        w.propose("userb", js)
    }
    .map_err(|e| v("proposal", format!("proposal refused: {e}")))?;
    let voter = if council { "userd" } else { "usera" };
    if council { w.council_vote(voter, id, "yes") } else { w.vote(voter, id, "yes") }.map_err(|e| v("vote", format!("vote refused: {e}")))?;
    w.c.advance(20, 100);
    let r0 = rest(w);
    w.execute(MALLORY, id).map_err(|e| v("execute", format!("a passed proposal could not be executed: {e}")))?;
    let got = snapshot(w);
    if let Some(m) = diff("", &got, if ok { &want } else { &before }) {
        return viol(if ok { "all" } else { "partial" }, format!("executing {acts:?} ({}): {m}", if ok { "all of which can be carried out" } else { "one of which fails, so none may take effect" }));
    }
    if !ok {
        let r1 = rest(w);
        for (k, x) in r1.iter() {
            ensure!(r0.get(k) == Some(x), "partial", "executing {acts:?} failed, but {k} changed");
        }
        ensure!(r0.len() == r1.len(), "partial", "executing {acts:?} failed, but contracts appeared or vanished");
    }
    ensure!(w.proposal_status(id) == "executed", "status", "proposal reported {}", w.proposal_status(id));
    // it cannot run again, now or later
    for dt in [0u64, 5, 1000] {
        w.c.advance(dt, dt);
        let mut w2 = w.clone();
        if w2.execute("usera", id).is_ok() {
            return viol("again", format!("proposal {acts:?} could be executed again after {dt} s"));
        }
    }
    Ok(!ok)
}

pub fn c10(ctx: &mut Ctx) {
    for kind in KINDS {
        let g: Vec<Act> = good(kind);
        let f = failing();
        let worlds = [world(kind, false), world(kind, true)];
        // a failing action alone, and before / after each good one; with and without deposit
        let (ng, nf) = (g.len(), f.len());
        let n = (nf + 2 * nf * ng) * 2;
        let build = |i: usize| -> (Vec<Act>, bool) {
            let (dep, i) = (i % 2 == 1, i / 2);
            if i < nf {
                return (vec![f[i].clone()], dep);
            }
            let i = i - nf;
            let (a, b) = (f[i / 2 % nf].clone(), g[i / (2 * nf)].clone());
            (if i % 2 == 0 { vec![a, b] } else { vec![b, a] }, dep)
        };
        ctx.grid(
            &format!("{kind:?}: a failing action among others"),
            n,
            |i| json!({"actions":build(i).0.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>(),"deposit":build(i).1}),
            |i| {
                let (a, d) = build(i);
                if d && kind == Kind::Multisig {
                    return Ok(false);
                }
                atomic(&mut worlds[d as usize].clone(), &a, false, d)
            },
        );
        // good ones on both sides of the failing one
        let rep: Vec<Act> = if ctx.thorough { g.clone() } else { [0, 8, 13, 16, 19, 21, 23, 26, 28, 30, 33, 35, 37].iter().map(|i| g[*i].clone()).collect() };
        let r = rep.len();
        ctx.grid(
            &format!("{kind:?}: a failing action between others"),
            r * r * nf,
            |i| json!({"actions":[format!("{:?}",rep[i/nf/r]),format!("{:?}",f[i%nf]),format!("{:?}",rep[i/nf%r])]}),
            |i| atomic(&mut worlds[0].clone(), &[rep[i / nf / r].clone(), f[i % nf].clone(), rep[i / nf % r].clone()], false, false),
        );
        // council proposals
        let sf: Vec<Act> = g.iter().filter(|a| safe(a)).cloned().collect();
        let cf: Vec<Act> = f.iter().filter(|a| safe(a)).cloned().collect();
        ctx.grid(
            &format!("{kind:?}: council proposals with a failing action"),
            sf.len() * cf.len() * 2,
            |i| json!({"i":i}),
            |i| {
                let (a, b) = (sf[i / 2 / cf.len()].clone(), cf[i / 2 % cf.len()].clone());
                atomic(&mut worlds[0].clone(), &if i % 2 == 0 { [a, b] } else { [b, a] }, true, false)
            },
        );
    }
    let _ = coin;
}

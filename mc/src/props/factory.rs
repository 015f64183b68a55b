//! C24: DAO creation through the factory. Every combination of membership kind and optional
//! features is created and inspected component by component; every sequence of creations (valid
//! and invalid) up to a depth is checked for independence and for leaving nothing behind on failure.
use crate::ensure;
use crate::explore::*;
use crate::sim::{code, coin};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hasher;

#[derive(Clone, Debug)]
pub struct Spec {
    mem: usize,
    council: usize,
    att: bool,
    min: bool,
    wl: bool,
    xc: usize,
    old_version: bool,
    blocks: bool,
    early: bool,
}
const MEMS: usize = 16;

fn unlocking(s: &Spec) -> Value {
    if s.blocks {
        json!({"height":7})
    } else {
        json!({"time":1000})
    }
}

/// infrastructure: two registered versions, imported multisigs, an ICS721 bridge, factory funds
struct Base {
    w: World,
    cw3: Vec<String>,
    proxy: String,
}
fn voters(n: usize) -> Vec<(String, u128)> {
    match n {
        0 => vec![("usera".into(), 3)],
        1 => vec![("usera".into(), 2), ("userb".into(), 0), ("userc".into(), 4)],
        // more than one page of the multisig's voter list
        _ => (0..67).map(|i| (format!("voter{i:02}"), 1 + i % 3)).collect(),
    }
}
fn base() -> Base {
    let mut w = World::base(&[native("uglobal")]);
    let v = w.versioning.clone();
    w.ex(ADMIN, &v, json!({"add_version":{"version":version_info((1,1,0),2)}}), &[]).unwrap();
    let f = w.factory.clone();
    w.c.mint(&f, "uluna", 50);
    let cw3 = (0..3)
        .map(|i| {
            let l: Vec<Value> = voters(i).iter().map(|(u, x)| json!([u, *x as u64])).collect();
            w.c.inst(ADMIN, code::CW3, &json!({ "voters": l }), None).unwrap()
        })
        .collect();
    let proxy = w.c.inst(ADMIN, code::ICS721_PROXY, &json!({}), None).unwrap();
    Base { w, cw3, proxy }
}

fn members(mem: usize) -> Vec<(String, u128)> {
    match mem {
        11 => voters(0),
        12 => voters(1),
        13 => voters(2),
        14 => vec![("usera".into(), 5)],
        15 => vec![("usera".into(), 3), ("userb".into(), 1), ("userc".into(), 2)],
        _ => vec![],
    }
}
fn kind(mem: usize) -> Kind {
    match mem {
        0 => Kind::Denom,
        1..=5 => Kind::Token,
        6..=10 => Kind::Nft,
        _ => Kind::Multisig,
    }
}

fn membership(b: &Base, s: &Spec) -> Value {
    let u = unlocking(s);
    let new20 = |dao: Option<u128>, mint: Option<&str>, bal: &[(&str, u128)], owner: Option<&str>| {
        json!({"new_cw20":{"token_name":"daotoken","token_symbol":"DTK","token_decimals":6,
            "initial_token_balances":bal.iter().map(|(a,x)| json!({"address":a,"amount":x.to_string()})).collect::<Vec<_>>(),
            "initial_dao_balance":dao.map(|x| x.to_string()),
            "token_mint":mint.map(|m| json!({"minter":m,"cap":"5000"})),
            "token_marketing":owner.map(|o| json!({"project":"p","description":"d","marketing_owner":o,"logo_url":null})),
            "unlocking_period":u}})
    };
    match s.mem {
        0 => json!({"new_denom":{"denom":DENOM,"unlocking_period":u}}),
        1 => json!({"import_cw20":{"cw20_contract":b.w.token,"unlocking_period":u}}),
        2 => new20(None, None, &[("usera", 100), ("userb", 40)], None),
        3 => new20(Some(77), Some("minty"), &[("usera", 100)], Some("marko")),
        4 => new20(None, Some("minty"), &[], None),
        5 => new20(Some(77), None, &[("usera", 100)], None),
        6 => json!({"import_cw721":{"cw721_contract":b.w.nft,"unlocking_period":u}}),
        7 => json!({"new_cw721":{"nft_name":"daonft","nft_symbol":"DNF","minter":null,"unlocking_period":u}}),
        8 => json!({"new_cw721":{"nft_name":"daonft","nft_symbol":"DNF","minter":"minty","unlocking_period":u}}),
        9 => json!({"new_ics721":{"ics721_proxy":b.proxy,"class_id":"class/one","unlocking_period":u}}),
        10 => json!({"new_ics721":{"ics721_proxy":b.proxy,"class_id":"class/two","unlocking_period":u}}),
        11..=13 => json!({"import_cw3":{"cw3_contract":b.cw3[s.mem - 11]}}),
        _ => json!({"new_multisig":{"multisig_members":members(s.mem).iter().map(|(u,x)| json!({"user":u,"weight":x.to_string()})).collect::<Vec<_>>()}}),
    }
}

fn council(s: &Spec) -> Option<Value> {
    match s.council {
        0 => None,
        1 => Some(json!({"members":["userd"],"quorum":"0.6","threshold":"0.7","allowed_proposal_action_types":null})),
        _ => Some(json!({"members":["userc","userd","usera"],"quorum":"0.2","threshold":"0.55","allowed_proposal_action_types":["update_nft_whitelist","update_metadata"]})),
    }
}
fn gov(s: &Spec) -> Value {
    json!({"quorum":"0.31","threshold":"0.52","veto_threshold":if s.att {json!("0.33")} else {Value::Null},"vote_duration":if s.min {900} else {1000},
        "minimum_deposit":Value::Null,"allow_early_proposal_execution":s.early})
}
fn meta(s: &Spec) -> Value {
    json!({"name":format!("dao{}", s.mem),"description":if s.wl {json!("what it does")} else {Value::Null},"logo":if s.att {json!({"url":"http://logo"})} else {json!("none")},
        "socials":{"github_username":"gh","discord_username":null,"twitter_username":"tw","telegram_username":null}})
}
fn xchain(i: usize) -> Value {
    json!({"cross_chain_msg_spec":{"chain_id":format!("chain-{i}"),"chain_bech32_prefix":"juno","src_ibc_port":"transfer","src_ibc_channel":format!("channel-{i}"),
        "dest_ibc_port":"transfer","dest_ibc_channel":format!("channel-9{i}"),"uluna_denom":"ibc/LUNA","timeout_nanos":null},
        "asset_whitelist":null,"nft_whitelist":null,"ics_proxy_code_id":5,"enterprise_treasury_code_id":6,"chain_global_proxy":format!("globalproxy{i}")})
}
fn assets(w: &World, s: &Spec) -> Vec<Value> {
    if s.wl {
        vec![native("uluna"), native("uother"), cw20(&w.token)]
    } else {
        vec![]
    }
}
fn create_msg(b: &Base, s: &Spec) -> Value {
    let m = json!({"dao_metadata":meta(s),"gov_config":gov(s),"dao_council":council(s),"dao_membership":membership(b,s),
        "asset_whitelist":if s.wl {json!(assets(&b.w,s))} else {Value::Null},
        "nft_whitelist":if s.wl {json!([b.w.nft])} else {Value::Null},
        "minimum_weight_for_rewards":if s.min {json!("3")} else {Value::Null},
        "cross_chain_treasuries":if s.xc > 0 {json!((0..s.xc).map(xchain).collect::<Vec<_>>())} else {Value::Null},
        "attestation_text":if s.att {json!("be nice")} else {Value::Null}});
    if s.old_version {
        json!({"create_dao_with_version":{"version":{"major":1,"minor":0,"patch":0},"create_dao_msg":m}})
    } else {
        json!({ "create_dao": m })
    }
}

#[derive(Clone)]
struct Made {
    spec: Spec,
    d: Dao,
    at: u64,
    id: u64,
}

fn daos(w: &mut World) -> Vec<(u64, String)> {
    let f = w.factory.clone();
    let r = w.c.q(&f, &json!({"all_daos":{"start_after":null,"limit":100}})).unwrap();
    r["daos"].as_array().unwrap().iter().map(|x| (as_u128(&x["dao_id"]) as u64, x["dao_address"].as_str().unwrap().to_string())).collect()
}
/// finds a DAO's enterprise contract from its registered (treasury) address
fn locate(w: &mut World, treasury: &str) -> Chk<Dao> {
    let q = |w: &mut World, a: &str, m: Value| w.c.q(a, &m).map_err(|e| Violation { sig: "wiring".into(), msg: format!("{a}: {e}") });
    let admin = q(w, treasury, json!({"config":{}}))?["admin"].as_str().unwrap_or("").to_string();
    let ent = q(w, &admin, json!({"config":{}}))?["enterprise_contract"].as_str().unwrap_or("").to_string();
    w.dao_at(&ent).map_err(|e| Violation { sig: "wiring".into(), msg: e })
}

fn verify(b: &Base, w: &mut World, m: &Made) -> Chk {
    let (s, d) = (&m.spec, &m.d);
    let base = if s.old_version { 1 } else { 2 };
    let mut parts: Vec<(&str, String, u64)> = vec![
        ("enterprise", d.enterprise.clone(), code::ENTERPRISE),
        ("controller", d.controller.clone(), code::CONTROLLER),
        ("governance", d.governance.clone(), code::GOVERNANCE),
        ("council", d.council.clone(), code::MULTISIG_MEMBERSHIP),
        ("treasury", d.treasury.clone(), code::TREASURY),
        ("distributor", d.distributor.clone(), code::DISTRIBUTOR),
        ("outposts", d.outposts.clone(), code::OUTPOSTS),
        (
            "membership",
            d.membership.clone(),
            match kind(s.mem) {
                Kind::Denom => code::DENOM_MEMBERSHIP,
                Kind::Token => code::TOKEN_MEMBERSHIP,
                Kind::Nft => code::NFT_MEMBERSHIP,
                Kind::Multisig => code::MULTISIG_MEMBERSHIP,
            },
        ),
    ];
    if let Some(a) = &d.attestation {
        parts.push(("attestation", a.clone(), code::ATTESTATION));
    }
    ensure!(d.attestation.is_some() == s.att, "attestation", "attestation contract: {:?}", d.attestation);
    let set: BTreeSet<&String> = parts.iter().map(|p| &p.1).collect();
    ensure!(set.len() == parts.len(), "components", "components coincide: {parts:?}");
    for (n, a, k) in &parts {
        let Some(c) = w.c.contracts.get(a) else {
            return viol("components", format!("{n} {a} does not exist"));
        };
        ensure!(c.code_id == base * 100 + k, "code", "{n} runs code {} instead of {}", c.code_id, base * 100 + k);
        let ok = c.admin.as_deref() == Some(&d.enterprise) || (*n == "attestation" && c.admin.is_none());
        ensure!(ok, "admin", "{n} can be migrated by {:?}, not by the DAO {}", c.admin, d.enterprise);
    }
    let q = |w: &mut World, a: &str, msg: Value| w.c.q(a, &msg).map_err(|e| Violation { sig: "query".into(), msg: format!("{a} {msg}: {e}") });
    macro_rules! same {
        ($sig:expr, $a:expr, $b:expr) => {{
            let (x, y) = ($a, $b);
            ensure!(x == y, $sig, "{} is {}, expected {}", stringify!($a), x, y);
        }};
    }
    // the DAO itself
    let info = q(w, &d.enterprise, json!({"dao_info":{}}))?;
    same!("info", &info["metadata"], &meta(s));
    let ty = match kind(s.mem) {
        Kind::Denom => "denom",
        Kind::Token => "token",
        Kind::Nft => "nft",
        Kind::Multisig => "multisig",
    };
    same!("info", &info["dao_type"], &json!(ty));
    same!("info", &info["dao_version"], &json!({"major":1,"minor":base-1,"patch":0}));
    same!("info", &info["creation_date"], &json!(m.at.to_string()));
    let cc = q(w, &d.enterprise, json!({"component_contracts":{}}))?;
    same!("wiring", &cc["enterprise_factory_contract"], &json!(w.factory));
    // governance
    let gc = q(w, &d.controller, json!({"gov_config":{}}))?;
    same!("gov", &gc["gov_config"], &gov(s));
    same!("wiring", &gc["dao_membership_contract"], &json!(d.membership));
    same!("wiring", &gc["dao_council_membership_contract"], &json!(d.council));
    match council(s) {
        None => same!("council", &gc["council_gov_config"], &Value::Null),
        Some(c) => {
            let g = &gc["council_gov_config"];
            same!("council", &g["quorum"], &c["quorum"]);
            same!("council", &g["threshold"], &c["threshold"]);
            if !c["allowed_proposal_action_types"].is_null() {
                let st = |v: &Value| v.as_array().unwrap().iter().map(|x| x.to_string()).collect::<BTreeSet<_>>();
                ensure!(st(&g["allowed_proposal_action_types"]) == st(&c["allowed_proposal_action_types"]), "council", "{g}");
            }
        }
    }
    let want: BTreeMap<String, u128> =
        council(s).map(|c| c["members"].as_array().unwrap().iter().map(|x| (x.as_str().unwrap().to_string(), 1)).collect()).unwrap_or_default();
    ensure!(list_members(w, &d.council)? == want, "council", "council members are {:?}", list_members(w, &d.council)?);
    same!("wiring", &q(w, &d.council, json!({"config":{}}))?["enterprise_contract"], &json!(d.enterprise));
    same!("wiring", &q(w, &d.controller, json!({"config":{}}))?["enterprise_contract"], &json!(d.enterprise));
    // treasury
    same!("wiring", &q(w, &d.treasury, json!({"config":{}}))?["admin"], &json!(d.controller));
    let st = |v: &[Value]| v.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>();
    let aw = q(w, &d.treasury, json!({"asset_whitelist":{"start_after":null,"limit":100}}))?;
    ensure!(st(aw["assets"].as_array().unwrap()) == st(&assets(w, s)), "whitelist", "asset whitelist is {aw}");
    let nw = q(w, &d.treasury, json!({"nft_whitelist":{"start_after":null,"limit":100}}))?;
    same!("whitelist", &nw["nfts"], &if s.wl { json!([b.w.nft]) } else { json!([]) });
    // distributor
    same!("min-weight", &q(w, &d.distributor, json!({"minimum_eligible_weight":{}}))?["minimum_eligible_weight"], &json!(if s.min { "3" } else { "0" }));
    // attestation
    if let Some(a) = &d.attestation {
        same!("attestation", &q(w, a, json!({"attestation_text":{}}))?["text"], &json!("be nice"));
    }
    // membership
    let un = unlocking(s);
    match kind(s.mem) {
        Kind::Denom => {
            let c = q(w, &d.membership, json!({"denom_config":{}}))?;
            same!("wiring", &c["enterprise_contract"], &json!(d.enterprise));
            same!("membership", &c["denom"], &json!(DENOM));
            same!("membership", &c["unlocking_period"], &un);
        }
        Kind::Token => {
            let c = q(w, &d.membership, json!({"token_config":{}}))?;
            same!("wiring", &c["enterprise_contract"], &json!(d.enterprise));
            same!("membership", &c["unlocking_period"], &un);
            let t = c["token_contract"].as_str().unwrap().to_string();
            if s.mem == 1 {
                ensure!(t == w.token, "membership", "stakes {t}");
            } else {
                let con = w.c.contracts.get(&t).cloned();
                ensure!(con.is_some(), "membership", "token {t} does not exist");
                let con = con.unwrap();
                ensure!(con.code_id == code::CW20 && con.admin.as_deref() == Some(&d.enterprise), "token", "token runs {} under {:?}", con.code_id, con.admin);
                let ti = q(w, &t, json!({"token_info":{}}))?;
                let (dao, users): (u128, u128) = match s.mem {
                    2 => (0, 140),
                    3 | 5 => (77, 100),
                    _ => (0, 0),
                };
                ensure!(ti["name"] == "daotoken" && ti["symbol"] == "DTK" && ti["decimals"] == 6, "token", "{ti}");
                ensure!(as_u128(&ti["total_supply"]) == dao + users, "token", "{ti}");
                ensure!(w.cw20_bal(&t, &d.treasury) == dao, "token", "treasury holds {}", w.cw20_bal(&t, &d.treasury));
                let mi = q(w, &t, json!({"minter":{}}))?;
                let (mm, cap) = if s.mem == 3 || s.mem == 4 { ("minty".to_string(), json!("5000")) } else { (d.enterprise.clone(), Value::Null) };
                ensure!(mi["minter"] == json!(mm) && mi["cap"] == cap, "token", "minter {mi}");
                let mk = q(w, &t, json!({"marketing_info":{}}))?;
                ensure!(mk["marketing"] == json!(if s.mem == 3 { "marko".to_string() } else { d.enterprise.clone() }), "token", "marketing {mk}");
            }
        }
        Kind::Nft => {
            let c = q(w, &d.membership, json!({"nft_contract_config":{}}))?;
            same!("wiring", &c["enterprise_contract"], &json!(d.enterprise));
            same!("membership", &c["unlocking_period"], &un);
            match s.mem {
                6 => same!("membership", &c["nft_contract"], &json!({"cw721":{"contract":w.nft}})),
                9 => same!("membership", &c["nft_contract"], &json!({"ics721":{"contract":b.proxy,"class_id":"class/one"}})),
                10 => same!("membership", &c["nft_contract"], &json!({"ics721":{"contract":b.proxy,"class_id":"class/two"}})),
                _ => {
                    let t = c["nft_contract"]["cw721"]["contract"].as_str().unwrap_or("").to_string();
                    let Some(con) = w.c.contracts.get(&t).cloned() else { return viol("membership", format!("{c}")) };
                    ensure!(con.code_id == code::CW721 && con.admin.as_deref() == Some(&d.enterprise), "nft", "nft runs {} under {:?}", con.code_id, con.admin);
                    let i = q(w, &t, json!({"contract_info":{}}))?;
                    ensure!(i["name"] == "daonft" && i["symbol"] == "DNF", "nft", "{i}");
                    let mi = q(w, &t, json!({"minter":{}}))?;
                    ensure!(mi["minter"] == json!(if s.mem == 8 { "minty".to_string() } else { d.enterprise.clone() }), "nft", "minter {mi}");
                }
            }
        }
        Kind::Multisig => {
            same!("wiring", &q(w, &d.membership, json!({"config":{}}))?["enterprise_contract"], &json!(d.enterprise));
            let want: BTreeMap<String, u128> = members(s.mem).into_iter().filter(|x| x.1 > 0).collect();
            let got: BTreeMap<String, u128> = list_members(w, &d.membership)?.into_iter().filter(|x| x.1 > 0).collect();
            ensure!(got == want, "membership", "members are {got:?}");
            ensure!(w.total_at(&d.membership, json!({"never":{}})) == want.values().sum::<u128>(), "membership", "total weight");
        }
    }
    // listed exactly once, under its id
    let l = daos(w);
    let mine: Vec<&(u64, String)> = l.iter().filter(|x| x.1 == d.treasury).collect();
    ensure!(mine.len() == 1 && mine[0].0 == m.id, "listing", "DAO {} is listed as {mine:?}", m.id);
    Ok(())
}

fn list_members(w: &mut World, c: &str) -> Chk<BTreeMap<String, u128>> {
    let mut out = BTreeMap::new();
    let mut after = Value::Null;
    loop {
        let r = w.c.q(c, &json!({"members":{"start_after":after,"limit":100}})).map_err(|e| Violation { sig: "query".into(), msg: e })?;
        let l = r["members"].as_array().unwrap();
        if l.is_empty() {
            return Ok(out);
        }
        for x in l {
            out.insert(x["user"].as_str().unwrap().to_string(), as_u128(&x["weight"]));
        }
        after = l.last().unwrap()["user"].clone();
    }
}

/// every privileged message a component accepts from its DAO's own controller (or membership)
fn privileged(d: &Dao, k: Kind) -> Vec<(String, Value, &'static str)> {
    let mut v = vec![
        (d.treasury.clone(), json!({"update_nft_whitelist":{"add":["collection"],"remove":[]}}), "controller"),
        (d.treasury.clone(), json!({"spend":{"recipient":"mallory","assets":[]}}), "controller"),
        (d.distributor.clone(), json!({"update_minimum_eligible_weight":{"minimum_eligible_weight":"9"}}), "controller"),
        (d.distributor.clone(), json!({"update_user_weights":{"new_user_weights":[{"user":"mallory","weight":"5"}]}}), "controller"),
        (
            d.governance.clone(),
            json!({"create_poll":{"proposer":"usera","deposit_amount":"0","label":"l","description":"d","scheme":"coin_voting","ends_at":"9999999999000000000","quorum":"0.3","threshold":"0.5","veto_threshold":null}}),
            "controller",
        ),
        (d.council.clone(), json!({"set_members":{"new_members":[{"user":"mallory","weight":"1"}]}}), "controller"),
        (d.enterprise.clone(), json!({"set_attestation":{"attestation_text":"x"}}), "controller"),
        (d.enterprise.clone(), json!({"execute_msgs":{"msgs":[]}}), "controller"),
        (d.outposts.clone(), json!({"deploy_cross_chain_treasury":xchain(7)}), "controller"),
        (d.controller.clone(), json!({"weights_changed":{"weight_changes":[{"user":"usera","old_weight":"0","new_weight":"4"}]}}), "membership"),
        (d.controller.clone(), json!({"weights_changed":{"weight_changes":[]}}), "council"),
    ];
    v.push(match k {
        Kind::Multisig => (d.membership.clone(), json!({"update_members":{"update_members":[{"user":"mallory","weight":"1"}]}}), "controller"),
        _ => (d.membership.clone(), json!({"update_unlocking_period":{"new_unlocking_period":{"time":5000}}}), "controller"),
    });
    v
}

fn smoke(b: &Base, w0: &World, m: &Made, other: &Made) -> Chk {
    let (s, d) = (&m.spec, &m.d);
    // its own components obey its own controller and nobody else's
    for (to, msg, who) in privileged(d, kind(s.mem)) {
        let me = |d: &Dao| match who {
            "controller" => d.controller.clone(),
            "membership" => d.membership.clone(),
            _ => d.council.clone(),
        };
        let mut w = w0.clone();
        w.c.mint(&d.outposts, "uluna", 3);
        let r = w.ex(&me(d), &to, msg.clone(), &[]);
        ensure!(r.is_ok(), "obeys-own", "{to} refuses {msg} from its own {who}: {:?}", r.err());
        for x in [me(&other.d), w0.factory.clone(), "creator".to_string(), d.enterprise.clone(), other.d.enterprise.clone(), d.treasury.clone()] {
            let mut w = w0.clone();
            w.c.mint(&d.outposts, "uluna", 3);
            ensure!(w.ex(&x, &to, msg.clone(), &[]).is_err(), "obeys-other", "{to} accepts {msg} from {x}, which is not the DAO's {who}");
        }
    }
    // it works: somebody gets weight, a payment is proposed, voted, executed; rewards reach members
    let mut w = w0.clone();
    w.kind = kind(s.mem);
    w.d = d.clone();
    w.c.mint(&d.treasury, "uluna", 100);
    if let Some(a) = &d.attestation {
        for u in ["usera", "voter00"] {
            w.ex(u, a, json!({"sign_attestation":{}}), &[]).map_err(|e| Violation { sig: "usable".into(), msg: e })?;
        }
    }
    let e = |x: String| Violation { sig: "usable".into(), msg: format!("{:?}: {x}", m.spec) };
    match kind(s.mem) {
        Kind::Denom => {
            w.stake("usera", 10).map_err(e)?;
        }
        Kind::Token => {
            let t = w.c.q(&d.membership, &json!({"token_config":{}})).map_err(e)?["token_contract"].as_str().unwrap().to_string();
            if s.mem == 4 {
                w.ex("minty", &t, json!({"mint":{"recipient":"usera","amount":"100"}}), &[]).map_err(e)?;
            }
            w.ex("usera", &t, json!({"send":{"contract":d.membership,"amount":"10","msg":b64(&json!({"stake":{"user":"usera"}}))}}), &[]).map_err(e)?;
        }
        Kind::Nft => {
            let coll = match s.mem {
                6 => w.nft.clone(),
                9 | 10 => {
                    let n = w.nft.clone();
                    let class = if s.mem == 9 { "class/one" } else { "class/two" };
                    w.ex(ADMIN, &b.proxy, json!({"set":{"class":class,"addr":n}}), &[]).map_err(e)?;
                    n
                }
                _ => w.c.q(&d.membership, &json!({"nft_contract_config":{}})).map_err(e)?["nft_contract"]["cw721"]["contract"].as_str().unwrap().to_string(),
            };
            let ids: Vec<String> = if s.mem == 7 || s.mem == 8 {
                let who = if s.mem == 8 { "minty".to_string() } else { d.enterprise.clone() };
                for i in 0..3 {
                    w.ex(&who, &coll, json!({"mint":{"token_id":format!("n{i}"),"owner":"usera","token_uri":null,"extension":null}}), &[]).map_err(e)?;
                }
                (0..3).map(|i| format!("n{i}")).collect()
            } else {
                vec!["usera1".into(), "usera2".into(), "usera3".into()]
            };
            for id in ids {
                w.ex("usera", &coll, json!({"send_nft":{"contract":d.membership,"token_id":id,"msg":b64(&json!({"stake":{"user":"usera"}}))}}), &[]).map_err(e)?;
            }
        }
        Kind::Multisig => {}
    }
    let who = if s.mem == 13 { "voter00" } else { "usera" };
    let p = w.propose(who, vec![act_pay("payee", "uluna", 7)]).map_err(e)?;
    w.vote(who, p, "yes").map_err(e)?;
    if s.mem == 13 {
        for i in 1..60 {
            let u = format!("voter{i:02}");
            if let Some(a) = &d.attestation {
                w.ex(&u, a, json!({"sign_attestation":{}}), &[]).map_err(e)?;
            }
            w.vote(&u, p, "yes").map_err(e)?;
        }
    }
    w.c.advance(200, 1000);
    w.execute(who, p).map_err(e)?;
    // 3 of 9 in the three-member multisigs with usera at 2/6 passes the 31% quorum
    ensure!(w.c.bal("payee", "uluna") == 7, "usable", "{:?}: the passed payment was not made", m.spec);
    // rewards: everybody by weight, those under the minimum get nothing; non-listed assets refused
    let mem: Vec<(String, u128)> = if kind(s.mem) == Kind::Multisig { members(s.mem) } else { vec![("usera".into(), w.weight("usera"))] };
    let min = if s.min { 3 } else { 0 };
    let tot: u128 = mem.iter().map(|x| if x.1 >= min { x.1 } else { 0 }).sum();
    for (den, listed) in [("uluna", s.wl), ("uglobal", true), ("udao", false)] {
        w.c.mint(ADMIN, den, 1_000_000);
        let r = w.ex(ADMIN, &d.distributor, json!({"distribute_native":{}}), &[coin(tot.max(1) * 10, den)]);
        ensure!(r.is_ok() == (listed && tot > 0), "rewards", "{:?}: distribution of {den}: {:?}", m.spec, r.err());
        if r.is_ok() {
            for (u, x) in &mem {
                let r = w.c.q(&d.distributor, &json!({"user_rewards":{"user":u,"native_denoms":[den],"cw20_assets":[]}})).map_err(e)?;
                let got = as_u128(&r["native_rewards"][0]["amount"]);
                let want = if *x >= min { *x * 10 } else { 0 };
                ensure!(got == want, "rewards", "{:?}: {u} earns {got} of {den}, expected {want}", m.spec);
            }
        }
    }
    for u in ["userd", "creator"] {
        let r = w.c.q(&d.distributor, &json!({"user_rewards":{"user":u,"native_denoms":["uglobal"],"cw20_assets":[]}})).map_err(e)?;
        ensure!(as_u128(&r["native_rewards"][0]["amount"]) == 0, "rewards", "{u} earns without being a member");
    }
    Ok(())
}

fn create(b: &Base, w: &mut World, s: &Spec) -> Result<(), String> {
    let f = w.factory.clone();
    w.ex("creator", &f, create_msg(b, s), &[]).map(|_| ())
}

/// after a successful creation: exactly one new DAO, under the next id
fn register(w: &mut World, s: &Spec, before: &[(u64, String)]) -> Chk<Made> {
    let after = daos(w);
    ensure!(after.len() == before.len() + 1 && after[..before.len()] == *before, "listing", "DAO list went from {before:?} to {after:?}");
    let (id, t) = after.last().unwrap().clone();
    ensure!(before.last().map_or(true, |l| id == l.0 + 1), "listing", "ids are not consecutive: {after:?}");
    let d = locate(w, &t)?;
    ensure!(d.treasury == t, "wiring", "the DAO registered as {t} has treasury {}", d.treasury);
    Ok(Made { spec: s.clone(), d, at: w.c.nanos, id })
}

fn check_outbox(w: &World, before: usize, s: &Spec, d: &Dao) -> Chk {
    let new = &w.c.outbox[before..];
    ensure!(new.len() == s.xc, "cross-chain", "{} cross-chain messages for {} treasuries", new.len(), s.xc);
    for (i, m) in new.iter().enumerate() {
        let ok = super::outpost::decode(m).map_or(false, |x| x.from == d.outposts && x.receiver == format!("globalproxy{i}") && x.channel == format!("channel-{i}"));
        ensure!(ok, "cross-chain", "message {i} is {m}");
    }
    Ok(())
}

/// Changes that make a creation invalid
const BAD: usize = 22;
fn spoil(b: &Base, k: usize, m: &mut Value) -> &'static str {
    let ver = m.get("create_dao_with_version").is_some();
    if k == 0 {
        let inner = if ver { m["create_dao_with_version"]["create_dao_msg"].clone() } else { m["create_dao"].clone() };
        *m = json!({"create_dao_with_version":{"version":{"major":9,"minor":0,"patch":0},"create_dao_msg":inner}});
        return "unregistered version";
    }
    let c = if ver { &mut m["create_dao_with_version"]["create_dao_msg"] } else { &mut m["create_dao"] };
    let un = json!({"time":1000});
    match k {
        1 => c["gov_config"]["quorum"] = json!("1.01"),
        2 => c["gov_config"]["threshold"] = json!("0"),
        3 => c["gov_config"]["veto_threshold"] = json!("1.5"),
        4 => c["gov_config"]["vote_duration"] = json!(0),
        5 => c["dao_council"] = json!({"members":["userd","userd"],"quorum":"0.5","threshold":"0.5","allowed_proposal_action_types":null}),
        6 => c["dao_council"] = json!({"members":["userd"],"quorum":"0.5","threshold":"0.5","allowed_proposal_action_types":["update_gov_config"]}),
        7 => c["dao_council"] = json!({"members":["userd"],"quorum":"0","threshold":"0.5","allowed_proposal_action_types":null}),
        8 => c["dao_membership"] = json!({"new_multisig":{"multisig_members":[]}}),
        9 => c["dao_membership"] = json!({"new_multisig":{"multisig_members":[{"user":"usera","weight":"1"},{"user":"usera","weight":"2"}]}}),
        10 => c["dao_membership"] = json!({"import_cw20":{"cw20_contract":b.w.nft,"unlocking_period":un}}),
        11 => c["dao_membership"] = json!({"import_cw721":{"cw721_contract":b.w.token,"unlocking_period":un}}),
        12 => c["dao_membership"] = json!({"import_cw3":{"cw3_contract":b.w.token}}),
        13 => c["dao_membership"] = json!({"new_cw20":{"token_name":"daotoken","token_symbol":"DTK","token_decimals":6,"initial_token_balances":[],"initial_dao_balance":null,"token_mint":null,"token_marketing":null,"unlocking_period":un}}),
        14 => c["dao_membership"] = json!({"new_cw20":{"token_name":"daotoken","token_symbol":"DTK","token_decimals":6,"initial_token_balances":[{"address":"usera","amount":"0"}],"initial_dao_balance":null,"token_mint":null,"token_marketing":null,"unlocking_period":un}}),
        15 => c["dao_membership"] = json!({"new_cw20":{"token_name":"daotoken","token_symbol":"DTK","token_decimals":6,"initial_token_balances":[{"address":"usera","amount":"1"}],"initial_dao_balance":"0","token_mint":null,"token_marketing":null,"unlocking_period":un}}),
        16 => {
            c["gov_config"]["minimum_deposit"] = json!("5");
            c["dao_membership"] = json!({"new_multisig":{"multisig_members":[{"user":"usera","weight":"1"}]}});
        }
        17 => c["dao_membership"] = json!({"new_denom":{"denom":DENOM,"unlocking_period":{"time":10}}}),
        18 => c["dao_membership"] = json!({"import_cw20":{"cw20_contract":b.w.token,"unlocking_period":{"time":10}}}),
        19 => c["dao_membership"] = json!({"import_cw721":{"cw721_contract":b.w.nft,"unlocking_period":{"time":10}}}),
        20 => c["nft_whitelist"] = json!(["UPPER"]),
        21 => c["asset_whitelist"] = json!([{"cw20":"NOT valid"}]),
        _ => unreachable!(),
    }
    ["", "quorum over one", "zero threshold", "veto threshold over one", "zero vote duration", "duplicate council member", "forbidden council power",
     "zero council quorum", "no multisig members", "duplicate multisig member", "not a token", "not a collection", "not a multisig",
     "token nobody can hold", "zero initial balance", "zero initial treasury balance", "deposit in a multisig", "short unlocking (denom)",
     "short unlocking (token)", "short unlocking (nft)", "bad NFT whitelist", "bad asset whitelist"][k]
}

// ---- sequences of creations ----
#[derive(Clone)]
struct Seq {
    w: World,
    made: Vec<Made>,
    /// fingerprints of every contract's state, to be left alone by other creations
    stores: BTreeMap<String, u64>,
}
#[derive(Clone, Debug)]
enum A {
    New(usize),
    Bad(usize, usize),
}
struct M {
    b: Base,
    bads: Vec<usize>,
}
/// creations that differ in every optional feature
fn spec(i: usize) -> Spec {
    let f = |mem, council, att, min, wl, xc, old_version, blocks, early| Spec { mem, council, att, min, wl, xc, old_version, blocks, early };
    match i {
        0 => f(0, 0, false, false, false, 0, false, false, false),
        1 => f(15, 2, true, true, true, 2, true, true, true),
        2 => f(5, 1, false, true, false, 1, false, true, false),
        3 => f(8, 2, true, false, true, 0, true, false, true),
        4 => f(12, 0, false, false, true, 1, false, false, true),
        5 => f(9, 1, true, false, false, 0, false, true, false),
        _ => f(6, 0, false, true, true, 0, true, false, false),
    }
}
const SPECS: usize = 7;

fn fingerprint(w: &World, a: &str) -> u64 {
    use std::hash::Hash;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let c = &w.c.contracts[a];
    (c.code_id, &c.admin, &c.creator, &c.label).hash(&mut h);
    for (k, v) in c.store.iter() {
        k.hash(&mut h);
        v.hash(&mut h);
    }
    h.finish()
}

impl Model for M {
    type S = Seq;
    type A = A;
    fn name(&self) -> String {
        "sequences of creations".into()
    }
    fn init(&self) -> Vec<Seq> {
        let mut s = Seq { w: self.b.w.clone(), made: vec![], stores: BTreeMap::new() };
        s.stores = s.w.c.contracts.keys().map(|a| (a.clone(), fingerprint(&s.w, a))).collect();
        vec![s]
    }
    fn actions(&self, _: &Seq) -> Vec<A> {
        let mut v: Vec<A> = (0..SPECS).map(A::New).collect();
        for k in &self.bads {
            v.push(A::Bad(1, *k));
            v.push(A::Bad(2, *k));
        }
        v
    }
    fn step(&self, s: &mut Seq, a: &A) -> Chk<Step> {
        s.w.c.advance(1, 5);
        let before = daos(&mut s.w);
        match a {
            A::Bad(i, k) => {
                let mut m = create_msg(&self.b, &spec(*i));
                let what = spoil(&self.b, *k, &mut m);
                let d0 = s.w.c.digest();
                let f = s.w.factory.clone();
                let r = s.w.ex("creator", &f, m, &[]);
                ensure!(r.is_err(), "accepted-invalid", "a DAO with {what} was created");
                ensure!(s.w.c.digest() == d0, "leftovers", "a failed creation ({what}) changed the chain");
                // a failed creation must leave nothing that shows up in a later one
                for n in [0, 4] {
                    let mut t = s.clone();
                    let o = t.w.c.outbox.len();
                    create(&self.b, &mut t.w, &spec(n)).map_err(|e| Violation { sig: "create".into(), msg: e })?;
                    let m = register(&mut t.w, &spec(n), &before)?;
                    verify(&self.b, &mut t.w, &m)?;
                    check_outbox(&t.w, o, &m.spec, &m.d)?;
                }
                Ok(Step::Rejected)
            }
            A::New(i) => {
                let sp = spec(*i);
                let o = s.w.c.outbox.len();
                let luna = s.w.c.bal(&s.w.factory, "uluna");
                create(&self.b, &mut s.w, &sp).map_err(|e| Violation { sig: "create".into(), msg: e })?;
                let m = register(&mut s.w, &sp, &before)?;
                check_outbox(&s.w, o, &sp, &m.d)?;
                ensure!(s.w.c.bal(&s.w.factory, "uluna") + sp.xc as u128 == luna, "funds", "the factory paid {}", luna - s.w.c.bal(&s.w.factory, "uluna"));
                s.made.push(m);
                for m in &s.made {
                    verify(&self.b, &mut s.w, m)?;
                }
                let f = s.w.factory.clone();
                for (a, h) in &s.stores {
                    ensure!(*a == f || fingerprint(&s.w, a) == *h, "interference", "creating another DAO changed {a}");
                }
                s.stores = s.w.c.contracts.keys().map(|a| (a.clone(), fingerprint(&s.w, a))).collect();
                Ok(Step::Accepted)
            }
        }
    }
    fn hash(&self, s: &Seq, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
        for m in &s.made {
            h_into(&(m.spec.mem, &m.d.enterprise), h);
        }
    }
}

pub fn c24(ctx: &mut Ctx) {
    // 1. every combination of features, with another DAO already there
    let b = base();
    let dims = [MEMS, 3, 2, 2, 2, 3, 2, 2, 2];
    let n: usize = dims.iter().product();
    let at = |mut i: usize| {
        let mut v = vec![];
        for d in dims {
            v.push(i % d);
            i /= d;
        }
        Spec { mem: v[0], council: v[1], att: v[2] == 1, min: v[3] == 1, wl: v[4] == 1, xc: v[5], old_version: v[6] == 1, blocks: v[7] == 1, early: v[8] == 1 }
    };
    let mut w0 = b.w.clone();
    let so = spec(1);
    create(&b, &mut w0, &so).unwrap();
    let other = match register(&mut w0, &so, &[]) {
        Ok(m) => m,
        Err(v) => return ctx.grid("first DAO", 1, |_| json!(null), move |_| Err(v.clone())),
    };
    w0.c.advance(3, 15);
    let deep = true;
    ctx.grid(
        "every combination of features",
        n,
        |i| json!({"create": create_msg(&b, &at(i))}),
        |i| {
            let s = at(i);
            let mut w = w0.clone();
            let o = w.c.outbox.len();
            let before = daos(&mut w);
            let luna = w.c.bal(&w.factory, "uluna");
            create(&b, &mut w, &s).map_err(|e| Violation { sig: "create".into(), msg: format!("{s:?}: {e}") })?;
            let m = register(&mut w, &s, &before)?;
            verify(&b, &mut w, &m)?;
            check_outbox(&w, o, &s, &m.d)?;
            ensure!(w.c.bal(&w.factory, "uluna") + s.xc as u128 == luna, "funds", "the factory paid {}", luna - w.c.bal(&w.factory, "uluna"));
            if deep || !s.blocks && !s.early && s.xc == 0 {
                smoke(&b, &w, &m, &other)?;
            }
            Ok(true)
        },
    );
    // 2. every invalid variation of every kind of creation fails and leaves nothing
    let nb = BAD * SPECS;
    ctx.grid(
        "invalid creations",
        nb,
        |i| json!({"spec": i / BAD, "defect": i % BAD}),
        |i| {
            let mut m = create_msg(&b, &spec(i / BAD));
            let what = spoil(&b, i % BAD, &mut m);
            let mut w = w0.clone();
            let d0 = w.c.digest();
            let f = w.factory.clone();
            ensure!(w.ex("creator", &f, m, &[]).is_err(), "accepted-invalid", "a DAO with {what} was created");
            ensure!(w.c.digest() == d0, "leftovers", "a failed creation ({what}) changed the chain");
            Ok(true)
        },
    );
    // 3. sequences
    let bads = ctx.q(vec![8, 15, 19], (0..BAD).collect());
    let m = M { b: base(), bads };
    ctx.explore(&m, ctx.q(2, 4));
    // 4. long sequences: every rotation of all the kinds, twice over
    ctx.grid(
        "long sequences of creations",
        SPECS,
        |i| json!({"first": i}),
        |i| {
            let mut s = m.init().remove(0);
            for k in 0..2 * SPECS {
                m.step(&mut s, &A::New((i + k) % SPECS))?;
            }
            Ok(true)
        },
    );
    // 5. which code ids the factory acknowledges as DAOs
    ctx.grid(
        "acknowledged code ids",
        8,
        |i| json!({"recorded": i}),
        |i| {
            let mut w = b.w.clone();
            let rec = [7u64, 300, 1105];
            let f = w.factory.clone();
            for (k, id) in rec.iter().enumerate().filter(|x| i >> x.0 & 1 == 1) {
                let _ = k;
                let mut key = vec![0, 19];
                key.extend(b"enterprise_code_ids");
                key.extend(id.to_be_bytes());
                w.c.put(&f, key, b"null".to_vec());
            }
            let v = w.versioning.clone();
            let t = w.c.q(&v, &json!({"version":{"version":{"major":1,"minor":0,"patch":0}}})).unwrap()["version"]["enterprise_treasury_code_id"].as_u64().unwrap();
            for id in 0..1400u64 {
                let r = w.c.q(&f, &json!({"is_enterprise_code_id":{"code_id":id.to_string()}})).map_err(|e| Violation { sig: "code-id".into(), msg: e })?;
                let want = id == t || rec.iter().enumerate().any(|(k, x)| *x == id && i >> k & 1 == 1);
                ensure!(r["is_enterprise_code_id"] == json!(want), "code-id", "code {id} reported as a DAO's: {r}, expected {want}");
            }
            Ok(true)
        },
    );
}

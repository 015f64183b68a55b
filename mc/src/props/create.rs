//! C07: who may create proposals, with which deposit and which content.
use crate::ensure;
use crate::explore::*;
use crate::sim::{coin, Chain};
use crate::world::*;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
enum Pay {
    None,
    Coins(Vec<(u128, &'static str)>),
    Cw20(u128),
    OtherCw20(u128),
    Nfts(Vec<&'static str>),
}

fn pays() -> Vec<Pay> {
    let mut v = vec![Pay::None];
    for n in 1..=4 {
        v.push(Pay::Coins(vec![(n, DENOM)]));
        v.push(Pay::Cw20(n));
    }
    v.push(Pay::Coins(vec![(4, "uother")]));
    v.push(Pay::Coins(vec![(4, "uother"), (1, DENOM)]));
    v.push(Pay::Coins(vec![(1, DENOM), (4, "uother")]));
    v.push(Pay::OtherCw20(4));
    for l in [
        vec![],
        vec!["usera2"],
        vec!["usera2", "usera3"],
        vec!["usera2", "usera2"],
        vec!["usera2", "usera2", "usera3"],
        vec!["userb2"],
        vec!["userb2", "userb3"],
        vec!["userb2", "userb2"],
        vec!["userb2", "userb3", "userb2"],
        vec!["userc2"],
        vec!["userc2", "usera2"],
        vec!["userd2"],
        vec!["userd2", "userd3"],
        vec!["usera2", "userd2"],
        vec!["userd2", "userd2"],
        vec!["nosuch"],
    ] {
        v.push(Pay::Nfts(l));
    }
    v
}

const WHO: [&str; 4] = ["usera", "userb", "userc", MALLORY];

/// usera: member, userb: never a member, userc: a former member.
/// NFTs userX2, userX3 remain with their owners and are approved for the controller;
/// userd2, userd3 belong to userd, who approved `usera` and `userb` (and the controller) for them;
/// userc2 belongs to userc, whose approval for userd's NFTs has expired.
fn gate_world(kind: Kind, min: Option<u128>, att: u8) -> World {
    let mut cfg = Cfg::new(kind);
    cfg.gov.min_deposit = min;
    cfg.members = vec![("usera".into(), 2), ("userc".into(), 1)];
    if att > 0 {
        cfg.attestation = Some("be good".into());
    }
    let mut w = World::new(&cfg);
    let sign = |w: &mut World, u: &str| {
        let a = w.d.attestation.clone().unwrap();
        w.ex(u, &a, json!({"sign_attestation":{}}), &[]).unwrap();
    };
    if att > 0 {
        for u in ["usera", "userc"] {
            sign(&mut w, u);
        }
        if att == 2 {
            for u in ["userb", MALLORY] {
                sign(&mut w, u);
            }
        }
    }
    if kind == Kind::Multisig {
        w.update_members(&[("userc", 0)]).unwrap();
    } else {
        w.stake("usera", 1).unwrap();
        w.stake("userc", 1).unwrap();
        w.unstake("userc", 1).unwrap();
    }
    if att == 1 {
        // a new attestation nobody signed; the former member signed it
        let (g, e) = (w.d.controller.clone(), w.d.enterprise.clone());
        w.ex(&g, &e, json!({"set_attestation":{"attestation_text":"be better"}}), &[]).unwrap();
        let e = w.d.enterprise.clone();
        w.d = w.dao_at(&e).unwrap();
        sign(&mut w, "userc");
    }
    let (n, g) = (w.nft.clone(), w.d.controller.clone());
    for u in ["usera", "userb", "userc", "userd"] {
        for i in [2, 3] {
            let id = format!("{u}{i}");
            w.ex(u, &n, json!({"approve":{"spender":g,"token_id":id,"expires":null}}), &[]).unwrap();
            if u == "userd" {
                for s in ["usera", "userb"] {
                    w.ex(u, &n, json!({"approve":{"spender":s,"token_id":id,"expires":null}}), &[]).unwrap();
                }
                let until = (w.c.nanos + 3_000_000_000).to_string();
                w.ex(u, &n, json!({"approve":{"spender":"userc","token_id":id,"expires":{"at_time":until}}}), &[]).unwrap();
            }
        }
    }
    w.c.advance(1, 5);
    w
}

fn assets_of(w: &mut World, u: &str) -> (u128, u128, u128, Vec<String>) {
    let t = w.token.clone();
    (w.c.bal(u, DENOM), w.c.bal(u, "uother"), w.cw20_bal(&t, u), w.owned(u))
}

fn gates(ctx: &mut Ctx) {
    let mins = [None, Some(0), Some(1), Some(2), Some(3)];
    let mut worlds: Vec<(Kind, Option<u128>, u8, World, String)> = vec![];
    for k in KINDS {
        for m in mins {
            if k == Kind::Multisig && m.is_some() {
                continue;
            }
            for att in 0..3 {
                let mut w = gate_world(k, m, att);
                let other = {
                    let bal: Vec<Value> = WHO.iter().map(|u| json!({"address":u,"amount":"100"})).collect();
                    w.c.inst(ADMIN, crate::sim::code::CW20, &json!({"name":"token","symbol":"TOK","decimals":6,"initial_balances":bal,"mint":null,"marketing":null}), None).unwrap()
                };
                worlds.push((k, m, att, w, other));
            }
        }
    }
    let ps = pays();
    let owners = [None, Some("userd")];
    let n = worlds.len() * ps.len() * WHO.len() * owners.len();
    let pick = |i: usize| {
        let (wi, r) = (i / (ps.len() * WHO.len() * 2), i % (ps.len() * WHO.len() * 2));
        (&worlds[wi], &ps[r / (WHO.len() * 2)], WHO[(r / 2) % WHO.len()], owners[r % 2])
    };
    ctx.grid(
        "who may create, with which payment",
        n,
        |i| {
            let (w, p, u, o) = pick(i);
            json!({"kind":format!("{:?}",w.0),"minimum_deposit":w.1.map(|x|x.to_string()),"attestation":w.2,"pay":format!("{p:?}"),"who":u,"deposit_owner":o})
        },
        |i| {
            let ((kind, min, att, w0, other), pay, u, owner) = pick(i);
            let mut w = w0.clone();
            let acts = vec![act_pay("userd", "uluna", 3)];
            let mut p = proposal(acts.clone());
            if let Some(o) = owner {
                p["deposit_owner"] = json!(o);
            }
            let (g, t, nft) = (w.d.controller.clone(), w.token.clone(), w.nft.clone());
            let _ = nft;
            let before = assets_of(&mut w, u);
            let hook = |n: u128| json!({"send":{"contract":g,"amount":s(n),"msg":b64(&json!({"create_proposal":p}))}});
            let dig = w.c.digest();
            let r = match pay {
                Pay::None => w.ex(u, &g, json!({ "create_proposal": p }), &[]),
                Pay::Coins(c) => {
                    let f: Vec<_> = c.iter().map(|(n, d)| coin(*n, d)).collect();
                    w.ex(u, &g, json!({ "create_proposal": p }), &f)
                }
                Pay::Cw20(n) => w.ex(u, &t, hook(*n), &[]),
                Pay::OtherCw20(n) => w.ex(u, other, hook(*n), &[]),
                Pay::Nfts(l) => w.ex(u, &g, json!({"create_proposal_with_nft_deposit":{"create_proposal_msg":p,"deposit_tokens":l}}), &[]),
            };
            // what the rules say
            let weight = if u == "usera" { 1 } else { 0 };
            let restricted = match att {
                1 => u != "userc",
                _ => false,
            };
            let (valid, deposit): (bool, u128) = match pay {
                Pay::None => (true, 0),
                Pay::Coins(c) => (true, if *kind == Kind::Denom { c.iter().filter(|x| x.1 == DENOM).map(|x| x.0).sum() } else { 0 }),
                Pay::Cw20(n) => (*kind == Kind::Token, *n),
                Pay::OtherCw20(_) => (false, 0),
                Pay::Nfts(l) => {
                    let mut d = l.clone();
                    d.sort();
                    d.dedup();
                    let may = l.iter().all(|id| {
                        id.starts_with(u) && *id != "nosuch" || (id.starts_with("userd") && (u == "usera" || u == "userb"))
                    });
                    (*kind == Kind::Nft && d.len() == l.len() && may, l.len() as u128)
                }
            };
            let entitled = match min {
                None => weight > 0,
                Some(m) => deposit >= *m,
            };
            let ok = valid && entitled && !restricted;
            ensure!(r.is_ok() == ok, if ok { "creation-refused" } else { "creation-accepted" },
                "{kind:?} DAO, minimum deposit {min:?}, {u} paying {pay:?}: {:?}, expected {}", r.as_ref().map(|_| "accepted"), if ok { "accepted" } else { "refused" });
            if !ok {
                ensure!(w.c.digest() == dig, "refused-changed", "a refused creation changed the state");
                return Ok(true);
            }
            let id = pid(&r.unwrap()).unwrap();
            ensure!(id == 1, "id", "first proposal got id {id}");
            check_stored(&mut w, id, u, &p, "general")?;
            // the deposit is with the controller, taken from the payer
            let after = assets_of(&mut w, u);
            let held = assets_of(&mut w, &g);
            match pay {
                Pay::None => ensure!(before == after, "paid", "creating without payment changed {u}'s assets"),
                Pay::Coins(c) => {
                    let own: u128 = c.iter().filter(|x| x.1 == DENOM).map(|x| x.0).sum();
                    ensure!(before.0 - own == after.0 && held.0 == own, "paid", "{u} paid {} of {own}, controller holds {}", before.0 - after.0, held.0);
                }
                Pay::Cw20(n) => ensure!(before.2 - n == after.2 && held.2 == *n, "paid", "token deposit not taken exactly"),
                Pay::Nfts(l) => {
                    let mut l: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                    l.sort();
                    ensure!(held.3 == l, "paid", "controller holds NFTs {:?}, deposited {l:?}", held.3);
                }
                _ => {}
            }
            // a second one gets the next id and does not disturb the first
            if matches!(pay, Pay::None | Pay::Coins(_) | Pay::Cw20(_)) {
                let r2 = match pay {
                    Pay::Cw20(n) => w.ex(u, &t, hook(*n), &[]),
                    Pay::Coins(c) => {
                        let f: Vec<_> = c.iter().map(|(n, d)| coin(*n, d)).collect();
                        w.ex(u, &g, json!({ "create_proposal": p }), &f)
                    }
                    _ => w.ex(u, &g, json!({ "create_proposal": p }), &[]),
                };
                let id2 = r2.and_then(|x| pid(&x));
                ensure!(id2 == Ok(2), "id", "second proposal got id {id2:?}");
                check_stored(&mut w, 1, u, &p, "general")?;
                check_stored(&mut w, 2, u, &p, "general")?;
            }
            Ok(true)
        },
    );
}

/// the stored proposal is the submitted one, open, ending after the voting duration
pub fn check_stored(w: &mut World, id: u64, proposer: &str, p: &Value, ty: &str) -> Chk {
    let q = w.proposal(id);
    let st = &q["proposal"];
    ensure!(st["proposal_actions"] == p["proposal_actions"], "stored", "proposal {id} stored with actions {} instead of {}", st["proposal_actions"], p["proposal_actions"]);
    ensure!(st["title"] == p["title"] && st["description"].as_str() == Some(p["description"].as_str().unwrap_or("")), "stored", "title or description of proposal {id} altered: {st}");
    ensure!(st["proposer"] == json!(proposer) && st["id"] == json!(id), "stored", "proposal {id} by {proposer} stored as {st}");
    ensure!(st["proposal_type"] == json!(ty), "stored", "proposal {id} stored as type {}", st["proposal_type"]);
    ensure!(q["proposal_status"] == json!("in_progress"), "stored", "new proposal reported {}", q["proposal_status"]);
    ensure!(results(&q["results"]) == [0; 4], "stored", "new proposal has votes {}", q["results"]);
    Ok(())
}

// ---- content ----

pub fn nc_gov() -> Value {
    json!({"quorum":"no_change","threshold":"no_change","veto_threshold":"no_change","voting_duration":"no_change",
        "unlocking_period":"no_change","minimum_deposit":"no_change","allow_early_proposal_execution":"no_change"})
}
pub fn gov_change(k: &str, v: Value) -> Value {
    let mut g = nc_gov();
    g[k] = json!({ "change": v });
    json!({ "update_gov_config": g })
}
pub fn nc_meta() -> Value {
    json!({"name":"no_change","description":"no_change","logo":"no_change","github_username":"no_change",
        "discord_username":"no_change","twitter_username":"no_change","telegram_username":"no_change"})
}
pub fn meta_change(k: &str, v: Value) -> Value {
    let mut g = nc_meta();
    g[k] = json!({ "change": v });
    json!({ "update_metadata": g })
}
pub fn assets_action(add: Vec<Value>, remove: Vec<Value>, remote: Value) -> Value {
    json!({"update_asset_whitelist":{"remote_treasury_target":remote,"add":add,"remove":remove}})
}
pub fn nfts_action(add: &[&str], remove: &[&str], remote: Value) -> Value {
    json!({"update_nft_whitelist":{"remote_treasury_target":remote,"add":add,"remove":remove}})
}
pub fn msgs_action(kind: &str, msgs: &[String]) -> Value {
    let mut m = json!({"action_type":"x","msgs":msgs});
    if kind == "execute_treasury_msgs" {
        m["remote_treasury_target"] = Value::Null;
    }
    let mut o = serde_json::Map::new();
    o.insert(kind.to_string(), m);
    Value::Object(o)
}
pub fn bank_msg(to: &str, denom: &str, n: u128) -> String {
    json!({"bank":{"send":{"to_address":to,"amount":[{"denom":denom,"amount":s(n)}]}}}).to_string()
}
pub fn wasm_msg(to: &str, m: &Value, funds: &[(u128, &str)]) -> String {
    let f: Vec<Value> = funds.iter().map(|(n, d)| json!({"denom":d,"amount":s(*n)})).collect();
    json!({"wasm":{"execute":{"contract_addr":to,"msg":b64(m),"funds":f}}}).to_string()
}
pub fn members_action(l: &[(&str, u128)]) -> Value {
    let v: Vec<Value> = l.iter().map(|(u, w)| json!({"user":u,"weight":s(*w)})).collect();
    json!({"modify_multisig_membership":{"edit_members":v}})
}
pub fn council_action(c: Option<Value>) -> Value {
    json!({"update_council":{"dao_council":c}})
}
pub fn distribute_action(f: Vec<Value>) -> Value {
    json!({"distribute_funds":{"funds":f}})
}
pub fn funding(to: &str, a: Vec<Value>, remote: Value) -> Value {
    json!({"request_funding_from_dao":{"remote_treasury_target":remote,"recipient":to,"assets":a}})
}
pub fn asset(info: Value, n: u128) -> Value {
    json!({"info":info,"amount":s(n)})
}
pub fn cw1155(a: &str, id: &str) -> Value {
    json!({"cw1155":[a,id]})
}
pub fn upgrade_action(v: (u64, u64, u64)) -> Value {
    json!({"upgrade_dao":{"new_version":{"major":v.0,"minor":v.1,"patch":v.2},"migrate_msgs":[]}})
}
pub fn spec(chain: &str) -> Value {
    json!({"chain_id":chain,"chain_bech32_prefix":"juno","src_ibc_port":"transfer","src_ibc_channel":"channel-1",
        "dest_ibc_port":"transfer","dest_ibc_channel":"channel-2","uluna_denom":"ibc/uluna","timeout_nanos":null})
}
pub fn target(chain: &str) -> Value {
    json!({"cross_chain_msg_spec":spec(chain)})
}

const BAD: &str = "Not An Address";

/// (action, accepted in DAOs of that kind); DAO version is 1.0.0, quorum 0.3, threshold 0.5
fn contents(c: &World) -> Vec<(Value, Box<dyn Fn(Kind) -> bool + Sync + Send>)> {
    let mut v: Vec<(Value, Box<dyn Fn(Kind) -> bool + Sync + Send>)> = vec![];
    let mut add = |a: Value, ok: bool| v.push((a, Box::new(move |_| ok)));
    let t = c.token.as_str();
    let n = c.nft.as_str();
    add(meta_change("name", json!("x")), true);
    add(json!({ "update_metadata": nc_meta() }), true);
    // whitelists
    let elems = [native("uluna"), native("uother"), cw20(t), cw20(n), cw1155(t, "1"), cw1155(t, "2"), cw1155(n, "1")];
    for i in 0..elems.len() {
        for j in 0..elems.len() {
            // {i, j} on one side; i and j on opposite sides; a duplicate behind another entry
            add(assets_action(vec![elems[i].clone(), elems[j].clone()], vec![], Value::Null), i != j);
            add(assets_action(vec![], vec![elems[i].clone(), elems[j].clone()], Value::Null), i != j);
            add(assets_action(vec![elems[i].clone()], vec![elems[j].clone()], Value::Null), i != j);
            if i != j {
                add(assets_action(vec![elems[i].clone(), elems[j].clone()], vec![elems[j].clone()], Value::Null), false);
                add(assets_action(vec![elems[i].clone()], vec![elems[j].clone(), elems[i].clone()], Value::Null), false);
                add(assets_action(vec![elems[i].clone(), elems[j].clone(), elems[i].clone()], vec![], Value::Null), false);
                add(assets_action(vec![], vec![elems[i].clone(), elems[j].clone(), elems[i].clone()], Value::Null), false);
            }
        }
    }
    for bad in [cw20(BAD), cw1155(BAD, "1"), cw20("")] {
        for l in [vec![bad.clone()], vec![native("uluna"), bad.clone()]] {
            add(assets_action(l.clone(), vec![], Value::Null), false);
            add(assets_action(vec![], l, Value::Null), false);
        }
    }
    let ns = [t, n, "somenft"];
    for i in 0..3 {
        for j in 0..3 {
            add(nfts_action(&[ns[i], ns[j]], &[], Value::Null), i != j);
            add(nfts_action(&[], &[ns[i], ns[j]], Value::Null), i != j);
            add(nfts_action(&[ns[i]], &[ns[j]], Value::Null), i != j);
            if i != j {
                add(nfts_action(&[ns[i], ns[j], ns[i]], &[], Value::Null), false);
                add(nfts_action(&[ns[i], ns[j]], &[ns[j]], Value::Null), false);
            }
        }
    }
    for l in [&[BAD][..], &[n, BAD]] {
        add(nfts_action(l, &[], Value::Null), false);
        add(nfts_action(&[], l, Value::Null), false);
    }
    // versions
    for a in 0..3u64 {
        for b in 0..3u64 {
            for c in 0..3u64 {
                add(upgrade_action((a, b, c)), (a, b, c) > (1, 0, 0));
            }
        }
    }
    // messages
    for k in ["execute_msgs", "execute_treasury_msgs", "execute_enterprise_msgs"] {
        let good = bank_msg("userd", "uluna", 1);
        let good2 = wasm_msg(t, &json!({"x":{}}), &[]);
        for (l, ok) in [
            (vec![], true),
            (vec![good.clone()], true),
            (vec![good.clone(), good2.clone()], true),
            (vec!["{".to_string()], false),
            (vec!["".to_string()], false),
            (vec!["{\"nope\":{}}".to_string()], false),
            (vec![good.clone(), "{\"bank\":{\"send\":{}}}".to_string()], false),
            (vec!["junk".to_string(), good.clone()], false),
            (vec![good.clone(), good2.clone(), "junk".to_string()], false),
        ] {
            add(msgs_action(k, &l), ok);
        }
    }
    // council
    let cc = |m: &[&str], q: &str, t: &str, a: Option<&[&str]>| Some(Council::new(m, q, t, a).json());
    add(council_action(None), true);
    add(council_action(cc(&["usera", "userb"], "0.5", "0.5", None)), true);
    add(council_action(cc(&["usera", "usera"], "0.5", "0.5", None)), false);
    add(council_action(cc(&["usera", "userb", "usera"], "0.5", "0.5", None)), false);
    add(council_action(cc(&["usera", BAD], "0.5", "0.5", None)), false);
    add(council_action(cc(&["usera"], "0.5", "0.5", Some(&["update_metadata"]))), true);
    add(council_action(cc(&["usera"], "0.5", "0.5", Some(&["update_metadata", "update_gov_config"]))), false);
    for x in ["0", "0.000000000000000001", "0.5", "1", "1.000000000000000001", "2"] {
        let ok = x == "0.5" || x == "1" || x == "0.000000000000000001";
        add(council_action(cc(&["usera"], x, "0.5", None)), ok);
        add(council_action(cc(&["usera"], "0.5", x, None)), ok);
        add(gov_change("quorum", json!(x)), ok);
        add(gov_change("threshold", json!(x)), ok);
        add(gov_change("veto_threshold", json!(x)), ok);
    }
    add(gov_change("veto_threshold", Value::Null), true);
    add(gov_change("voting_duration", json!("0")), false);
    add(gov_change("voting_duration", json!("1")), true);
    add(gov_change("minimum_deposit", Value::Null), true);
    add(gov_change("allow_early_proposal_execution", json!(true)), true);
    // assets
    add(distribute_action(vec![asset(native("uluna"), 1), asset(cw20(t), 1)]), true);
    add(distribute_action(vec![asset(native("uluna"), 1), asset(cw20(BAD), 1)]), false);
    add(distribute_action(vec![asset(cw1155(t, "1"), 1)]), false);
    add(distribute_action(vec![asset(native("uluna"), 1), asset(cw1155(t, "1"), 1)]), false);
    add(funding("userd", vec![asset(native("uluna"), 1), asset(cw20(t), 1)], Value::Null), true);
    add(funding(BAD, vec![asset(native("uluna"), 1)], Value::Null), false);
    add(funding("userd", vec![asset(cw20(BAD), 1)], Value::Null), false);
    add(funding("userd", vec![asset(native("uluna"), 1), asset(cw1155(t, "1"), 1)], Value::Null), false);
    add(funding("userd", vec![asset(cw1155(t, "1"), 1)], Value::Null), false);
    add(json!({"update_minimum_weight_for_rewards":{"minimum_weight_for_rewards":"5"}}), true);
    // by DAO kind
    for (a, ok) in [
        (members_action(&[("usera", 1)]), true),
        (members_action(&[("usera", 1), ("userb", 0)]), true),
        (members_action(&[("usera", 1), ("usera", 2)]), false),
        (members_action(&[("usera", 1), ("userb", 1), ("usera", 1)]), false),
        (members_action(&[(BAD, 1)]), false),
        (members_action(&[]), true),
    ] {
        v.push((a, Box::new(move |k| ok && k == Kind::Multisig)));
    }
    v.push((gov_change("minimum_deposit", json!("1")), Box::new(|k| k != Kind::Multisig)));
    v
}

fn content(ctx: &mut Ctx) {
    let worlds: Vec<World> = KINDS
        .iter()
        .map(|k| {
            let mut cfg = Cfg::new(*k);
            cfg.council = Some(Council::new(&["userd"], "0.5", "0.5", Some(&["update_metadata"])));
            let mut w = World::new(&cfg);
            if *k != Kind::Multisig {
                w.stake("usera", 1).unwrap();
            }
            w
        })
        .collect();
    let cs: Vec<_> = KINDS.iter().enumerate().map(|(i, _)| contents(&worlds[i])).collect();
    let m = cs[0].len();
    // shapes: the action alone; after/before/between good ones; as last of ten
    let shapes = 4;
    let n = KINDS.len() * m * shapes;
    let pick = |i: usize| (i / (m * shapes), (i / shapes) % m, i % shapes);
    let build = |a: &Value, sh: usize| -> Vec<Value> {
        let g = meta_change("name", json!("fine"));
        match sh {
            0 => vec![a.clone()],
            1 => vec![g.clone(), a.clone()],
            2 => vec![a.clone(), g],
            _ => {
                let mut v = vec![g; 9];
                v.push(a.clone());
                v
            }
        }
    };
    ctx.grid(
        "content of proposals",
        n,
        |i| {
            let (k, c, sh) = pick(i);
            json!({"kind":format!("{:?}",KINDS[k]),"actions":build(&cs[k][c].0, sh)})
        },
        |i| {
            let (k, c, sh) = pick(i);
            let mut w = worlds[k].clone();
            let (a, ok) = &cs[k][c];
            let ok = ok(KINDS[k]);
            let p = proposal(build(a, sh));
            let g = w.d.controller.clone();
            let r = w.ex("usera", &g, json!({ "create_proposal": p }), &[]);
            ensure!(r.is_ok() == ok, if ok { "content-refused" } else { "content-accepted" },
                "{:?} DAO, proposal with {a} (shape {sh}): {:?}, expected {}", KINDS[k], r.as_ref().map(|_| "accepted"), if ok { "accepted" } else { "refused" });
            if let Ok(r) = r {
                let id = pid(&r).unwrap();
                check_stored(&mut w, id, "usera", &p, "general")?;
            }
            Ok(true)
        },
    );
    // number of actions, also for council proposals
    ctx.grid(
        "number of actions",
        KINDS.len() * 2 * 25,
        |i| json!({"kind":format!("{:?}",KINDS[i/50]),"council":i/25%2==1,"actions":i%25}),
        |i| {
            let (k, council, cnt) = (i / 50, i / 25 % 2 == 1, i % 25);
            let mut w = worlds[k].clone();
            let acts: Vec<Value> = (0..cnt).map(|j| meta_change("name", json!(format!("n{j}")))).collect();
            let mut p = proposal(acts);
            p["description"] = json!("some words");
            let g = w.d.controller.clone();
            let u = if council { "userd" } else { "usera" };
            let m = if council { json!({ "create_council_proposal": p }) } else { json!({ "create_proposal": p }) };
            let r = w.ex(u, &g, m, &[]);
            ensure!(r.is_ok() == (cnt <= 10), "action-count", "a proposal with {cnt} actions: {:?}", r.map(|_| "accepted"));
            if let Ok(r) = r {
                let id = pid(&r).unwrap();
                check_stored(&mut w, id, u, &p, if council { "council" } else { "general" })?;
            }
            Ok(true)
        },
    );
}

/// which earlier creations, of any type and by anyone, never changes what is stored or the numbering
struct Seq;
#[derive(Clone)]
struct SS {
    w: World,
    all: Vec<(Value, &'static str, &'static str, u64)>,
}
#[derive(Clone, Debug)]
enum SA {
    General(&'static str, u8),
    Council(&'static str, u8),
    Bad(u8),
    Wait,
}
impl Model for Seq {
    type S = SS;
    type A = SA;
    fn name(&self) -> String {
        "sequences of creations".into()
    }
    fn init(&self) -> Vec<SS> {
        let mut cfg = Cfg::new(Kind::Denom);
        cfg.council = Some(Council::new(&["usera", "userd"], "0.5", "0.5", Some(&["update_metadata"])));
        let mut w = World::new(&cfg);
        w.stake("usera", 1).unwrap();
        w.stake("userb", 1).unwrap();
        vec![SS { w, all: vec![] }]
    }
    fn actions(&self, _: &SS) -> Vec<SA> {
        vec![SA::General("usera", 0), SA::General("userb", 1), SA::General("userc", 0), SA::Council("usera", 0), SA::Council("userd", 1), SA::Council("userb", 0), SA::Bad(0), SA::Bad(1), SA::Wait]
    }
    fn step(&self, s: &mut SS, a: &SA) -> Chk<Step> {
        let mk = |t: &str, v: u8| json!({"title":format!("{t}{v}"),"description":if v == 0 { Value::Null } else { json!("d") },
            "proposal_actions":[meta_change("name", json!(format!("{t}{v}")))]});
        let g = s.w.d.controller.clone();
        let (r, p, u, ty, ok) = match a {
            SA::General(u, v) => {
                let p = mk("g", *v);
                (s.w.ex(u, &g, json!({ "create_proposal": p }), &[]), p, *u, "general", *u != "userc")
            }
            SA::Council(u, v) => {
                let p = mk("c", *v);
                (s.w.ex(u, &g, json!({ "create_council_proposal": p }), &[]), p, *u, "council", *u != "userb")
            }
            SA::Bad(0) => {
                let p = proposal(vec![upgrade_action((0, 1, 0))]);
                (s.w.ex("usera", &g, json!({ "create_proposal": p }), &[]), p, "usera", "general", false)
            }
            SA::Bad(_) => {
                let p = proposal(vec![gov_change("quorum", json!("0.1"))]);
                (s.w.ex("usera", &g, json!({ "create_council_proposal": p }), &[]), p, "usera", "council", false)
            }
            SA::Wait => {
                s.w.c.advance(200, 1000);
                return Ok(Step::Accepted);
            }
        };
        ensure!(r.is_ok() == ok, if ok { "creation-refused" } else { "creation-accepted" }, "{a:?}: {:?}", r.map(|_| "accepted"));
        if !ok {
            return Ok(Step::Rejected);
        }
        let id = pid(&r.unwrap()).unwrap();
        ensure!(id == s.all.len() as u64 + 1, "id", "proposal number {} got id {id}", s.all.len() + 1);
        s.all.push((p, u, ty, s.w.c.nanos));
        for (k, (p, u, ty, at)) in s.all.clone().into_iter().enumerate() {
            let q = s.w.proposal(k as u64 + 1);
            let st = &q["proposal"];
            ensure!(st["proposal_actions"] == p["proposal_actions"] && st["title"] == p["title"] && st["proposer"] == json!(u) && st["proposal_type"] == json!(ty),
                "stored", "proposal {} changed: {st}", k + 1);
            ensure!(st["expires"] == json!({"at_time":s_nanos(at + 1000 * 1_000_000_000)}) && st["started_at"] == json!(s_nanos(at)), "stored",
                "proposal {} created at {at} runs from {} to {}", k + 1, st["started_at"], st["expires"]);
        }
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &SS, h: &mut dyn std::hash::Hasher) {
        h_chain(&s.w.c, h);
    }
}
fn s_nanos(n: u64) -> String {
    n.to_string()
}

pub fn c07(ctx: &mut Ctx) {
    let _ = Chain::new;
    gates(ctx);
    content(ctx);
    ctx.explore(&Seq, ctx.q(4, 6));
}

//! C11: the matrix (privileged operation) x (caller), complete for each DAO kind and state.
use super::create::*;
use super::outpost::derived;
use crate::ensure;
use crate::explore::*;
use crate::sim::{code, coin};
use crate::world::*;
use cosmwasm_std::{Coin, CosmosMsg, WasmMsg};
use serde_json::{json, Value};

struct Op {
    name: String,
    to: String,
    msg: Value,
    funds: Vec<Coin>,
    /// who may do it
    who: Vec<String>,
    /// Some(code) = a code migration instead of an execution
    migrate: Option<u64>,
    /// whether the entitled must succeed (a variant may be pointless or invalid in the given state)
    sure: bool,
}

#[derive(Clone)]
struct Sys {
    w: World,
    other: Dao,
    /// general, passing, voting over
    ready: u64,
    /// general, open
    open: u64,
}

/// A DAO with members, stakes, rewards, claims, open and passed proposals, a deployed and a pending
/// cross-chain treasury; and a second DAO of the same kind over the same assets.
fn sys(kind: Kind, attest: bool) -> Sys {
    let mut cfg = Cfg::new(kind);
    cfg.council = Some(Council::new(&["userd", "usera"], "0.5", "0.5", Some(&["update_metadata"])));
    let mut w = World::base(&[native("uluna")]);
    w.kind = kind;
    cfg.assets = Some(vec![cw20(&w.token)]);
    if attest {
        cfg.attestation = Some("be good".into());
    }
    let other = w.create(&cfg).unwrap();
    w.d = w.create(&cfg).unwrap();
    for d in [other.clone(), w.d.clone()] {
        for den in ["uluna", DENOM, "uother"] {
            w.c.mint(&d.treasury, den, 1000);
            w.c.mint(&d.controller, den, 10);
        }
        w.c.mint(&d.outposts, "uluna", 100);
        let t = w.token.clone();
        w.ex(ADMIN, &t, json!({"mint":{"recipient":d.treasury,"amount":"1000"}}), &[]).unwrap();
        if let Some(a) = &d.attestation {
            for u in USERS {
                w.ex(u, a, json!({"sign_attestation":{}}), &[]).unwrap();
            }
        }
    }
    let v = w.versioning.clone();
    w.ex(ADMIN, &v, json!({"add_version":{"version":version_info((1,2,1),2)}}), &[]).unwrap();
    w.c.inst(ADMIN, code::SINK, &json!({}), None).unwrap();
    if kind != Kind::Multisig {
        w.stake("usera", 2).unwrap();
        w.stake("userb", 1).unwrap();
        if kind != Kind::Nft {
            w.stake("userc", 2).unwrap();
            w.unstake("userc", 1).unwrap();
        }
    }
    let ds = w.d.distributor.clone();
    w.ex(ADMIN, &ds, json!({"distribute_native":{}}), &[coin(120, "uluna")]).unwrap();
    let ready = w.propose("usera", vec![meta_change("name", json!("n"))]).unwrap();
    w.vote("usera", ready, "yes").unwrap();
    w.vote("userb", ready, "yes").unwrap();
    w.c.advance(200, 1000);
    let open = w.propose("usera", vec![meta_change("name", json!("m"))]).unwrap();
    w.vote("userb", open, "yes").unwrap();
    // chain-a deployed, chain-b awaiting the proxy's callback
    let (g, o) = (w.d.controller.clone(), w.d.outposts.clone());
    for ch in ["chain-a", "chain-b"] {
        w.ex(&g, &o, deploy(ch), &[]).unwrap();
    }
    w.ex(&derived("channel-1", "gproxychain-a"), &o, super::outpost::callback(1, "proxya"), &[]).unwrap();
    w.ex(&derived("channel-1", "gproxychain-a"), &o, super::outpost::callback(3, "treasurya"), &[]).unwrap();
    w.c.advance(1, 5);
    Sys { w, other, ready, open }
}
pub fn deploy(ch: &str) -> Value {
    json!({"deploy_cross_chain_treasury":{"cross_chain_msg_spec":spec(ch),"asset_whitelist":null,"nft_whitelist":null,
        "ics_proxy_code_id":1,"enterprise_treasury_code_id":2,"chain_global_proxy":format!("gproxy{ch}")}})
}

fn callers(s: &Sys) -> Vec<String> {
    let mut v: Vec<String> = USERS.iter().map(|x| x.to_string()).collect();
    v.extend([MALLORY.to_string(), ADMIN.to_string(), "creator".to_string()]);
    v.extend(s.w.c.contracts.keys().cloned());
    v.push(derived("channel-1", "gproxychain-b"));
    v.push(derived("channel-1", "gproxychain-a"));
    v.push(derived("channel-2", "gproxychain-b"));
    v.push("gproxychain-b".into());
    v.sort();
    v.dedup();
    v
}

fn ops(s: &Sys) -> Vec<Op> {
    let w = &s.w;
    let d = &w.d;
    let g = d.controller.clone();
    let mut o: Vec<Op> = vec![];
    let mut add = |name: &str, to: &str, msg: Value, who: &[&str]| {
        o.push(Op { name: name.into(), to: to.into(), msg, funds: vec![], who: who.iter().map(|x| x.to_string()).collect(), migrate: None, sure: true })
    };
    let sink = super::effects::sink_of(w);
    // enterprise
    add("metadata", &d.enterprise, meta_change("name", json!("x")), &[&g]);
    add("upgrade", &d.enterprise, upgrade_action((1, 2, 1)), &[&g]);
    add("attestation", &d.enterprise, json!({"set_attestation":{"attestation_text":"t"}}), &[&g]);
    add("no attestation", &d.enterprise, json!({"remove_attestation":{}}), &[&g]);
    add("enterprise messages", &d.enterprise, json!({"execute_msgs":{"msgs":[wasm_msg(&sink, &json!({"note":1}), &[])]}}), &[&g]);
    add("enterprise config", &d.enterprise, json!({"update_config":{"new_versioning_contract":{"change":w.nft},"new_factory_contract":"no_change"}}), &[&g]);
    add("enterprise factory", &d.enterprise, json!({"update_config":{"new_versioning_contract":"no_change","new_factory_contract":{"change":w.nft}}}), &[&g]);
    for me in [MALLORY, "usera"] {
        add(
            "finalize again",
            &d.enterprise,
            json!({"finalize_instantiation":{"enterprise_treasury_contract":me,"enterprise_governance_contract":me,"enterprise_governance_controller_contract":me,
            "enterprise_outposts_contract":me,"funds_distributor_contract":me,"membership_contract":me,"council_membership_contract":me,"attestation_contract":null}}),
            &[],
        );
    }
    // governance
    let ends = s_n(w.c.nanos + 1_000_000_000_000);
    add("create poll", &d.governance, json!({"create_poll":{"proposer":"usera","deposit_amount":"0","label":"label","description":"description here","scheme":"coin_voting","ends_at":ends,"quorum":"0.1","threshold":"0.5","veto_threshold":null}}), &[&g]);
    add("cast vote", &d.governance, json!({"cast_vote":{"poll_id":s_n(s.open),"outcome":"no","voter":"userb","amount":"9"}}), &[&g]);
    add("update votes", &d.governance, json!({"update_votes":{"voter":"userb","new_amount":"9"}}), &[&g]);
    add("end poll", &d.governance, json!({"end_poll":{"poll_id":s_n(s.ready),"maximum_available_votes":"5","error_if_already_ended":false,"allow_early_ending":false}}), &[&g]);
    // controller
    add("weights changed", &g, json!({"weights_changed":{"weight_changes":[{"user":"userb","old_weight":"1","new_weight":"0"}]}}), &[&d.membership, &d.council]);
    add("run actions", &g, json!({"execute_proposal_actions":{"proposal_id":s.open}}), &[&g]);
    add("run actions of the passed one", &g, json!({"execute_proposal_actions":{"proposal_id":s.ready}}), &[&g]);
    add("initial treasuries", &g, json!({"deploy_initial_cross_chain_treasuries":{}}), &[]);
    let token_only: Vec<&str> = if w.kind == Kind::Token { vec![&w.token] } else { vec![] };
    add("deposit hook", &g, json!({"receive":{"sender":"usera","amount":"5","msg":b64(&json!({"create_proposal":proposal(vec![])}))}}), &token_only);
    // outposts
    add("deploy", &d.outposts, deploy("chain-c"), &[&g]);
    add("command remote", &d.outposts, json!({"execute_cross_chain_treasury":{"msg":{"spend":{"recipient":"juno1x","assets":[]}},"treasury_target":target("chain-a")}}), &[&g]);
    add("callback", &d.outposts, super::outpost::callback(2, "proxyb"), &[&derived("channel-1", "gproxychain-b")]);
    add("old callback", &d.outposts, super::outpost::callback(1, "proxyz"), &[]);
    add("unknown callback", &d.outposts, super::outpost::callback(9, "proxyz"), &[]);
    // treasury
    add("treasury admin", &d.treasury, json!({"set_admin":{"new_admin":"mallory"}}), &[&g]);
    add("asset whitelist", &d.treasury, json!({"update_asset_whitelist":{"add":[native("uother")],"remove":[]}}), &[&g]);
    add("asset whitelist removal", &d.treasury, json!({"update_asset_whitelist":{"add":[],"remove":[cw20(&w.token)]}}), &[&g]);
    add("nft whitelist", &d.treasury, json!({"update_nft_whitelist":{"add":["somenft"],"remove":[]}}), &[&g]);
    add("spend", &d.treasury, json!({"spend":{"recipient":MALLORY,"assets":[asset(native("uluna"), 5)]}}), &[&g]);
    add("spend tokens", &d.treasury, json!({"spend":{"recipient":MALLORY,"assets":[asset(cw20(&w.token), 5)]}}), &[&g]);
    add("distribute", &d.treasury, json!({"distribute_funds":{"funds":[asset(native("uluna"), 12)],"funds_distributor_contract":d.distributor}}), &[&g]);
    add("treasury messages", &d.treasury, json!({"execute_cosmos_msgs":{"msgs":[bank_msg(MALLORY, "uluna", 1)]}}), &[&g]);
    // distributor
    add("reward weights", &d.distributor, json!({"update_user_weights":{"new_user_weights":[{"user":MALLORY,"weight":"9"}]}}), &[&g]);
    add("minimum weight", &d.distributor, json!({"update_minimum_eligible_weight":{"minimum_eligible_weight":"2"}}), &[&g]);
    add("rewards of usera", &d.distributor, json!({"claim_rewards":{"user":"usera","native_denoms":["uluna"],"cw20_assets":[]}}), &["usera"]);
    add("token distribution", &d.distributor, json!({"receive":{"sender":MALLORY,"amount":"5","msg":b64(&json!({"distribute":{}}))}}), &[&w.token]);
    // memberships
    for (m, n) in [(&d.membership, ""), (&d.council, "council ")] {
        add(&format!("{n}add hook"), m, json!({"add_weight_change_hook":{"hook_addr":MALLORY}}), &[&g]);
        add(&format!("{n}remove hook"), m, json!({"remove_weight_change_hook":{"hook_addr":g}}), &[&g]);
        if n != "" || w.kind == Kind::Multisig {
            add(&format!("{n}update members"), m, json!({"update_members":{"update_members":[{"user":MALLORY,"weight":"5"}]}}), &[&g]);
            add(&format!("{n}set members"), m, json!({"set_members":{"new_members":[{"user":MALLORY,"weight":"5"}]}}), &[&g]);
        }
    }
    let m = d.membership.clone();
    if w.kind != Kind::Multisig {
        add("unlocking period", &m, json!({"update_unlocking_period":{"new_unlocking_period":{"time":2000}}}), &[&g]);
        add("no unlocking period", &m, json!({"update_unlocking_period":{"new_unlocking_period":null}}), &[&g]);
    }
    match w.kind {
        Kind::Token => {
            for h in [
                json!({"stake":{"user":"usera"}}),
                json!({"add_stakes":{"stakers":[{"user":"usera","staked_amount":"5"}]}}),
                json!({"add_claims":{"claims":[{"user":"usera","claim_amount":"5","release_at":{"height":"1"}}]}}),
            ] {
                add(&format!("token hook {h}"), &m, json!({"receive":{"sender":"usera","amount":"5","msg":b64(&h)}}), &[&w.token]);
            }
            add("claims of userc", &m, json!({"claim":{"user":"userc"}}), &["userc"]);
        }
        Kind::Denom => add("claims of userc", &m, json!({"claim":{"user":"userc"}}), &["userc"]),
        Kind::Nft => {
            for h in [json!({"stake":{"user":"usera"}}), json!({"add_claim":{"user":"usera","release_at":{"height":"1"}}})] {
                add(&format!("nft hook {h}"), &m, json!({"receive_nft":{"sender":"usera","token_id":"forged","msg":b64(&h)}}), &[&w.nft]);
            }
            add("unstake usera's", &m, json!({"unstake":{"nft_ids":["usera1"]}}), &["usera"]);
            add("unstake userb's", &m, json!({"unstake":{"nft_ids":["userb1"]}}), &["userb"]);
        }
        Kind::Multisig => {}
    }
    // registry and factory
    add("registry admin", &w.versioning, json!({"update_admin":{"new_admin":MALLORY}}), &[ADMIN]);
    add("add version", &w.versioning, json!({"add_version":{"version":version_info((3,0,0),3)}}), &[ADMIN]);
    add("edit version", &w.versioning, json!({"edit_version":{"version":{"major":1,"minor":0,"patch":0},"enterprise_code_id":5}}), &[ADMIN]);
    add("factory config", &w.factory, json!({"update_config":{"new_admin":MALLORY,"new_enterprise_versioning":null,"new_cw20_code_id":null,"new_cw721_code_id":null}}), &[ADMIN]);
    add("finalize creation", &w.factory, json!({"finalize_dao_creation":{}}), &[]);
    // code migrations
    let mm = match w.kind {
        Kind::Denom => code::DENOM_MEMBERSHIP,
        Kind::Token => code::TOKEN_MEMBERSHIP,
        Kind::Nft => code::NFT_MEMBERSHIP,
        Kind::Multisig => code::MULTISIG_MEMBERSHIP,
    };
    for (a, c, msg) in [
        (&d.enterprise, code::ENTERPRISE, json!({})),
        (&d.controller, code::CONTROLLER, json!({})),
        (&d.governance, code::GOVERNANCE, json!({"new_admin":MALLORY})),
        (&d.treasury, code::TREASURY, json!({})),
        (&d.distributor, code::DISTRIBUTOR, json!({})),
        (&d.outposts, code::OUTPOSTS, json!({})),
        (&d.membership, mm, json!({})),
        (&d.council, code::MULTISIG_MEMBERSHIP, json!({})),
    ] {
        o.push(Op { name: format!("migrate code {c}"), to: a.clone(), msg, funds: vec![], who: vec![d.enterprise.clone()], migrate: Some(200 + c), sure: true });
    }
    variants(s, &mut o);
    o
}
/// The same operations with every other shape of payload: who may not do something may not do it in
/// any shape.
fn variants(s: &Sys, o: &mut Vec<Op>) {
    let w = &s.w;
    let d = &w.d;
    let g = d.controller.clone();
    let mut add = |to: &str, msg: Value, who: &[&str]| {
        o.push(Op { name: msg.to_string(), to: to.into(), msg, funds: vec![], who: who.iter().map(|x| x.to_string()).collect(), migrate: None, sure: false })
    };
    let e = d.enterprise.clone();
    for (k, v) in [("description", json!("d")), ("description", Value::Null), ("logo", json!("none")), ("github_username", json!("x")), ("discord_username", json!("x")), ("twitter_username", json!("x")), ("telegram_username", Value::Null)] {
        add(&e, meta_change(k, v), &[&g]);
    }
    let mut all = meta_change("name", json!("all"));
    for k in ["description", "github_username", "discord_username", "twitter_username", "telegram_username"] {
        all["update_metadata"][k] = json!({"change":"y"});
    }
    add(&e, all.clone(), &[&g]);
    all["update_metadata"]["name"] = json!("no_change");
    add(&e, all, &[&g]);
    for x in ["", "another text"] {
        add(&e, json!({"set_attestation":{"attestation_text":x}}), &[&g]);
    }
    add(&e, json!({"execute_msgs":{"msgs":[]}}), &[&g]);
    let sink = super::effects::sink_of(w);
    add(&e, json!({"execute_msgs":{"msgs":[wasm_msg(&sink, &json!({"note":1}), &[]), wasm_msg(&sink, &json!({"note":2}), &[])]}}), &[&g]);
    for (a, b) in [(w.nft.as_str(), w.token.as_str()), (MALLORY, "usera")] {
        add(&e, json!({"update_config":{"new_versioning_contract":{"change":a},"new_factory_contract":{"change":b}}}), &[&g]);
    }
    add(&e, json!({"update_config":{"new_versioning_contract":"no_change","new_factory_contract":"no_change"}}), &[&g]);
    // governance
    let gv = d.governance.clone();
    let ends = s_n(w.c.nanos + 1_000_000_000_000);
    for (who, dep, q, th, veto) in [("usera", "0", "0", "0", json!("0")), (MALLORY, "7", "1", "1", json!("1")), (w.d.treasury.as_str(), "0", "0.3", "0.5", json!("0.3"))] {
        add(&gv, json!({"create_poll":{"proposer":who,"deposit_amount":dep,"label":"label","description":"description here","scheme":"coin_voting","ends_at":ends,"quorum":q,"threshold":th,"veto_threshold":veto}}), &[&g]);
    }
    for voter in ["usera", "userb", MALLORY, w.d.treasury.as_str()] {
        for out in ["yes", "no", "abstain", "veto"] {
            for n in ["0", "1", "9"] {
                add(&gv, json!({"cast_vote":{"poll_id":s_n(s.open),"outcome":out,"voter":voter,"amount":n}}), &[&g]);
            }
        }
        for n in ["0", "1", "9"] {
            for ex in [json!([]), json!([s.open])] {
                add(&gv, json!({"update_votes":{"voter":voter,"new_amount":n,"excluded_polls":ex}}), &[&g]);
            }
        }
    }
    for id in [s.open, s.ready] {
        for i in 0..8u32 {
            add(&gv, json!({"end_poll":{"poll_id":s_n(id),"maximum_available_votes":if i & 4 == 0 {"0"} else {"5"},"error_if_already_ended":i&1!=0,"allow_early_ending":i&2!=0}}), &[&g]);
        }
    }
    // controller
    for ch in [json!([]), json!([{"user":"usera","old_weight":"0","new_weight":"9"}]), json!([{"user":MALLORY,"old_weight":"0","new_weight":"9"}]),
        json!([{"user":"usera","old_weight":"2","new_weight":"2"},{"user":"userb","old_weight":"1","new_weight":"7"}])] {
        add(&g, json!({"weights_changed":{"weight_changes":ch}}), &[&d.membership, &d.council]);
    }
    for id in [0, 99] {
        add(&g, json!({"execute_proposal_actions":{"proposal_id":id}}), &[&g]);
    }
    if w.kind == Kind::Token {
        for who in ["userb", MALLORY] {
            for n in ["0", "1", "1000"] {
                add(&g, json!({"receive":{"sender":who,"amount":n,"msg":b64(&json!({"create_proposal":proposal(vec![])}))}}), &[&w.token]);
            }
        }
    }
    // outposts
    for ch in ["chain-a", "chain-b", "chain-d"] {
        add(&d.outposts, deploy(ch), &[&g]);
        for m in [json!({"execute_cosmos_msgs":{"msgs":[]}}), json!({"set_admin":{"new_admin":MALLORY}}), json!({"update_asset_whitelist":{"add":[],"remove":[]}}), json!({"update_nft_whitelist":{"add":[],"remove":[]}}),
            json!({"spend":{"recipient":MALLORY,"assets":[asset(native("uluna"), 5)]}})] {
            add(&d.outposts, json!({"execute_cross_chain_treasury":{"msg":m,"treasury_target":target(ch)}}), &[&g]);
        }
    }
    for id in [0, 2, 3, 4] {
        let who = derived("channel-1", "gproxychain-b");
        let who: Vec<&str> = if id == 2 { vec![&who] } else { vec![] };
        add(&d.outposts, json!({"execute_msg_reply_callback":{"callback_id":id,"events":[],"data":null}}), &who);
    }
    // treasury
    let t = d.treasury.clone();
    for a in [g.as_str(), "usera", d.enterprise.as_str(), t.as_str()] {
        add(&t, json!({"set_admin":{"new_admin":a}}), &[&g]);
    }
    let kinds = [vec![], vec![native("uother")], vec![native("uluna")], vec![cw20(&w.token)], vec![native("uluna"), cw20(&w.token)]];
    for a in &kinds {
        for b in &kinds {
            add(&t, json!({"update_asset_whitelist":{"add":a,"remove":b}}), &[&g]);
        }
    }
    for (a, b) in [(json!([]), json!([])), (json!([]), json!([w.nft])), (json!([w.nft]), json!([])), (json!([w.nft]), json!([w.nft]))] {
        add(&t, json!({"update_nft_whitelist":{"add":a,"remove":b}}), &[&g]);
    }
    for rec in [MALLORY, "usera", g.as_str(), d.distributor.as_str(), w.factory.as_str()] {
        for l in [json!([]), json!([asset(native("uluna"), 1000)]), json!([asset(native("uother"), 1)]), json!([asset(native("uluna"), 1), asset(cw20(&w.token), 1)])] {
            add(&t, json!({"spend":{"recipient":rec,"assets":l}}), &[&g]);
        }
    }
    for l in [json!([]), json!([asset(cw20(&w.token), 12)]), json!([asset(native("uluna"), 1), asset(cw20(&w.token), 1)])] {
        for dist in [d.distributor.as_str(), s.other.distributor.as_str()] {
            add(&t, json!({"distribute_funds":{"funds":l,"funds_distributor_contract":dist}}), &[&g]);
        }
    }
    for l in [vec![], vec![wasm_msg(&sink, &json!({"note":1}), &[])], vec![bank_msg(MALLORY, "uother", 1), bank_msg("usera", "uluna", 1)]] {
        add(&t, json!({"execute_cosmos_msgs":{"msgs":l}}), &[&g]);
    }
    // distributor
    let ds = d.distributor.clone();
    for l in [json!([]), json!([{"user":"usera","weight":"0"}]), json!([{"user":"userb","weight":"1000"}]), json!([{"user":"usera","weight":"1"},{"user":MALLORY,"weight":"1"}])] {
        add(&ds, json!({"update_user_weights":{"new_user_weights":l}}), &[&g]);
    }
    for n in ["0", "1", "1000"] {
        add(&ds, json!({"update_minimum_eligible_weight":{"minimum_eligible_weight":n}}), &[&g]);
    }
    for u in ["usera", "userb", "userc", MALLORY, t.as_str()] {
        for (a, b) in [(json!([]), json!([])), (json!(["uluna"]), json!([])), (json!([]), json!([w.token])), (json!(["uluna", "uother"]), json!([w.token]))] {
            add(&ds, json!({"claim_rewards":{"user":u,"native_denoms":a,"cw20_assets":b}}), &[u]);
        }
    }
    // memberships
    for (m, multi) in [(&d.membership, w.kind == Kind::Multisig), (&d.council, true)] {
        for h in [g.as_str(), "usera", d.distributor.as_str()] {
            add(m, json!({"add_weight_change_hook":{"hook_addr":h}}), &[&g]);
            add(m, json!({"remove_weight_change_hook":{"hook_addr":h}}), &[&g]);
        }
        if multi {
            for l in [json!([]), json!([{"user":"usera","weight":"0"}]), json!([{"user":"userd","weight":"0"},{"user":"usera","weight":"9"}]), json!([{"user":"userb","weight":"1"}])] {
                add(m, json!({"update_members":{"update_members":l}}), &[&g]);
                add(m, json!({"set_members":{"new_members":l}}), &[&g]);
            }
        } else {
            for p in [json!({"time":0}), json!({"time":1}), json!({"height":0}), json!({"height":5}), json!({"time":100000000})] {
                add(m, json!({"update_unlocking_period":{"new_unlocking_period":p}}), &[&g]);
            }
            for u in ["usera", "userb", MALLORY, t.as_str()] {
                add(m, json!({"claim":{"user":u}}), &[u]);
            }
        }
    }
    let m = d.membership.clone();
    match w.kind {
        Kind::Token => {
            for n in ["0", "1", "1000"] {
                for h in [json!({"stake":{"user":MALLORY}}), json!({"add_stakes":{"stakers":[]}}), json!({"add_claims":{"claims":[]}}), json!({"add_stakes":{"stakers":[{"user":MALLORY,"staked_amount":n}]}})] {
                    for who in ["usera", MALLORY, t.as_str(), e.as_str()] {
                        add(&m, json!({"receive":{"sender":who,"amount":n,"msg":b64(&h)}}), &[&w.token]);
                    }
                }
            }
        }
        Kind::Nft => {
            for id in ["usera1", "usera2", "userb1", "zzz"] {
                for h in [json!({"stake":{"user":MALLORY}}), json!({"add_claim":{"user":MALLORY,"release_at":{"timestamp":"1"}}})] {
                    for who in ["usera", MALLORY, t.as_str(), e.as_str()] {
                        add(&m, json!({"receive_nft":{"sender":who,"token_id":id,"msg":b64(&h)}}), &[&w.nft]);
                    }
                }
            }
        }
        _ => {}
    }
    // registry and factory
    let v = &w.versioning;
    for a in ["usera", ADMIN, w.factory.as_str()] {
        add(v, json!({"update_admin":{"new_admin":a}}), &[ADMIN]);
    }
    for x in [(0, 0, 1), (1, 0, 0), (1, 2, 2), (9, 9, 9)] {
        add(v, json!({"add_version":{"version":version_info(x, 3)}}), &[ADMIN]);
    }
    let info = version_info((1, 0, 0), 4);
    for ver in [json!({"major":1,"minor":0,"patch":0}), json!({"major":1,"minor":2,"patch":1}), json!({"major":7,"minor":0,"patch":0})] {
        add(v, json!({"edit_version":{"version":ver}}), &[ADMIN]);
        let mut all = info.clone();
        all["version"] = ver.clone();
        for (k, x) in info.as_object().unwrap() {
            if k != "version" {
                let mut m = json!({"version":ver});
                m[k] = x.clone();
                add(v, json!({"edit_version":m}), &[ADMIN]);
            }
        }
        add(v, json!({"edit_version":all}), &[ADMIN]);
    }
    for i in 1..16u32 {
        let p = |b: u32, x: Value| if i & b != 0 { x } else { Value::Null };
        add(&w.factory, json!({"update_config":{"new_admin":p(1, json!("usera")),"new_enterprise_versioning":p(2, json!(w.nft)),"new_cw20_code_id":p(4, json!(9)),"new_cw721_code_id":p(8, json!(9))}}), &[ADMIN]);
    }
}
fn s_n(n: u64) -> String {
    n.to_string()
}

pub fn c11(ctx: &mut Ctx) {
    for kind in KINDS {
        for attest in [false, true] {
            let s = sys(kind, attest);
            let cs = callers(&s);
            let os = ops(&s);
            ctx.grid(
                &format!("{kind:?} DAO{}: operations x callers", if attest { " with attestation" } else { "" }),
                cs.len() * os.len(),
                |i| json!({"operation":os[i/cs.len()].name,"message":os[i/cs.len()].msg,"caller":cs[i%cs.len()]}),
                |i| {
                    let (o, u) = (&os[i / cs.len()], &cs[i % cs.len()]);
                    let mut w = s.w.clone();
                    let dig = w.c.digest();
                    let ok = o.who.contains(u);
                    let r = match o.migrate {
                        None => w.ex(u, &o.to, o.msg.clone(), &o.funds),
                        Some(c) => w.c.tx(u, CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: o.to.clone(), new_code_id: c, msg: serde_json::to_vec(&o.msg).unwrap().into() })),
                    };
                    if !ok {
                        ensure!(r.is_err(), "intruder", "{} was accepted from {u} ({})", o.name, role(&s, u));
                        ensure!(w.c.digest() == dig, "intruder", "{} from {u} was refused but changed the state", o.name);
                    } else if o.sure {
                        ensure!(r.is_ok(), "entitled-refused", "{} refused from {u} ({}), who is entitled to it: {:?}", o.name, role(&s, u), r.err());
                    }
                    Ok(true)
                },
            );
        }
    }
    transferred(ctx);
    fresh(ctx);
    unfinished(ctx);
    indirect(ctx);
}

fn role(s: &Sys, a: &str) -> String {
    for (d, n) in [(&s.w.d, "the DAO's"), (&s.other, "another DAO's")] {
        for (x, r) in [
            (&d.enterprise, "enterprise"),
            (&d.controller, "controller"),
            (&d.governance, "governance"),
            (&d.membership, "membership"),
            (&d.council, "council membership"),
            (&d.treasury, "treasury"),
            (&d.distributor, "distributor"),
            (&d.outposts, "outposts"),
        ] {
            if x == a {
                return format!("{n} {r}");
            }
        }
    }
    for (x, r) in [(&s.w.factory, "factory"), (&s.w.versioning, "versioning"), (&s.w.token, "token"), (&s.w.nft, "nft")] {
        if x == a {
            return r.into();
        }
    }
    "an account".into()
}

/// in the very block of the creation
fn fresh(ctx: &mut Ctx) {
    for kind in KINDS {
        let mut cfg = Cfg::new(kind);
        cfg.council = Some(Council::new(&["userd", "usera"], "0.5", "0.5", Some(&["update_metadata"])));
        cfg.cross_chain = Some(["chain-a", "chain-b"].iter().map(|c| deploy(c)["deploy_cross_chain_treasury"].clone()).collect());
        let mut w = World::base(&[native("uluna")]);
        w.kind = kind;
        let f = w.factory.clone();
        w.c.mint(&f, "uluna", 10);
        let other = w.create(&cfg).unwrap();
        w.d = w.create(&cfg).unwrap();
        let s = Sys { w, other, ready: 1, open: 1 };
        let cs = callers(&s);
        let me = MALLORY;
        let os = [
            ("initial treasuries", s.w.d.controller.clone(), json!({"deploy_initial_cross_chain_treasuries":{}}), Some(f)),
            ("finalize creation", s.w.factory.clone(), json!({"finalize_dao_creation":{}}), None),
            (
                "finalize again",
                s.w.d.enterprise.clone(),
                json!({"finalize_instantiation":{"enterprise_treasury_contract":me,"enterprise_governance_contract":me,"enterprise_governance_controller_contract":me,
                "enterprise_outposts_contract":me,"funds_distributor_contract":me,"membership_contract":me,"council_membership_contract":me,"attestation_contract":null}}),
                None,
            ),
        ];
        ctx.grid(
            &format!("{kind:?} DAO in the block of its creation: operations x callers"),
            cs.len() * os.len(),
            |i| json!({"operation":os[i/cs.len()].0,"caller":cs[i%cs.len()]}),
            |i| {
                let (o, u) = (&os[i / cs.len()], &cs[i % cs.len()]);
                let mut w = s.w.clone();
                let dig = w.c.digest();
                let r = w.ex(u, &o.1, o.2.clone(), &[]);
                ensure!(w.c.digest() == dig, "intruder", "{} from {u} changed the state", o.0);
                ensure!(r.is_err() || o.3.as_ref() == Some(u), "intruder", "{} was accepted from {u} ({})", o.0, role(&s, u));
                Ok(true)
            },
        );
    }
}

/// a DAO whose contracts exist but have not been told about each other: only the account creating it
/// may do that, and nobody may do anything else
fn unfinished(ctx: &mut Ctx) {
    let s = sys(Kind::Multisig, false);
    let mut cs = callers(&s);
    let (f, v) = (s.w.factory.clone(), s.w.versioning.clone());
    let mut w0 = s.w.clone();
    let e = w0
        .c
        .inst("creator", code::ENTERPRISE, &json!({"enterprise_factory_contract":f,"enterprise_versioning_contract":v,"dao_metadata":metadata("unfinished"),
            "dao_creation_date":null,"dao_type":"multisig","dao_version":{"major":1,"minor":0,"patch":0}}), Some(MALLORY))
        .unwrap();
    cs.push(e.clone());
    let fin = |me: &str| {
        json!({"finalize_instantiation":{"enterprise_treasury_contract":me,"enterprise_governance_contract":me,"enterprise_governance_controller_contract":me,
        "enterprise_outposts_contract":me,"funds_distributor_contract":me,"membership_contract":me,"council_membership_contract":me,"attestation_contract":null}})
    };
    let sink = super::effects::sink_of(&s.w);
    let os = [
        (fin("userc"), true),
        (fin("usera"), true),
        (meta_change("name", json!("x")), false),
        (upgrade_action((1, 2, 1)), false),
        (json!({"set_attestation":{"attestation_text":"t"}}), false),
        (json!({"remove_attestation":{}}), false),
        (json!({"execute_msgs":{"msgs":[wasm_msg(&sink, &json!({"note":1}), &[])]}}), false),
        (json!({"update_config":{"new_versioning_contract":{"change":w0.nft},"new_factory_contract":"no_change"}}), false),
    ];
    ctx.grid(
        "enterprise contract not yet finalized: operations x callers",
        cs.len() * os.len(),
        |i| json!({"message":os[i/cs.len()].0,"caller":cs[i%cs.len()]}),
        |i| {
            let (o, u) = (&os[i / cs.len()], &cs[i % cs.len()]);
            let mut w = w0.clone();
            let dig = w.c.digest();
            let ok = o.1 && u == "creator";
            let r = w.ex(u, &e, o.0.clone(), &[]);
            ensure!(r.is_ok() == ok, if ok { "entitled-refused" } else { "intruder" }, "{} from {u}: {r:?}", o.0);
            ensure!(ok || w.c.digest() == dig, "intruder", "{} from {u} was refused but changed the state", o.0);
            if ok {
                // once only, and from then on the named controller is in charge
                for again in &cs {
                    ensure!(w.clone().ex(again, &e, fin(MALLORY), &[]).is_err(), "intruder", "finalized again by {again}");
                }
                let boss = o.0["finalize_instantiation"]["membership_contract"].as_str().unwrap();
                for x in &cs {
                    ensure!(w.clone().ex(x, &e, meta_change("name", json!("y")), &[]).is_ok() == (x == boss), "intruder", "metadata changed by {x}, controller {boss}");
                }
            }
            Ok(true)
        },
    );
}

/// after an admin change, the new admin and only the new admin is entitled
fn transferred(ctx: &mut Ctx) {
    let s = sys(Kind::Multisig, false);
    let cs = callers(&s);
    let w0 = &s.w;
    let g = w0.d.controller.clone();
    let chain: Vec<&str> = vec!["userb", "userc"];
    // (contract, first admin, how to hand over, a privileged operation)
    let hand: Vec<(String, String, Box<dyn Fn(&str) -> Value + Sync>, Value)> = vec![
        (w0.d.treasury.clone(), g, Box::new(|a| json!({"set_admin":{"new_admin":a}})), json!({"spend":{"recipient":MALLORY,"assets":[asset(native("uluna"), 5)]}})),
        (w0.versioning.clone(), ADMIN.into(), Box::new(|a| json!({"update_admin":{"new_admin":a}})), json!({"add_version":{"version":version_info((3,0,0),3)}})),
        (
            w0.factory.clone(),
            ADMIN.into(),
            Box::new(|a| json!({"update_config":{"new_admin":a,"new_enterprise_versioning":null,"new_cw20_code_id":null,"new_cw721_code_id":null}})),
            json!({"update_config":{"new_admin":null,"new_enterprise_versioning":null,"new_cw20_code_id":7,"new_cw721_code_id":null}}),
        ),
    ];
    ctx.grid(
        "operations x callers after handing over",
        hand.len() * 2 * cs.len() * 2,
        |i| json!({"contract":hand[i/(4*cs.len())].0,"handovers":i/(2*cs.len())%2+1,"caller":cs[i/2%cs.len()],"hand_over":i%2==1}),
        |i| {
            let (h, n, u) = (&hand[i / (4 * cs.len())], i / (2 * cs.len()) % 2 + 1, &cs[i / 2 % cs.len()]);
            let mut w = w0.clone();
            let mut cur = h.1.clone();
            for k in 0..n {
                if let Err(e) = w.ex(&cur, &h.0, h.2(chain[k]), &[]) {
                    return viol("entitled-refused", format!("handing {} over from {cur}: {e}", h.0));
                }
                cur = chain[k].into();
            }
            let dig = w.c.digest();
            let msg = if i % 2 == 0 { h.3.clone() } else { h.2(MALLORY) };
            let r = w.ex(u, &h.0, msg, &[]);
            ensure!(r.is_ok() == (*u == cur), if *u == cur { "entitled-refused" } else { "intruder" },
                "after handing {} to {cur}, {u}'s operation was {:?}", h.0, r.as_ref().map(|_| "accepted"));
            if *u != cur {
                ensure!(w.c.digest() == dig, "intruder", "refused but changed the state");
            }
            Ok(true)
        },
    );
}

/// Privileged messages smuggled through the things ordinary accounts can do: hooks of the token and
/// NFT contracts, distributions, proposals of another DAO (executed by its components).
fn indirect(ctx: &mut Ctx) {
    for kind in KINDS {
        let s = sys(kind, false);
        let os = ops(&s);
        // another DAO's proposal executing each privileged operation of ours through its controller,
        // treasury and enterprise contract
        let via = ["execute_msgs", "execute_treasury_msgs", "execute_enterprise_msgs"];
        let mut w0 = s.w.clone();
        let d0 = w0.d.clone();
        w0.d = s.other.clone();
        if kind != Kind::Multisig {
            w0.stake("userd", 2).unwrap();
        }
        let voters: Vec<&str> = if kind == Kind::Multisig { vec!["usera", "userb"] } else { vec!["userd"] };
        ctx.grid(
            &format!("{kind:?}: privileged operations sent by another DAO's components"),
            os.len() * 3,
            |i| json!({"operation":os[i/3].name,"via":via[i%3]}),
            |i| {
                let o = &os[i / 3];
                if o.migrate.is_some() {
                    return Ok(false);
                }
                let mut w = w0.clone();
                let before = components(&w, &d0);
                // a proposal that fails is still executed, without effect
                if let Err(e) = w.enact_by(&voters, vec![msgs_action(via[i % 3], &[wasm_msg(&o.to, &o.msg, &[])])]) {
                    return viol("enact", format!("the other DAO could not execute its proposal: {e}"));
                }
                ensure!(components(&w, &d0) == before, "intruder", "{} took effect when sent by another DAO's {}", o.name, via[i % 3]);
                Ok(true)
            },
        );
    }
}
fn components(w: &World, d: &Dao) -> Vec<(u64, std::sync::Arc<crate::sim::Store>, Vec<u128>)> {
    [&d.enterprise, &d.controller, &d.governance, &d.membership, &d.council, &d.treasury, &d.distributor, &d.outposts, &w.versioning, &w.factory]
        .iter()
        .map(|a| (w.c.contracts[*a].code_id, w.c.contracts[*a].store.clone(), ["uluna", DENOM, "uother"].iter().map(|x| w.c.bal(a, x)).collect()))
        .collect()
}

//! C28: the facade shows and adapts exactly what the DAO holds and accepts.
//! Every operation of a history is done through the facade's adapted messages and, on a copy of
//! the same state, directly; both must be accepted alike and end in the same state. After every
//! operation all facade queries are compared with the component contracts' own answers.
use super::create::*;
use super::poll::{dec, rule};
use crate::ensure;
use crate::explore::*;
use crate::sim::{code, coin, Chain, Res};
use crate::world::*;
use serde_json::{json, Map, Value};
use std::hash::Hasher;

pub fn facades(w: &mut World) -> String {
    let v1 = w.c.inst(ADMIN, code::FACADE_V1, &json!({"enterprise_versioning":w.versioning}), None).unwrap();
    let v2 = w.c.inst(ADMIN, code::FACADE_V2, &json!({}), None).unwrap();
    w.c.inst(ADMIN, code::FACADE, &json!({"enterprise_facade_v1":v1,"enterprise_facade_v2":v2}), None).unwrap()
}

fn norm(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), norm(x))).collect::<Map<_, _>>()),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        // amounts appear as numbers or strings
        Value::Number(n) => Value::String(n.to_string()),
        _ => v.clone(),
    }
}
fn pick(v: &Value, keys: &[&str]) -> Value {
    Value::Object(keys.iter().map(|k| (k.to_string(), v[*k].clone())).collect())
}
fn fq(c: &mut Chain, f: &str, name: &str, addr: &str, extra: &Value) -> Res<Value> {
    let mut m = extra.clone();
    m["contract"] = json!(addr);
    c.q(f, &json!({ name: m }))
}
fn params(v: Value) -> Value {
    json!({ "params": v })
}

const PROP: [&str; 9] = ["proposal_type", "id", "proposer", "title", "description", "status", "started_at", "expires", "proposal_actions"];
fn prop_view(r: &Value) -> Value {
    json!({"proposal":pick(&r["proposal"], &PROP),"proposal_status":r["proposal_status"],"results":r["results"],"total_votes_available":r["total_votes_available"]})
}

type View = (&'static str, Value, Res<Value>);
/// every facade query of interest with the answer composed from the components themselves
fn expected(w: &mut World, props: u64) -> Vec<View> {
    let d = w.d.clone();
    let kind = w.kind;
    let mut v: Vec<View> = vec![];
    let info = w.c.q(&d.enterprise, &json!({"dao_info":{}})).unwrap();
    let cc = w.c.q(&d.enterprise, &json!({"component_contracts":{}})).unwrap();
    let gc = w.c.q(&d.controller, &json!({"gov_config":{}})).unwrap();
    v.push(("treasury_address", json!({}), Ok(json!({"treasury_address":cc["enterprise_treasury_contract"]}))));
    let mut e = cc.clone();
    e["enterprise_contract"] = json!(d.enterprise);
    v.push(("component_contracts", json!({}), Ok(e)));
    // DAO info
    let ver = |k: &str| as_u128(&info["dao_version"][k]);
    let version = (ver("major"), ver("minor"), ver("patch"));
    let (unit, unlocking) = match kind {
        Kind::Denom => {
            let r = w.c.q(&d.membership, &json!({"denom_config":{}})).unwrap();
            (r["denom"].clone(), r["unlocking_period"].clone())
        }
        Kind::Token => {
            let r = w.c.q(&d.membership, &json!({"token_config":{}})).unwrap();
            (r["token_contract"].clone(), r["unlocking_period"].clone())
        }
        Kind::Nft => {
            let r = w.c.q(&d.membership, &json!({"nft_contract_config":{}})).unwrap();
            let n = &r["nft_contract"];
            let a = if n.get("cw721").is_some() { n["cw721"]["contract"].clone() } else { n["ics721"]["class_id"].clone() };
            (a, r["unlocking_period"].clone())
        }
        Kind::Multisig => (json!(d.enterprise), json!({"time":0})),
    };
    let mut council = Value::Null;
    if !gc["council_gov_config"].is_null() {
        let (mut ms, mut last) = (vec![], Value::Null);
        loop {
            let r = w.c.q(&d.council, &json!({"members":{"start_after":last,"limit":100}})).unwrap();
            let p = r["members"].as_array().unwrap().clone();
            let Some(l) = p.last() else { break };
            last = l["user"].clone();
            ms.extend(p.iter().map(|m| m["user"].clone()));
        }
        council = pick(&gc["council_gov_config"], &["allowed_proposal_action_types", "quorum", "threshold"]);
        council["members"] = json!(ms);
    }
    let mut g = pick(
        &gc["gov_config"],
        &["quorum", "threshold", "veto_threshold", "vote_duration", "minimum_deposit", "allow_early_proposal_execution"],
    );
    if g["veto_threshold"].is_null() {
        g["veto_threshold"] = g["threshold"].clone();
    }
    g["unlocking_period"] = unlocking;
    v.push((
        "dao_info",
        json!({}),
        Ok(json!({"creation_date":info["creation_date"],"metadata":info["metadata"],"gov_config":g,"dao_council":council,"dao_type":info["dao_type"],
            "dao_membership_contract":unit,"enterprise_factory_contract":cc["enterprise_factory_contract"],
            "funds_distributor_contract":cc["funds_distributor_contract"],
            "dao_code_version":(version.0*10000+version.1*100+version.2).to_string(),"dao_version":info["dao_version"]})),
    ));
    // membership
    let total = w.total();
    for u in ["usera", "userb", "userd"] {
        let wt = w.weight(u);
        let vp = if total == 0 { "0".to_string() } else { cosmwasm_std::Decimal::from_ratio(wt, total).to_string() };
        v.push(("member_info", json!({"msg":{"member_address":u}}), Ok(json!({ "voting_power": vp }))));
        for (sa, l) in [(Value::Null, Value::Null), (json!("usera2"), json!(1)), (Value::Null, json!(1))] {
            let st = match kind {
                Kind::Denom => json!({"denom":{"amount":s(wt)}}),
                Kind::Token => json!({"token":{"amount":s(wt)}}),
                Kind::Nft => {
                    let r = w.c.q(&d.membership, &json!({"user_stake":{"user":u,"start_after":sa,"limit":l}})).unwrap();
                    json!({"nft":{"tokens":r["tokens"],"amount":r["total_user_stake"]}})
                }
                Kind::Multisig => json!("none"),
            };
            v.push(("user_stake", params(json!({"user":u,"start_after":sa,"limit":l})), Ok(json!({ "user_stake": st }))));
        }
        for q in ["claims", "releasable_claims"] {
            let cl: Vec<Value> = if kind == Kind::Multisig {
                vec![]
            } else {
                let r = w.c.q(&d.membership, &json!({q:{"user":u}})).unwrap();
                r["claims"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| {
                        let a = match kind {
                            Kind::Denom => json!({"denom":{"amount":c["amount"]}}),
                            Kind::Token => json!({"cw20":{"amount":c["amount"]}}),
                            _ => json!({"cw721":{"tokens":c["nft_ids"]}}),
                        };
                        json!({"asset":a,"release_at":c["release_at"]})
                    })
                    .collect()
            };
            v.push((q, params(json!({"owner":u})), Ok(json!({ "claims": cl }))));
        }
    }
    v.push(("total_staked_amount", json!({}), Ok(json!({"total_staked_amount":s(if kind == Kind::Multisig {0} else {total})}))));
    for (sa, l) in [(Value::Null, Value::Null), (Value::Null, json!(1)), (json!("usera"), Value::Null), (json!("userb"), json!(2))] {
        v.push((
            "list_multisig_members",
            json!({"msg":{"start_after":sa,"limit":l}}),
            if kind == Kind::Multisig {
                w.c.q(&d.membership, &json!({"members":{"start_after":sa,"limit":l}})).map(|r| {
                    json!({"members":r["members"].as_array().unwrap().iter().map(|m| json!({"address":m["user"],"weight":m["weight"]})).collect::<Vec<_>>()})
                })
            } else {
                Err(String::new())
            },
        ));
        let nfts = if kind == Kind::Nft {
            w.c.q(&d.membership, &json!({"staked_nfts":{"start_after":sa,"limit":l}}))
        } else {
            Ok(json!({"nfts":[]}))
        };
        v.push(("staked_nfts", params(json!({"start_after":sa,"limit":l})), nfts));
        v.push(("nft_whitelist", params(json!({"start_after":sa,"limit":l})), w.c.q(&d.treasury, &json!({"nft_whitelist":{"start_after":sa,"limit":l}}))));
        let asa = if sa.is_null() { Value::Null } else { native("uluna") };
        v.push(("asset_whitelist", params(json!({"start_after":asa,"limit":l})), w.c.q(&d.treasury, &json!({"asset_whitelist":{"start_after":asa,"limit":l}}))));
        let csa = if sa.is_null() { Value::Null } else { json!("juno-1") };
        v.push((
            "cross_chain_treasuries",
            params(json!({"start_after":csa,"limit":l})),
            w.c.q(&d.outposts, &json!({"cross_chain_treasuries":{"start_after":csa,"limit":l}})),
        ));
    }
    // proposals
    for p in 1..=props + 1 {
        v.push(("proposal", params(json!({"proposal_id":p})), w.c.q(&d.controller, &json!({"proposal":{"proposal_id":p}})).map(|r| prop_view(&r))));
        v.push((
            "proposal_status",
            params(json!({"proposal_id":p})),
            w.c.q(&d.controller, &json!({"proposal_status":{"proposal_id":p}})).map(|r| pick(&r, &["status", "expires", "results"])),
        ));
        for u in ["usera", "userb"] {
            let q = json!({"member":u,"proposal_id":p});
            v.push(("member_vote", params(q.clone()), w.c.q(&d.controller, &json!({ "member_vote": q }))));
        }
        for (sa, l) in [(Value::Null, Value::Null), (json!("usera"), Value::Null), (Value::Null, json!(1))] {
            let q = json!({"proposal_id":p,"start_after":sa,"limit":l});
            v.push(("proposal_votes", params(q.clone()), w.c.q(&d.controller, &json!({ "proposal_votes": q }))));
        }
    }
    for f in [Value::Null, json!("in_progress"), json!("passed"), json!("rejected")] {
        for (sa, l) in [(Value::Null, Value::Null), (json!(1), Value::Null), (Value::Null, json!(1))] {
            let q = json!({"filter":f,"start_after":sa,"limit":l});
            let e = w
                .c
                .q(&d.controller, &json!({"proposals":q}))
                .map(|r| json!({"proposals":r["proposals"].as_array().unwrap().iter().map(prop_view).collect::<Vec<_>>()}));
            v.push(("proposals", params(q), e));
        }
    }
    // migration state
    let inc = w.c.q(&d.treasury, &json!({"has_incomplete_v2_migration":{}}));
    let stage = inc.clone().map(|r| {
        json!({"stage": if r["has_incomplete_migration"] == json!(true) { "migration_in_progress" } else { "migration_completed" }})
    });
    v.push(("has_incomplete_v2_migration", json!({}), inc));
    v.push(("v2_migration_stage", json!({}), stage));
    let un = if version < (1, 0, 2) {
        Ok(json!({"has_unmoved_stakes_or_claims":false}))
    } else {
        w.c.q(&d.treasury, &json!({"has_unmoved_stakes_or_claims":{}}))
    };
    v.push(("has_unmoved_stakes_or_claims", json!({}), un));
    v
}

pub fn views(w: &mut World, f: &str, props: u64) -> Chk {
    let exp = expected(w, props);
    for addr in [w.d.treasury.clone(), w.d.enterprise.clone()] {
        for (name, extra, e) in &exp {
            let r = fq(&mut w.c, f, name, &addr, extra);
            match (&r, e) {
                (Err(_), Err(_)) => {}
                (Ok(a), Ok(b)) if norm(a) == norm(b) => {}
                _ => return viol(&format!("view-{name}"), format!("facade query {name} {extra} at {addr}: {r:?}, but the components say {e:?}")),
            }
        }
    }
    Ok(())
}

/// sends the adapted messages as `u`, all or nothing
fn send_all(c: &mut Chain, u: &str, resp: &Value) -> Res<()> {
    let snap = c.clone();
    for m in resp["msgs"].as_array().ok_or("no msgs")? {
        let funds = |f: &Value| -> Vec<cosmwasm_std::Coin> {
            f.as_array().unwrap().iter().map(|x| coin(as_u128(&x["amount"]), x["denom"].as_str().unwrap())).collect()
        };
        let r = if let Some(e) = m.get("execute") {
            let msg: Value = serde_json::from_str(e["msg"].as_str().unwrap()).map_err(|e| e.to_string())?;
            c.exec(u, e["target_contract"].as_str().unwrap(), &msg, &funds(&e["funds"])).map(|_| ())
        } else {
            let b = &m["bank"];
            c.send(u, b["receiver"].as_str().unwrap(), &funds(&b["funds"]))
        };
        if let Err(e) = r {
            *c = snap;
            return Err(e);
        }
    }
    Ok(())
}

#[derive(Clone)]
struct S {
    w: World,
    f: String,
    /// per proposal: is it the council's
    props: Vec<bool>,
}

#[derive(Clone, Debug)]
enum A {
    Stake(&'static str, &'static str, u128),
    Unstake(&'static str, u128),
    Claim(&'static str),
    Propose(&'static str, u8),
    Deposit(&'static str, u128, Option<&'static str>),
    CouncilPropose(&'static str, u8),
    Vote(&'static str, u64, usize),
    CouncilVote(&'static str, u64, usize),
    Execute(&'static str, u64),
    Wait,
}

fn remote() -> Value {
    json!({"cross_chain_msg_spec":spec("juno-1")})
}
fn deploy_action(ch: &str) -> Value {
    json!({"deploy_cross_chain_treasury":{"cross_chain_msg_spec":spec(ch),"asset_whitelist":null,
            "nft_whitelist":null,"ics_proxy_code_id":1,"enterprise_treasury_code_id":2,"chain_global_proxy":"proxy"}})
}
fn acts(k: u8) -> Vec<Value> {
    match k {
        0 => vec![act_pay("userd", "uluna", 1)],
        1 => vec![meta_change("name", json!("x")), deploy_action("juno-1"), assets_action(vec![native("uluna")], vec![], Value::Null)],
        2 => vec![deploy_action("chain-a"), deploy_action("chain-b"), nfts_action(&["somenft"], &[], Value::Null)],
        _ => vec![
            assets_action(vec![native("uosmo")], vec![], remote()),
            nfts_action(&["somenft"], &[], remote()),
            json!({"request_funding_from_dao":{"remote_treasury_target":remote(),"recipient":"userd","assets":[{"info":native("uluna"),"amount":"1"}]}}),
            json!({"execute_treasury_msgs":{"remote_treasury_target":remote(),"action_type":"x","msgs":[]}}),
            deploy_action("chain-b"),
        ],
    }
}
/// how many messages of the proposal leave the chain
fn remote_count(k: u8) -> u128 {
    [0, 1, 2, 5][k as usize]
}

struct M {
    kind: Kind,
    early: bool,
    deposit: bool,
    version: Option<(u64, u64, u64)>,
}
impl M {
    fn world(&self) -> World {
        let mut cfg = Cfg::new(self.kind);
        cfg.gov.early = self.early;
        cfg.gov.duration = 100;
        cfg.unlocking = json!({"time":100});
        if self.deposit {
            cfg.gov.min_deposit = (self.kind != Kind::Multisig).then_some(1);
            cfg.gov.veto = Some("0.4".into());
        }
        cfg.council = Some(Council::new(&["userb", "userc"], "0.5", "0.6", Some(&["update_metadata", "update_asset_whitelist", "deploy_cross_chain_treasury"])));
        cfg.assets = Some(vec![native("uluna"), native("uother")]);
        cfg.nfts = Some(vec!["anft".into(), "bnft".into()]);
        cfg.attestation = self.deposit.then(|| "text".to_string());
        let mut w = World::base(&[]);
        if let Some(v) = self.version {
            let ver = w.versioning.clone();
            w.ex(ADMIN, &ver, json!({"add_version":{"version":version_info(v,2)}}), &[]).unwrap();
        }
        w.kind = self.kind;
        w.d = w.create(&cfg).expect("DAO creation");
        if let Some(a) = w.d.attestation.clone() {
            for u in USERS {
                w.ex(u, &a, json!({"sign_attestation":{}}), &[]).unwrap();
            }
        }
        let t = w.d.treasury.clone();
        w.c.mint(&t, "uluna", 1000);
        w
    }
}
fn unit(kind: Kind) -> &'static str {
    match kind {
        Kind::Denom => "denom",
        Kind::Token => "cw20",
        _ => "cw721",
    }
}
impl Model for M {
    type S = S;
    type A = A;
    fn name(&self) -> String {
        format!(
            "{:?} DAO{}{} version {:?}: operations through the facade",
            self.kind,
            if self.early { ", early execution" } else { "" },
            if self.deposit { ", deposits, attestation, veto threshold" } else { "" },
            self.version
        )
    }
    fn init(&self) -> Vec<S> {
        let mut w = self.world();
        let f = facades(&mut w);
        let fresh = S { w: w.clone(), f: f.clone(), props: vec![] };
        let mut v = vec![fresh];
        // later in its life: stakes, a claim, a deployed treasury and proposals of each state
        if self.kind != Kind::Multisig {
            w.stake("usera", 2).unwrap();
            w.stake("userb", 1).unwrap();
        }
        v.push(S { w: w.clone(), f: f.clone(), props: vec![] });
        w.c.advance(1, 5);
        let p = if self.deposit && self.kind != Kind::Multisig {
            w.propose_deposit("usera", 1, None, acts(1)).unwrap()
        } else {
            w.propose("usera", acts(1)).unwrap()
        };
        w.vote("usera", p, "yes").unwrap();
        if self.kind != Kind::Multisig {
            w.unstake("userb", 1).unwrap();
        }
        let c = w.propose_council("userb", vec![meta_change("name", json!("y"))]).unwrap();
        assert_eq!((p, c), (1, 2));
        v.push(S { w, f, props: vec![false, true] });
        v
    }
    fn actions(&self, s: &S) -> Vec<A> {
        let mut v = vec![];
        if self.kind != Kind::Multisig {
            v.extend([A::Stake("usera", "usera", 1), A::Stake("userc", "userb", 2), A::Stake("usera", "userd", 0)]);
            v.extend([A::Unstake("usera", 1), A::Unstake("userb", 2), A::Unstake("userd", 1)]);
        }
        v.extend([A::Claim("usera"), A::Claim("userb")]);
        if s.props.len() < 3 {
            v.extend([A::Propose("usera", 0), A::Propose("userb", 2), A::Propose("userd", 3)]);
            v.extend([A::Deposit("usera", 1, None), A::Deposit("usera", 2, Some("userb")), A::Deposit("userd", 0, None)]);
            v.extend([A::CouncilPropose("userb", 1), A::CouncilPropose("usera", 1), A::CouncilPropose("userc", 0)]);
        }
        for p in 1..=s.props.len() as u64 {
            v.extend([A::Vote("usera", p, 0), A::Vote("userb", p, 3), A::Vote("userd", p, 1)]);
            v.extend([A::CouncilVote("userb", p, 0), A::CouncilVote("userc", p, 1), A::CouncilVote("usera", p, 2)]);
            v.extend([A::Execute("userd", p)]);
        }
        v.push(A::Wait);
        v
    }
    fn step(&self, s: &mut S, a: &A) -> Chk<Step> {
        if let A::Wait = a {
            s.w.c.advance(10, 60);
            views(&mut s.w, &s.f.clone(), s.props.len() as u64)?;
            return Ok(Step::Accepted);
        }
        let d = s.w.d.clone();
        let k = self.kind;
        // what the user asks of the facade, and who asks
        let (u, q, extra): (&str, &str, Value) = match a {
            A::Stake(p, u, n) => {
                let x = if k == Kind::Nft {
                    let ids: Vec<String> = s.w.owned(p).into_iter().take(*n as usize).collect();
                    if (ids.len() as u128) < *n {
                        return Ok(Step::Skip);
                    }
                    json!({"user":u,"tokens":ids})
                } else {
                    json!({"user":u,"amount":n.to_string()})
                };
                (p, "stake_adapted", params(json!({ unit(k): x })))
            }
            A::Unstake(u, n) => {
                let x = if k == Kind::Nft {
                    let ids: Vec<String> = s.w.staked_nfts(u).into_iter().take(*n as usize).collect();
                    if (ids.len() as u128) < *n {
                        return Ok(Step::Skip);
                    }
                    json!({ "tokens": ids })
                } else {
                    json!({"amount":n.to_string()})
                };
                (u, "unstake_adapted", params(json!({ unit(k): x })))
            }
            A::Claim(u) => (u, "claim_adapted", json!({})),
            A::Propose(u, x) => (u, "create_proposal_adapted", params(proposal(acts(*x)))),
            A::CouncilPropose(u, x) => (u, "create_council_proposal_adapted", params(proposal(acts(*x)))),
            A::Deposit(u, n, o) => {
                let mut p = proposal(acts(0));
                p["description"] = json!("words");
                p["deposit_owner"] = json!(o);
                match k {
                    Kind::Denom | Kind::Multisig => (u, "create_proposal_with_denom_deposit_adapted", params(json!({"create_proposal_msg":p,"deposit_amount":n.to_string()}))),
                    Kind::Token => (u, "create_proposal_with_token_deposit_adapted", params(json!({"create_proposal_msg":p,"deposit_amount":n.to_string()}))),
                    Kind::Nft => {
                        let ids: Vec<String> = s.w.owned(u).into_iter().take(*n as usize).collect();
                        (u, "create_proposal_with_nft_deposit_adapted", params(json!({"create_proposal_msg":p,"deposit_tokens":ids})))
                    }
                }
            }
            A::Vote(u, p, o) => (u, "cast_vote_adapted", params(json!({"proposal_id":p,"outcome":OUTCOMES[*o]}))),
            A::CouncilVote(u, p, o) => (u, "cast_council_vote_adapted", params(json!({"proposal_id":p,"outcome":OUTCOMES[*o]}))),
            A::Execute(u, p) => (u, "execute_proposal_adapted", params(json!({"proposal_id":p}))),
            A::Wait => unreachable!(),
        };
        // direct
        let mut t = s.w.clone();
        let g = d.controller.clone();
        let direct: Res<()> = match a {
            A::Stake(p, u, n) => {
                if k == Kind::Nft && *n == 0 {
                    Ok(())
                } else {
                    t.stake_for(p, u, *n).map(|_| ())
                }
            }
            A::Unstake(u, n) => t.unstake(u, *n).map(|_| ()),
            A::Claim(u) => {
                if k == Kind::Multisig {
                    Err("no claims".into())
                } else {
                    t.claim(u).map(|_| ())
                }
            }
            A::Propose(u, x) => t.propose(u, acts(*x)).map(|_| ()),
            A::CouncilPropose(u, x) => t.propose_council(u, acts(*x)).map(|_| ()),
            A::Deposit(u, n, o) => {
                let mut p = proposal(acts(0));
                p["description"] = json!("words");
                p["deposit_owner"] = json!(o);
                match k {
                    Kind::Denom => t.ex(u, &g, json!({ "create_proposal": p }), &[coin(*n, DENOM)]).map(|_| ()),
                    Kind::Token => {
                        let tok = t.token.clone();
                        t.ex(u, &tok, json!({"send":{"contract":g,"amount":n.to_string(),"msg":b64(&json!({"create_proposal":p}))}}), &[]).map(|_| ())
                    }
                    Kind::Nft => {
                        let ids: Vec<String> = s.w.owned(u).into_iter().take(*n as usize).collect();
                        let nft = t.nft.clone();
                        let mut r = Ok(());
                        for id in &ids {
                            r = r.and(t.ex(u, &nft, json!({"approve":{"spender":g,"token_id":id,"expires":null}}), &[]).map(|_| ()));
                        }
                        r.and(t.ex(u, &g, json!({"create_proposal_with_nft_deposit":{"create_proposal_msg":p,"deposit_tokens":ids}}), &[]).map(|_| ()))
                    }
                    Kind::Multisig => Err("no deposits".into()),
                }
            }
            A::Vote(u, p, o) => t.vote(u, *p, OUTCOMES[*o]).map(|_| ()),
            A::CouncilVote(u, p, o) => t.council_vote(u, *p, OUTCOMES[*o]).map(|_| ()),
            A::Execute(u, p) => {
                let r = t.proposal(*p);
                let x = r["proposal"]["proposal_actions"].as_array().unwrap();
                // every action of ours that leaves the chain names juno-1, chain-a or chain-b
                let n = x.iter().map(|a| a.to_string()).filter(|a| ["juno-1", "chain-a", "chain-b"].iter().any(|c| a.contains(c))).count() as u128;
                debug_assert!((0..4).any(|k| remote_count(k) == n));
                let r = if n > 0 { t.c.send(u, &d.outposts, &[coin(n, "uluna")]) } else { Ok(()) };
                r.and(t.execute(u, *p).map(|_| ()))
            }
            A::Wait => unreachable!(),
        };
        if direct.is_err() {
            t = s.w.clone();
        }
        // through the facade, addressed either way
        let mut c2 = s.w.c.clone();
        let r1 = fq(&mut s.w.c, &s.f, q, &d.treasury, &extra);
        let r2 = fq(&mut c2, &s.f, q, &d.enterprise, &extra);
        ensure!(r1.is_ok() == r2.is_ok() && (r1.is_err() || r1 == r2), "adapt-address", "{a:?}: adapted by treasury address to {r1:?}, by DAO address to {r2:?}");
        let via = match &r1 {
            Ok(m) => send_all(&mut s.w.c, u, m),
            Err(e) => Err(e.clone()),
        };
        ensure!(
            via.is_ok() == direct.is_ok(),
            "adapt-acceptance",
            "{a:?}: through the facade {via:?} (adapted to {}), directly {direct:?}",
            r1.clone().unwrap_or_else(|e| json!(e))
        );
        if via.is_err() {
            return Ok(Step::Rejected);
        }
        ensure!(
            s.w.c.digest() == t.c.digest(),
            "adapt-effect",
            "{a:?}: the adapted messages {} do not have the effect of the direct operation",
            r1.unwrap()
        );
        match a {
            A::Propose(..) | A::Deposit(..) => s.props.push(false),
            A::CouncilPropose(..) => s.props.push(true),
            _ => {}
        }
        views(&mut s.w, &s.f.clone(), s.props.len() as u64)?;
        Ok(Step::Accepted)
    }
    fn hash(&self, s: &S, h: &mut dyn Hasher) {
        h_chain(&s.w.c, h);
    }
}

/// every combination of DAO type and requested unit, and addresses that are no DAO
fn unsupported(ctx: &mut Ctx) {
    let ws: Vec<(World, String)> = KINDS
        .iter()
        .map(|k| {
            let mut w = M { kind: *k, early: false, deposit: false, version: Some((1, 2, 0)) }.world();
            let f = facades(&mut w);
            (w, f)
        })
        .collect();
    let p = proposal(acts(0));
    let reqs: Vec<(&str, Value, Option<Kind>)> = vec![
        ("stake_adapted", json!({"cw20":{"user":"usera","amount":"1"}}), Some(Kind::Token)),
        ("stake_adapted", json!({"cw721":{"user":"usera","tokens":["usera1"]}}), Some(Kind::Nft)),
        ("stake_adapted", json!({"denom":{"user":"usera","amount":"1"}}), Some(Kind::Denom)),
        ("create_proposal_with_denom_deposit_adapted", json!({"create_proposal_msg":p,"deposit_amount":"1"}), Some(Kind::Denom)),
        ("create_proposal_with_token_deposit_adapted", json!({"create_proposal_msg":p,"deposit_amount":"1"}), Some(Kind::Token)),
        ("create_proposal_with_nft_deposit_adapted", json!({"create_proposal_msg":p,"deposit_tokens":["usera1"]}), Some(Kind::Nft)),
        ("execute_proposal_adapted", json!({"proposal_id":9}), None),
    ];
    let n = reqs.len() * KINDS.len();
    ctx.grid(
        "requests that do not fit the DAO",
        n,
        |i| json!({"kind":format!("{:?}",KINDS[i%4]),"request":reqs[i/4].0,"params":reqs[i/4].1}),
        |i| {
            let (mut w, f) = ws[i % 4].clone();
            let (q, x, k) = &reqs[i / 4];
            let t = w.d.treasury.clone();
            let r = fq(&mut w.c, &f, q, &t, &params(x.clone()));
            let fits = *k == Some(KINDS[i % 4]);
            ensure!(r.is_ok() == fits, "unsupported", "{q} {x} for a {:?} DAO: {r:?}", KINDS[i % 4]);
            Ok(fits)
        },
    );
    ctx.grid(
        "addresses that are no DAO",
        KINDS.len(),
        |i| json!({"kind":format!("{:?}",KINDS[i])}),
        |i| {
            let (mut w, f) = ws[i].clone();
            let d = w.d.clone();
            for addr in [d.controller, d.governance, d.membership, d.council, d.distributor, d.outposts, w.factory.clone(), w.versioning.clone(), w.token.clone(), w.nft.clone(), "usera".into(), f.clone()] {
                for q in ["treasury_address", "dao_info", "component_contracts", "total_staked_amount", "v2_migration_stage", "claim_adapted"] {
                    let r = fq(&mut w.c, &f, q, &addr, &json!({}));
                    ensure!(r.is_err(), "not-a-dao", "{q} answered for {addr}, which is no DAO: {r:?}");
                }
            }
            Ok(true)
        },
    );
}

/// big councils, bridged NFTs and versions
fn shapes(ctx: &mut Ctx) {
    let sizes = [1usize, 2, 99, 100, 101, 150, 250];
    ctx.grid(
        "council sizes",
        sizes.len(),
        |i| json!({"members":sizes[i]}),
        |i| {
            let mut cfg = Cfg::new(Kind::Denom);
            let ms: Vec<String> = (0..sizes[i]).map(|k| format!("m{:03}x", (k * 37) % 401)).collect();
            let mr: Vec<&str> = ms.iter().map(|x| x.as_str()).collect();
            cfg.council = Some(Council::new(&mr, "0.5", "0.5", None));
            let mut w = World::new(&cfg);
            let f = facades(&mut w);
            let e = w.d.enterprise.clone();
            let r = fq(&mut w.c, &f, "dao_info", &e, &json!({})).unwrap();
            let mut got: Vec<String> = r["dao_council"]["members"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            got.sort();
            let mut want = ms.clone();
            want.sort();
            ensure!(got == want, "council-members", "a council of {} members is shown with {}", want.len(), got.len());
            views(&mut w, &f, 0)?;
            Ok(true)
        },
    );
    let versions = [(0, 3, 0), (1, 0, 0), (1, 0, 1), (1, 0, 2), (1, 1, 0), (1, 1, 9), (1, 2, 0), (1, 2, 1), (2, 0, 0), (12, 34, 56)];
    ctx.grid(
        "DAO versions",
        versions.len() * KINDS.len(),
        |i| json!({"version":versions[i/4],"kind":format!("{:?}",KINDS[i%4])}),
        |i| {
            let (v, k) = (versions[i / 4], KINDS[i % 4]);
            let mut cfg = Cfg::new(k);
            cfg.gov.min_deposit = (i % 4 != 3 && v.2 == 0).then_some(7);
            let mut w = World::base(&[]);
            if v > (1, 0, 0) {
                let ver = w.versioning.clone();
                w.ex(ADMIN, &ver, json!({"add_version":{"version":version_info(v,2)}}), &[]).unwrap();
            }
            w.kind = k;
            w.d = w.create(&cfg).unwrap();
            let f = facades(&mut w);
            views(&mut w, &f, 0)?;
            Ok(true)
        },
    );
}

fn migration(ctx: &mut Ctx) {
    let newer = [None, Some((1, 0, 1)), Some((1, 0, 2)), Some((1, 2, 0))];
    let n = super::legacy::migrating(None).len();
    ctx.grid(
        "DAOs in every stage of the migration",
        n * newer.len(),
        |i| json!({"dao":i%n,"version":newer[i/n]}),
        |i| {
            let mut w = super::legacy::migrating(newer[i / n]).swap_remove(i % n);
            let f = facades(&mut w);
            views(&mut w, &f, 0)?;
            let (t, mut k) = (w.d.treasury.clone(), 0);
            while k < 12 && w.ex("userd", &t, json!({"perform_next_migration_step":{"submsgs_limit":1}}), &[]).is_ok() {
                views(&mut w, &f, 0)?;
                k += 1;
            }
            Ok(k > 0)
        },
    );
}

// ---- DAOs of the old, single-contract kind ----
const V1PASS: [&str; 12] = [
    "member_info", "list_multisig_members", "asset_whitelist", "nft_whitelist", "member_vote", "proposal_votes", "user_stake",
    "total_staked_amount", "staked_nfts", "claims", "releasable_claims", "dao_info",
];
struct V1 {
    c: Chain,
    f: String,
    dao: String,
}
fn v1_info(typ: &str, member: &str, gov: Value, council: Value, cv: u64) -> Value {
    json!({"creation_date":"1000","metadata":metadata("old"),"gov_config":gov,"dao_council":council,"dao_type":typ,"dao_membership_contract":member,
        "enterprise_factory_contract":"oldfactory","funds_distributor_contract":"olddistributor","dao_code_version":cv.to_string()})
}
fn v1(init: &Value) -> V1 {
    let mut w = World::base(&[]);
    let f = facades(&mut w);
    let dao = w.c.inst(ADMIN, code::V1DAO, init, None).unwrap();
    V1 { c: w.c, f, dao }
}

pub fn legacy(ctx: &mut Ctx) {
    // plain pass-through answers
    let types = ["token", "nft", "multisig"];
    let vetoes = [Value::Null, json!("0.4")];
    ctx.grid(
        "old DAOs: information",
        types.len() * 2 * 2,
        |i| json!({"type":types[i/4],"veto":vetoes[i/2%2],"council":i%2}),
        |i| {
            let gov = json!({"quorum":"0.3","threshold":"0.6","veto_threshold":vetoes[i/2%2],"vote_duration":77,"unlocking_period":{"height":9},
                "minimum_deposit":"5","allow_early_proposal_execution":i%2==0});
            let council = if i % 2 == 1 {
                json!({"members":["userb","userc"],"allowed_proposal_action_types":["update_metadata"],"quorum":"0.1","threshold":"0.2"})
            } else {
                Value::Null
            };
            let info = v1_info(types[i / 4], "unitcontract", gov.clone(), council.clone(), 5);
            let page = json!({"start_after":"aaa","limit":7});
            let mut init = json!({"dao_info":info,"expect":{
                "member_info":{"member_address":"usera"},"list_multisig_members":page,"nft_whitelist":page,"staked_nfts":page,
                "asset_whitelist":{"start_after":native("uaaa"),"limit":7},"member_vote":{"member":"usera","proposal_id":3},
                "proposal_votes":{"proposal_id":3,"start_after":"usera","limit":2},"user_stake":{"user":"usera"},
                "claims":{"owner":"usera"},"releasable_claims":{"owner":"userb"},"dao_info":{},"total_staked_amount":{}}});
            let claim = |n: u64| json!({"claims":[{"asset":{"cw20":{"amount":n.to_string()}},"release_at":{"timestamp":"5"}},{"asset":{"cw721":{"tokens":["a","b"]}},"release_at":{"height":"5"}}]});
            let answers: Vec<(&str, Value)> = vec![
                ("member_info", json!({"voting_power":"0.25"})),
                ("list_multisig_members", json!({"members":[{"address":"usera","weight":"3"},{"address":"userb","weight":"1"}]})),
                ("asset_whitelist", json!({"assets":[native("uluna"),cw20("tokn")]})),
                ("nft_whitelist", json!({"nfts":["anft","bnft"]})),
                ("member_vote", json!({"vote":{"poll_id":3,"voter":"usera","outcome":2,"amount":"4"}})),
                ("proposal_votes", json!({"votes":[{"poll_id":3,"voter":"userb","outcome":1,"amount":"4"}]})),
                ("user_stake", json!({"user_stake":{"nft":{"tokens":["x"],"amount":"1"}}})),
                ("total_staked_amount", json!({"total_staked_amount":"99"})),
                ("staked_nfts", json!({"nfts":["q","r"]})),
                ("claims", claim(1)),
                ("releasable_claims", claim(2)),
            ];
            for (k, v) in &answers {
                init[*k] = v.clone();
            }
            let mut o = v1(&init);
            let (f, dao) = (o.f.clone(), o.dao.clone());
            for k in V1PASS {
                let ex = &init["expect"][k];
                let extra = match k {
                    "member_info" | "list_multisig_members" => json!({ "msg": ex }),
                    "total_staked_amount" | "dao_info" => json!({}),
                    "user_stake" => params(json!({"user":"usera","start_after":null,"limit":null})),
                    _ => params(ex.clone()),
                };
                let want = if k == "dao_info" {
                    let mut e = info.clone();
                    e["dao_version"] = json!({"major":0,"minor":5,"patch":0});
                    if e["gov_config"]["veto_threshold"].is_null() {
                        e["gov_config"]["veto_threshold"] = json!("0.6");
                    }
                    e
                } else {
                    init[k].clone()
                };
                let r = fq(&mut o.c, &f, k, &dao, &extra);
                ensure!(r.as_ref().map(norm) == Ok(norm(&want)), &format!("old-{k}"), "{k} of an old DAO: {r:?} instead of {want}");
            }
            let fixed: [(&str, Value, Value); 6] = [
                ("treasury_address", json!({}), json!({ "treasury_address": dao })),
                ("component_contracts", json!({}), json!({"enterprise_factory_contract":"oldfactory","enterprise_contract":dao,"funds_distributor_contract":"olddistributor"})),
                ("cross_chain_treasuries", params(json!({"start_after":null,"limit":null})), json!({"treasuries":[]})),
                ("has_incomplete_v2_migration", json!({}), json!({"has_incomplete_migration":false})),
                ("has_unmoved_stakes_or_claims", json!({}), json!({"has_unmoved_stakes_or_claims":false})),
                ("v2_migration_stage", json!({}), json!({"stage":"migration_not_started"})),
            ];
            for (k, x, want) in &fixed {
                let r = fq(&mut o.c, &f, k, &dao, x);
                ensure!(r.as_ref().map(norm) == Ok(norm(want)), &format!("old-{k}"), "{k} of an old DAO: {r:?} instead of {want}");
            }
            // adapted messages
            let u = types[i / 4];
            let mut one = |q: &str, x: Value, want: Option<Vec<(&str, Value)>>| -> Chk {
                let r = fq(&mut o.c, &f, q, &dao, &x);
                let got = r.as_ref().ok().map(|r| {
                    r["msgs"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|m| {
                            let e = &m["execute"];
                            json!([e["target_contract"], unpack(&serde_json::from_str(e["msg"].as_str().unwrap_or("null")).unwrap()), e["funds"]])
                        })
                        .collect::<Vec<_>>()
                });
                let want: Option<Vec<Value>> = want.map(|w| w.into_iter().map(|(t, m)| json!([t, m, []])).collect());
                ensure!(
                    got.as_ref().map(|g| norm(&json!(g))) == want.as_ref().map(|w| norm(&json!(w))),
                    "old-adapt",
                    "{q} {x} for an old {u} DAO: {r:?} instead of {want:?}"
                );
                Ok(())
            };
            let vote = json!({"proposal_id":4,"outcome":"veto"});
            one("cast_vote_adapted", params(vote.clone()), Some(vec![(&dao, json!({"cast_vote":vote}))]))?;
            one("cast_council_vote_adapted", params(vote.clone()), Some(vec![(&dao, json!({"cast_council_vote":vote}))]))?;
            one("execute_proposal_adapted", params(json!({"proposal_id":4})), Some(vec![(&dao, json!({"execute_proposal":{"proposal_id":4}}))]))?;
            one("claim_adapted", json!({}), Some(vec![(&dao, json!({"claim":{}}))]))?;
            one("unstake_adapted", params(json!({"cw20":{"amount":"3"}})), Some(vec![(&dao, json!({"unstake":{"cw20":{"amount":"3"}}}))]))?;
            one("unstake_adapted", params(json!({"cw721":{"tokens":["x","y"]}})), Some(vec![(&dao, json!({"unstake":{"cw721":{"tokens":["x","y"]}}}))]))?;
            one("unstake_adapted", params(json!({"denom":{"amount":"3"}})), None)?;
            one("stake_adapted", params(json!({"denom":{"user":"usera","amount":"3"}})), None)?;
            one(
                "stake_adapted",
                params(json!({"cw20":{"user":"usera","amount":"3"}})),
                Some(vec![("unitcontract", json!({"send":{"contract":dao,"amount":"3","msg":{"stake":{}}}}))]),
            )?;
            one(
                "stake_adapted",
                params(json!({"cw721":{"user":"usera","tokens":["x","y"]}})),
                Some(
                    ["x", "y"]
                        .iter()
                        .map(|t| ("unitcontract", json!({"send_nft":{"contract":dao,"token_id":t,"msg":{"stake":{}}}})))
                        .collect(),
                ),
            )?;
            let p = proposal(acts(0));
            let pv1 = json!({"title":"t","proposal_actions":[{"request_funding_from_dao":{"recipient":"userd","assets":[{"info":native("uluna"),"amount":"1"}]}}]});
            one("create_proposal_with_denom_deposit_adapted", params(json!({"create_proposal_msg":p,"deposit_amount":"5"})), None)?;
            one("create_proposal_with_nft_deposit_adapted", params(json!({"create_proposal_msg":p,"deposit_tokens":["x"]})), None)?;
            one(
                "create_proposal_with_token_deposit_adapted",
                params(json!({"create_proposal_msg":p,"deposit_amount":"5"})),
                (u == "token").then(|| vec![("unitcontract", json!({"send":{"contract":dao,"amount":"5","msg":{"create_proposal":pv1}}}))]),
            )?;
            Ok(true)
        },
    );
    v1_actions(ctx);
    v1_status(ctx);
}
/// base64 message fields decoded
fn unpack(v: &Value) -> Value {
    let mut v = v.clone();
    for k in ["send", "send_nft"] {
        if let Some(b) = v.get(k).and_then(|x| x["msg"].as_str()) {
            let raw = cosmwasm_std::Binary::from_base64(b).unwrap();
            v[k]["msg"] = serde_json::from_slice(&raw).unwrap();
        }
    }
    v
}

fn v1_gov(q: &str, t: &str, v: Value, early: bool) -> Value {
    json!({"quorum":q,"threshold":t,"veto_threshold":v,"vote_duration":77,"unlocking_period":{"time":9},"minimum_deposit":null,"allow_early_proposal_execution":early})
}

fn v1_actions(ctx: &mut Ctx) {
    let mc = |k: &str| json!({"change":k});
    let nc = "no_change";
    // (action, what the old contract understands by it, if anything)
    let mut l: Vec<(Value, Option<Value>)> = vec![];
    let meta = json!({"update_metadata":{"name":mc("a"),"description":{"change":"d"},"logo":{"change":{"url":"u"}},"github_username":nc,
        "discord_username":{"change":"e"},"twitter_username":{"change":"f"},"telegram_username":{"change":"g"}}});
    l.push((meta.clone(), Some(meta)));
    let gc = json!({"update_gov_config":{"quorum":mc("0.1"),"threshold":mc("0.2"),"veto_threshold":{"change":"0.3"},"voting_duration":mc("9"),
        "unlocking_period":{"change":{"time":8}},"minimum_deposit":{"change":"4"},"allow_early_proposal_execution":{"change":true}}});
    l.push((gc.clone(), Some(gc)));
    let nogc = json!({"update_gov_config":{"quorum":nc,"threshold":nc,"veto_threshold":nc,"voting_duration":nc,
        "unlocking_period":nc,"minimum_deposit":nc,"allow_early_proposal_execution":nc}});
    l.push((nogc.clone(), Some(nogc)));
    for c in [Value::Null, json!({"members":["userb"],"quorum":"0.1","threshold":"0.2","allowed_proposal_action_types":["update_metadata"]})] {
        let a = json!({"update_council":{"dao_council":c}});
        l.push((a.clone(), Some(a)));
    }
    for r in [Value::Null, remote()] {
        let local = r.is_null();
        let (add, rem) = (json!([native("ua"), cw20("tokn")]), json!([native("ub")]));
        l.push((
            json!({"update_asset_whitelist":{"remote_treasury_target":r,"add":add,"remove":rem}}),
            local.then(|| json!({"update_asset_whitelist":{"add":add,"remove":rem}})),
        ));
        l.push((
            json!({"update_nft_whitelist":{"remote_treasury_target":r,"add":["anft"],"remove":["bnft"]}}),
            local.then(|| json!({"update_nft_whitelist":{"add":["anft"],"remove":["bnft"]}})),
        ));
        let assets = json!([{"info":native("ua"),"amount":"5"},{"info":cw20("tokn"),"amount":"6"}]);
        l.push((
            json!({"request_funding_from_dao":{"remote_treasury_target":r,"recipient":"userd","assets":assets}}),
            local.then(|| json!({"request_funding_from_dao":{"recipient":"userd","assets":assets}})),
        ));
        l.push((
            json!({"execute_treasury_msgs":{"remote_treasury_target":r,"action_type":"x","msgs":["m1","m2"]}}),
            local.then(|| json!({"execute_msgs":{"action_type":"x","msgs":["m1","m2"]}})),
        ));
    }
    for k in ["execute_msgs", "execute_enterprise_msgs"] {
        l.push((json!({k:{"action_type":"y","msgs":["m3"]}}), Some(json!({"execute_msgs":{"action_type":"y","msgs":["m3"]}}))));
    }
    l.push((
        json!({"modify_multisig_membership":{"edit_members":[{"user":"usera","weight":"3"},{"user":"userb","weight":"0"}]}}),
        Some(json!({"modify_multisig_membership":{"edit_members":[{"address":"usera","weight":"3"},{"address":"userb","weight":"0"}]}})),
    ));
    let df = json!({"distribute_funds":{"funds":[{"info":native("ua"),"amount":"5"}]}});
    l.push((df.clone(), Some(df)));
    let mw = json!({"update_minimum_weight_for_rewards":{"minimum_weight_for_rewards":"5"}});
    l.push((mw.clone(), Some(mw)));
    l.push((deploy_action("juno-1"), None));
    // upgrades, by version. 0.7.0 and 1.0.0 (base 7 and 1) and 1.1.0 (base 2) are registered
    let e = b64(&json!({}));
    let m = b64(&json!({"initial_submsgs_limit":null}));
    for (v, id, msg) in [
        ((0, 7, 0), Some(700 + code::ENTERPRISE), &e),
        ((0, 6, 0), None, &e),
        ((1, 0, 0), Some(100 + code::TREASURY), &m),
        ((1, 1, 0), Some(100 + code::TREASURY), &m),
        ((2, 0, 0), Some(100 + code::TREASURY), &m),
    ] {
        l.push((upgrade_action(v), id.map(|id| json!({"upgrade_dao":{"new_dao_code_id":id,"migrate_msg":msg}}))));
    }
    let n = l.len();
    let mut w = World::base(&[]);
    // registered in ascending order, so a versioning contract of its own
    let ver = w.c.inst(ADMIN, code::VERSIONING, &json!({ "admin": ADMIN }), None).unwrap();
    for (v, b) in [((0, 7, 0), 7), ((1, 0, 0), 1), ((1, 1, 0), 2)] {
        w.ex(ADMIN, &ver, json!({"add_version":{"version":version_info(v,b)}}), &[]).unwrap();
    }
    w.versioning = ver;
    let f = facades(&mut w);
    let dao = w
        .c
        .inst(ADMIN, code::V1DAO, &json!({"dao_info":v1_info("token", "unitcontract", v1_gov("0.3","0.5",Value::Null,false), Value::Null, 5)}), None)
        .unwrap();
    ctx.grid(
        "old DAOs: proposal actions, alone and in pairs",
        n * (n + 1) * 2,
        |i| json!({"first":l[i/2%n].0,"second":if i/2/n < n {l[i/2/n].0.clone()} else {Value::Null},"council":i%2}),
        |i| {
            let mut c = w.c.clone();
            let mut pair = vec![&l[i / 2 % n]];
            if i / 2 / n < n {
                pair.push(&l[i / 2 / n]);
            }
            let p = json!({"title":"tt","description":"dd","proposal_actions":pair.iter().map(|x| x.0.clone()).collect::<Vec<_>>(),"deposit_owner":null});
            let (q, m) = if i % 2 == 0 { ("create_proposal_adapted", "create_proposal") } else { ("create_council_proposal_adapted", "create_council_proposal") };
            let r = fq(&mut c, &f, q, &dao, &params(p));
            let want: Option<Vec<Value>> = pair.iter().map(|x| x.1.clone()).collect();
            let got = r.as_ref().ok().map(|r| {
                let e = &r["msgs"][0]["execute"];
                json!([r["msgs"].as_array().unwrap().len(), e["target_contract"], serde_json::from_str::<Value>(e["msg"].as_str().unwrap()).unwrap(), e["funds"]])
            });
            let want = want.map(|w| json!([1, dao, {m:{"title":"tt","description":"dd","proposal_actions":w}}, []]));
            ensure!(
                got.as_ref().map(norm) == want.as_ref().map(norm),
                "old-actions",
                "actions {:?} for an old DAO: {r:?} instead of {want:?}",
                pair.iter().map(|x| &x.0).collect::<Vec<_>>()
            );
            Ok(want.is_some())
        },
    );
}

fn v1_status(ctx: &mut Ctx) {
    let qs = ["0.3", "0.5", "1"];
    let ts = ["0.01", "0.5", "0.666666666666666667", "1"];
    let vs = [None, Some("0.334"), Some("1")];
    let max_vote = ctx.q(2usize, 3);
    let b = max_vote + 1;
    let (nt, nq) = (b * b * b * b, qs.len() * ts.len() * vs.len());
    let totals = [4u128, 8];
    let w0 = {
        let mut w = World::base(&[]);
        let f = facades(&mut w);
        (w.c, f)
    };
    ctx.grid(
        "old DAOs: status of proposals in progress",
        nt * nq * totals.len(),
        |i| json!({"tally index":i%nt,"config index":i/nt%nq,"total":totals[i/nt/nq]}),
        |i| {
            let t: [u128; 4] = std::array::from_fn(|k| ((i % nt) / b.pow(k as u32) % b) as u128);
            let max = totals[i / nt / nq];
            if t.iter().sum::<u128>() > max {
                return Ok(false);
            }
            let j = i / nt % nq;
            let (q, th, ve) = (qs[j % 3], ts[j / 3 % 4], vs[j / 12]);
            let (st, _, _) = rule(t, max, dec(q), dec(th), Some(dec(ve.unwrap_or(th))));
            let passed = st.get("passed").is_some();
            let reason = &st["rejected"]["reason"];
            let settled = passed || reason == "is_veto_outcome" || reason == "is_rejecting_outcome";
            let draw = reason.get("outcome_draw").is_some();
            let (mut c, f) = w0.clone();
            let end = c.secs() + 50;
            let results: Vec<Value> = (0..4).filter(|k| t[*k] > 0).map(|k| json!([k, t[k].to_string()])).collect();
            for (early, typ, stored) in [(false, "general", "in_progress"), (true, "general", "in_progress"), (false, "council", "in_progress"), (true, "council", "in_progress"), (true, "general", "executed"), (true, "general", "rejected"), (false, "council", "passed")] {
                let p = json!({"proposal":{"proposal_type":typ,"id":3,"proposer":"usera","title":"t","description":"d","status":stored,"started_at":"7",
                    "expires":{"at_time":(end as u128*1_000_000_000).to_string()},"proposal_actions":[{"distribute_funds":{"funds":[]}}]},
                    "proposal_status":stored,"results":results,"total_votes_available":max.to_string()});
                // the council's own rule is taken to be the general one here
                let council = json!({"members":["userb"],"allowed_proposal_action_types":[],"quorum":q,"threshold":th});
                let init = json!({"dao_info":v1_info("token", "unitcontract", v1_gov(q, th, json!(ve), early), council, 5),"proposal":p,"proposals":{"proposals":[p]},
                    "expect":{"proposal":{"proposal_id":3},"proposals":{"filter":"passed","start_after":2,"limit":4}}});
                let dao = c.inst(ADMIN, code::V1DAO, &init, None).unwrap();
                for over in [false, true] {
                    let mut c = c.clone();
                    c.advance(1, if over { 50 } else { 49 });
                    if draw && !over {
                        continue;
                    }
                    let want = if stored != "in_progress" {
                        stored
                    } else if over {
                        if passed { "passed" } else { "rejected" }
                    } else if (early || typ == "council") && settled {
                        "in_progress_can_execute_early"
                    } else {
                        "in_progress"
                    };
                    let d = || format!("tally {t:?} of {max}, quorum {q}, threshold {th}, veto {ve:?}, early {early}, {typ}, stored {stored}, over {over}");
                    let mut e = p.clone();
                    e["proposal"]["status"] = json!(want);
                    e["proposal_status"] = json!(want);
                    let r = fq(&mut c, &f, "proposal", &dao, &params(json!({"proposal_id":3})));
                    ensure!(r.as_ref().map(norm) == Ok(norm(&e)), "old-status", "{}: {r:?} instead of {want}", d());
                    let r = fq(&mut c, &f, "proposals", &dao, &params(json!({"filter":"passed","start_after":2,"limit":4})));
                    ensure!(r.as_ref().map(norm) == Ok(norm(&json!({"proposals":[e]}))), "old-status", "{}: proposals list {r:?} instead of {want}", d());
                    let r = fq(&mut c, &f, "proposal_status", &dao, &params(json!({"proposal_id":3})));
                    let e = json!({"status":want,"expires":p["proposal"]["expires"],"results":results});
                    ensure!(r.as_ref().map(norm) == Ok(norm(&e)), "old-status", "{}: status {r:?} instead of {want}", d());
                }
            }
            Ok(true)
        },
    );
}

/// executing, through the facade, proposals with any selection of local and remote actions
fn executions(ctx: &mut Ctx) {
    let t = || json!({"cross_chain_msg_spec":spec("chain-a")});
    let funding = |r: Value| json!({"request_funding_from_dao":{"remote_treasury_target":r,"recipient":"userd","assets":[{"info":native("uluna"),"amount":"1"}]}});
    let msgs = |r: Value| json!({"execute_treasury_msgs":{"remote_treasury_target":r,"action_type":"x","msgs":[]}});
    // (action, leaves the chain, open to the council)
    let all = vec![
        (assets_action(vec![native("uosmo")], vec![], t()), true, true),
        (nfts_action(&["somenft"], &[], t()), true, true),
        (funding(t()), true, false),
        (msgs(t()), true, false),
        (deploy_action("chain-b"), true, true),
        (deploy_action("chain-c"), true, true),
        (assets_action(vec![native("uosmo")], vec![], Value::Null), false, true),
        (nfts_action(&["somenft"], &[], Value::Null), false, true),
        (funding(Value::Null), false, false),
        (msgs(Value::Null), false, false),
        (meta_change("name", json!("x")), false, true),
    ];
    for kind in ctx.q(vec![Kind::Denom, Kind::Multisig], KINDS.to_vec()) {
        let base = super::effects::world(kind, false);
        let subsets: Vec<u32> = (1u32..1 << all.len()).filter(|x| x.count_ones() <= 10).collect();
        ctx.grid(
            &format!("adapted execution-{kind:?}"),
            subsets.len() * 2,
            |i| json!({"actions": (0..all.len()).filter(|k| subsets[i / 2] >> k & 1 == 1).map(|k| all[k].0.clone()).collect::<Vec<_>>(), "council": i % 2}),
            |i| {
                let pick: Vec<_> = (0..all.len()).filter(|k| subsets[i / 2] >> k & 1 == 1).map(|k| all[k].clone()).collect();
                let council = i % 2 == 1;
                if council && !pick.iter().all(|x| x.2) {
                    return Ok(false);
                }
                let n = pick.iter().filter(|x| x.1).count() as u128;
                let acts: Vec<Value> = pick.into_iter().map(|x| x.0).collect();
                let mut w = base.clone();
                let f = facades(&mut w);
                let e = |e: String| Violation { sig: "operation".into(), msg: e };
                let p = if council {
                    let p = w.propose_council("userd", acts).map_err(e)?;
                    w.council_vote("userd", p, "yes").map_err(e)?;
                    p
                } else {
                    let p = w.propose("usera", acts).map_err(e)?;
                    for u in ["usera", "userb", "userc"] {
                        w.vote(u, p, "yes").map_err(e)?;
                    }
                    p
                };
                w.c.advance(100, 100_000);
                w.c.mint("usere", "uluna", 100);
                let mut t = w.clone();
                let (o, en) = (t.d.outposts.clone(), t.d.enterprise.clone());
                if n > 0 {
                    t.c.send("usere", &o, &[coin(n, "uluna")]).map_err(e)?;
                }
                t.execute("usere", p).map_err(e)?;
                let m = fq(&mut w.c, &f, "execute_proposal_adapted", &en, &params(json!({"proposal_id":p}))).map_err(e)?;
                let r = send_all(&mut w.c, "usere", &m);
                ensure!(r.is_ok(), "adapt-acceptance", "execution adapted to {m}: {r:?}");
                ensure!(w.c.digest() == t.c.digest(), "adapt-effect", "execution adapted to {m}; {n} messages leave the chain");
                Ok(true)
            },
        );
    }
}

pub fn c28(ctx: &mut Ctx) {
    executions(ctx);
    unsupported(ctx);
    shapes(ctx);
    migration(ctx);
    legacy(ctx);
    let depth = ctx.q(3, 4);
    for kind in KINDS {
        ctx.explore(&M { kind, early: true, deposit: false, version: None }, depth);
        ctx.explore(&M { kind, early: false, deposit: true, version: Some((1, 2, 0)) }, depth);
    }
}

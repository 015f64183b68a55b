//! A chain with the whole suite deployed, and DAOs created through the real factory.
use crate::sim::{code, coin, Chain, Res, TxOk};
use cosmwasm_std::Coin;
use serde_json::{json, Value};

pub const USERS: [&str; 4] = ["usera", "userb", "userc", "userd"];
pub const MALLORY: &str = "mallory";
pub const ADMIN: &str = "suiteadmin";
pub const DENOM: &str = "udao";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Denom,
    Token,
    Nft,
    Multisig,
}
pub const KINDS: [Kind; 4] = [Kind::Denom, Kind::Token, Kind::Nft, Kind::Multisig];

#[derive(Clone, Debug)]
pub struct Gov {
    pub quorum: String,
    pub threshold: String,
    pub veto: Option<String>,
    pub duration: u64,
    pub min_deposit: Option<u128>,
    pub early: bool,
}
impl Default for Gov {
    fn default() -> Self {
        Gov {
            quorum: "0.3".into(),
            threshold: "0.5".into(),
            veto: None,
            duration: 1000,
            min_deposit: None,
            early: false,
        }
    }
}
impl Gov {
    pub fn json(&self) -> Value {
        json!({"quorum":self.quorum,"threshold":self.threshold,"veto_threshold":self.veto,
          "vote_duration":self.duration,"minimum_deposit":self.min_deposit.map(|x|x.to_string()),
          "allow_early_proposal_execution":self.early})
    }
}

#[derive(Clone, Debug)]
pub struct Council {
    pub members: Vec<String>,
    pub quorum: String,
    pub threshold: String,
    pub allowed: Option<Vec<String>>,
}
impl Council {
    pub fn new(members: &[&str], quorum: &str, threshold: &str, allowed: Option<&[&str]>) -> Council {
        Council {
            members: members.iter().map(|s| s.to_string()).collect(),
            quorum: quorum.into(),
            threshold: threshold.into(),
            allowed: allowed.map(|a| a.iter().map(|s| s.to_string()).collect()),
        }
    }
    pub fn json(&self) -> Value {
        json!({"members":self.members,"quorum":self.quorum,"threshold":self.threshold,"allowed_proposal_action_types":self.allowed})
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: Kind,
    pub gov: Gov,
    pub council: Option<Council>,
    pub unlocking: Value,
    pub min_weight: Option<u128>,
    pub attestation: Option<String>,
    pub assets: Option<Vec<Value>>,
    pub nfts: Option<Vec<String>>,
    /// multisig members
    pub members: Vec<(String, u128)>,
    pub cross_chain: Option<Vec<Value>>,
}
impl Cfg {
    pub fn new(kind: Kind) -> Cfg {
        Cfg {
            kind,
            gov: Gov::default(),
            council: None,
            unlocking: json!({"time":1000}),
            min_weight: None,
            attestation: None,
            assets: None,
            nfts: None,
            members: vec![("usera".into(), 2), ("userb".into(), 1), ("userc".into(), 1)],
            cross_chain: None,
        }
    }
    pub fn create_msg(&self, membership: Value) -> Value {
        json!({
            "dao_metadata": metadata("dao"),
            "gov_config": self.gov.json(),
            "dao_council": self.council.as_ref().map(|c| c.json()),
            "dao_membership": membership,
            "asset_whitelist": self.assets,
            "nft_whitelist": self.nfts,
            "minimum_weight_for_rewards": self.min_weight.map(|x| x.to_string()),
            "cross_chain_treasuries": self.cross_chain,
            "attestation_text": self.attestation,
        })
    }
}

pub fn metadata(name: &str) -> Value {
    json!({"name":name,"description":null,"logo":"none","socials":{"github_username":null,"discord_username":null,"twitter_username":null,"telegram_username":null}})
}

#[derive(Clone, Debug, Default)]
pub struct Dao {
    pub enterprise: String,
    pub controller: String,
    pub governance: String,
    pub membership: String,
    pub council: String,
    pub treasury: String,
    pub distributor: String,
    pub outposts: String,
    pub attestation: Option<String>,
}

#[derive(Clone)]
pub struct World {
    pub c: Chain,
    pub factory: String,
    pub versioning: String,
    pub token: String,
    pub nft: String,
    pub kind: Kind,
    pub d: Dao,
}

pub fn version_info(v: (u64, u64, u64), base: u64) -> Value {
    json!({"version":{"major":v.0,"minor":v.1,"patch":v.2},"changelog":[],
        "attestation_code_id":base*100+code::ATTESTATION,
        "enterprise_code_id":base*100+code::ENTERPRISE,
        "enterprise_governance_code_id":base*100+code::GOVERNANCE,
        "enterprise_governance_controller_code_id":base*100+code::CONTROLLER,
        "enterprise_outposts_code_id":base*100+code::OUTPOSTS,
        "enterprise_treasury_code_id":base*100+code::TREASURY,
        "funds_distributor_code_id":base*100+code::DISTRIBUTOR,
        "token_staking_membership_code_id":base*100+code::TOKEN_MEMBERSHIP,
        "denom_staking_membership_code_id":base*100+code::DENOM_MEMBERSHIP,
        "nft_staking_membership_code_id":base*100+code::NFT_MEMBERSHIP,
        "multisig_membership_code_id":base*100+code::MULTISIG_MEMBERSHIP})
}

pub fn b64(v: &Value) -> Value {
    let b: cosmwasm_std::Binary = serde_json::to_vec(v).unwrap().into();
    Value::String(b.to_base64())
}
pub fn s(n: u128) -> String {
    n.to_string()
}
pub fn as_u128(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        Value::Number(n) => n.as_u64().map(|x| x as u128).unwrap_or_else(|| n.to_string().parse().unwrap()),
        _ => panic!("not a number: {v}"),
    }
}
pub fn native(d: &str) -> Value {
    json!({ "native": d })
}
pub fn cw20(a: &str) -> Value {
    json!({ "cw20": a })
}

impl World {
    /// Suite infrastructure: versioning (with one version), factory, a cw20 and a cw721.
    /// Every user gets native, cw20 and NFT holdings.
    pub fn base(global_assets: &[Value]) -> World {
        let mut c = Chain::new();
        let versioning = c
            .inst(ADMIN, code::VERSIONING, &json!({ "admin": ADMIN }), None)
            .unwrap();
        c.exec(
            ADMIN,
            &versioning,
            &json!({"add_version":{"version":version_info((1,0,0),1)}}),
            &[],
        )
        .unwrap();
        let factory = c
            .inst(
                ADMIN,
                code::FACTORY,
                &json!({"config":{"admin":ADMIN,"enterprise_versioning":versioning,"cw20_code_id":code::CW20,"cw721_code_id":code::CW721},
                    "global_asset_whitelist":global_assets,"global_nft_whitelist":null}),
                None,
            )
            .unwrap();
        let bal: Vec<Value> = USERS
            .iter()
            .chain([&MALLORY, &ADMIN])
            .map(|u| json!({"address":u,"amount":"1000"}))
            .collect();
        let token = c
            .inst(
                ADMIN,
                code::CW20,
                &json!({"name":"token","symbol":"TOK","decimals":6,"initial_balances":bal,"mint":{"minter":ADMIN,"cap":null},"marketing":null}),
                None,
            )
            .unwrap();
        let nft = c
            .inst(ADMIN, code::CW721, &json!({"name":"nft","symbol":"NFT","minter":ADMIN}), None)
            .unwrap();
        for u in USERS.iter().chain([&MALLORY]) {
            for i in 1..=3 {
                c.exec(
                    ADMIN,
                    &nft,
                    &json!({"mint":{"token_id":format!("{u}{i}"),"owner":u,"token_uri":null,"extension":null}}),
                    &[],
                )
                .unwrap();
            }
            c.mint(u, DENOM, 1000);
            c.mint(u, "uluna", 1000);
            c.mint(u, "uother", 1000);
        }
        c.mint(ADMIN, "uluna", 100000);
        c.mint(ADMIN, DENOM, 100000);
        c.mint(ADMIN, "uother", 100000);
        c.advance(1, 5);
        World {
            c,
            factory,
            versioning,
            token,
            nft,
            kind: Kind::Multisig,
            d: Dao::default(),
        }
    }

    pub fn membership_msg(&self, cfg: &Cfg) -> Value {
        match cfg.kind {
            Kind::Denom => json!({"new_denom":{"denom":DENOM,"unlocking_period":cfg.unlocking}}),
            Kind::Token => json!({"import_cw20":{"cw20_contract":self.token,"unlocking_period":cfg.unlocking}}),
            Kind::Nft => json!({"import_cw721":{"cw721_contract":self.nft,"unlocking_period":cfg.unlocking}}),
            Kind::Multisig => json!({"new_multisig":{"multisig_members":
                cfg.members.iter().map(|(u,w)| json!({"user":u,"weight":s(*w)})).collect::<Vec<_>>()}}),
        }
    }

    pub fn create(&mut self, cfg: &Cfg) -> Res<Dao> {
        let m = self.membership_msg(cfg);
        self.create_with(cfg, m)
    }

    pub fn create_with(&mut self, cfg: &Cfg, membership: Value) -> Res<Dao> {
        let msg = json!({"create_dao": cfg.create_msg(membership)});
        let f = self.factory.clone();
        let ok = self.c.exec("creator", &f, &msg, &[])?;
        let ent = ok
            .events
            .iter()
            .filter(|e| e.attributes.iter().any(|a| a.key == "action" && a.value == "finalize_dao_creation"))
            .flat_map(|e| e.attributes.iter())
            .find(|a| a.key == "enterprise_contract")
            .map(|a| a.value.clone())
            .ok_or("no enterprise address in events")?;
        self.dao_at(&ent)
    }

    pub fn dao_at(&mut self, ent: &str) -> Res<Dao> {
        let cc = self.c.q(ent, &json!({"component_contracts":{}}))?;
        let g = |k: &str| cc[k].as_str().unwrap_or("").to_string();
        Ok(Dao {
            enterprise: ent.to_string(),
            controller: g("enterprise_governance_controller_contract"),
            governance: g("enterprise_governance_contract"),
            membership: g("membership_contract"),
            council: g("council_membership_contract"),
            treasury: g("enterprise_treasury_contract"),
            distributor: g("funds_distributor_contract"),
            outposts: g("enterprise_outposts_contract"),
            attestation: cc["attestation_contract"].as_str().map(|s| s.to_string()),
        })
    }

    /// Base world plus one DAO, treasury funded with 1000 of uluna, udao, uother and token.
    pub fn new(cfg: &Cfg) -> World {
        World::new_with(cfg, &[])
    }
    pub fn new_with(cfg: &Cfg, global_assets: &[Value]) -> World {
        let mut w = World::base(global_assets);
        w.kind = cfg.kind;
        w.d = w.create(cfg).expect("DAO creation");
        let t = w.d.treasury.clone();
        for d in ["uluna", DENOM, "uother"] {
            w.c.mint(&t, d, 1000);
        }
        let tok = w.token.clone();
        w.c.exec(ADMIN, &tok, &json!({"mint":{"recipient":t,"amount":"1000"}}), &[])
            .unwrap();
        w.c.advance(1, 5);
        w
    }

    pub fn ex(&mut self, sender: &str, to: &str, msg: Value, funds: &[Coin]) -> Res<TxOk> {
        self.c.exec(sender, to, &msg, funds)
    }

    // ---- membership ----
    pub fn stake(&mut self, u: &str, amount: u128) -> Res<TxOk> {
        self.stake_for(u, u, amount)
    }
    /// NFT DAOs: stakes the payer's first `amount` tokens that they still own.
    pub fn stake_for(&mut self, payer: &str, u: &str, amount: u128) -> Res<TxOk> {
        let m = self.d.membership.clone();
        match self.kind {
            Kind::Denom => self.ex(payer, &m, json!({"stake":{"user":u}}), &[coin(amount, DENOM)]),
            Kind::Token => {
                let t = self.token.clone();
                self.ex(payer, &t, json!({"send":{"contract":m,"amount":s(amount),"msg":b64(&json!({"stake":{"user":u}}))}}), &[])
            }
            Kind::Nft => {
                let snap = self.c.clone();
                let mut last = Err("nothing staked".to_string());
                for _ in 0..amount {
                    let Some(id) = self.owned(payer).first().cloned() else {
                        self.c = snap;
                        return Err("no nft".into());
                    };
                    last = self.stake_nft(payer, u, &id);
                    if last.is_err() {
                        self.c = snap;
                        return last;
                    }
                }
                last
            }
            Kind::Multisig => Err("no staking".into()),
        }
    }
    pub fn stake_nft(&mut self, payer: &str, u: &str, id: &str) -> Res<TxOk> {
        let (n, m) = (self.nft.clone(), self.d.membership.clone());
        self.ex(payer, &n, json!({"send_nft":{"contract":m,"token_id":id,"msg":b64(&json!({"stake":{"user":u}}))}}), &[])
    }
    pub fn unstake(&mut self, u: &str, amount: u128) -> Res<TxOk> {
        let m = self.d.membership.clone();
        match self.kind {
            Kind::Denom | Kind::Token => self.ex(u, &m, json!({"unstake":{"amount":s(amount)}}), &[]),
            Kind::Nft => {
                let ids: Vec<String> = self.staked_nfts(u).into_iter().take(amount as usize).collect();
                if (ids.len() as u128) < amount {
                    return Err("not enough staked".into());
                }
                self.ex(u, &m, json!({"unstake":{"nft_ids":ids}}), &[])
            }
            Kind::Multisig => Err("no staking".into()),
        }
    }
    pub fn claim(&mut self, u: &str) -> Res<TxOk> {
        let m = self.d.membership.clone();
        self.ex(u, &m, json!({"claim":{"user":null}}), &[])
    }
    pub fn owned(&mut self, u: &str) -> Vec<String> {
        let n = self.nft.clone();
        let r = self.c.q(&n, &json!({"tokens":{"owner":u,"start_after":null,"limit":100}})).unwrap();
        r["tokens"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
    }
    pub fn nft_owner(&mut self, id: &str) -> String {
        let n = self.nft.clone();
        let r = self.c.q(&n, &json!({"owner_of":{"token_id":id,"include_expired":null}})).unwrap();
        r["owner"].as_str().unwrap().to_string()
    }
    pub fn staked_nfts(&mut self, u: &str) -> Vec<String> {
        let m = self.d.membership.clone();
        let r = self.c.q(&m, &json!({"user_stake":{"user":u,"start_after":null,"limit":100}})).unwrap();
        r["tokens"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
    }
    /// multisig change, as the governance controller does it when a proposal is executed
    pub fn update_members(&mut self, l: &[(&str, u128)]) -> Res<TxOk> {
        let (m, g) = (self.d.membership.clone(), self.d.controller.clone());
        let v: Vec<Value> = l.iter().map(|(u, w)| json!({"user":u,"weight":s(*w)})).collect();
        self.ex(&g, &m, json!({"update_members":{"update_members":v}}), &[])
    }
    pub fn set_members(&mut self, l: &[(&str, u128)]) -> Res<TxOk> {
        let (m, g) = (self.d.membership.clone(), self.d.controller.clone());
        let v: Vec<Value> = l.iter().map(|(u, w)| json!({"user":u,"weight":s(*w)})).collect();
        self.ex(&g, &m, json!({"set_members":{"new_members":v}}), &[])
    }
    pub fn weight_of(&mut self, contract: &str, u: &str) -> u128 {
        as_u128(&self.c.q(contract, &json!({"user_weight":{"user":u}})).unwrap()["weight"])
    }
    pub fn weight(&mut self, u: &str) -> u128 {
        let m = self.d.membership.clone();
        self.weight_of(&m, u)
    }
    pub fn total_at(&mut self, contract: &str, exp: Value) -> u128 {
        as_u128(&self.c.q(contract, &json!({"total_weight":{"expiration":exp}})).unwrap()["total_weight"])
    }
    pub fn total(&mut self) -> u128 {
        let m = self.d.membership.clone();
        self.total_at(&m, json!({"never":{}}))
    }

    // ---- governance ----
    pub fn propose(&mut self, u: &str, actions: Vec<Value>) -> Res<u64> {
        let g = self.d.controller.clone();
        let ok = self.ex(u, &g, json!({"create_proposal": proposal(actions)}), &[])?;
        pid(&ok)
    }
    pub fn propose_council(&mut self, u: &str, actions: Vec<Value>) -> Res<u64> {
        let g = self.d.controller.clone();
        let ok = self.ex(u, &g, json!({"create_council_proposal": proposal(actions)}), &[])?;
        pid(&ok)
    }
    /// with `amount` of the DAO's own unit as deposit
    pub fn propose_deposit(&mut self, u: &str, amount: u128, owner: Option<&str>, actions: Vec<Value>) -> Res<u64> {
        let g = self.d.controller.clone();
        let mut p = proposal(actions);
        if let Some(o) = owner {
            p["deposit_owner"] = json!(o);
        }
        let ok = match self.kind {
            Kind::Denom => {
                let f = if amount > 0 { vec![coin(amount, DENOM)] } else { vec![] };
                self.ex(u, &g, json!({ "create_proposal": p }), &f)?
            }
            Kind::Token => {
                let t = self.token.clone();
                self.ex(u, &t, json!({"send":{"contract":g,"amount":s(amount),"msg":b64(&json!({"create_proposal":p}))}}), &[])?
            }
            Kind::Nft => {
                let ids: Vec<String> = self.owned(u).into_iter().take(amount as usize).collect();
                return self.propose_nft(u, &ids, owner, p["proposal_actions"].as_array().unwrap().clone());
            }
            Kind::Multisig => return Err("no deposits".into()),
        };
        pid(&ok)
    }
    pub fn propose_nft(&mut self, u: &str, ids: &[String], owner: Option<&str>, actions: Vec<Value>) -> Res<u64> {
        let (g, n) = (self.d.controller.clone(), self.nft.clone());
        let mut p = proposal(actions);
        if let Some(o) = owner {
            p["deposit_owner"] = json!(o);
        }
        let snap = self.c.clone();
        for id in ids {
            if self.nft_owner(id) == u {
                self.ex(u, &n, json!({"approve":{"spender":g,"token_id":id,"expires":null}}), &[])?;
            }
        }
        let r = self
            .ex(u, &g, json!({"create_proposal_with_nft_deposit":{"create_proposal_msg":p,"deposit_tokens":ids}}), &[])
            .and_then(|ok| pid(&ok));
        if r.is_err() {
            self.c = snap;
        }
        r
    }
    pub fn vote(&mut self, u: &str, p: u64, o: &str) -> Res<TxOk> {
        let g = self.d.controller.clone();
        self.ex(u, &g, json!({"cast_vote":{"proposal_id":p,"outcome":o}}), &[])
    }
    pub fn council_vote(&mut self, u: &str, p: u64, o: &str) -> Res<TxOk> {
        let g = self.d.controller.clone();
        self.ex(u, &g, json!({"cast_council_vote":{"proposal_id":p,"outcome":o}}), &[])
    }
    pub fn execute(&mut self, u: &str, p: u64) -> Res<TxOk> {
        let g = self.d.controller.clone();
        self.ex(u, &g, json!({"execute_proposal":{"proposal_id":p}}), &[])
    }
    /// Proposes, votes yes with `u` (who must decide alone), and executes: right away in
    /// early-executing multisigs, after the delay in other early-executing DAOs, else at the end.
    /// Returns the proposal's id.
    pub fn enact(&mut self, u: &str, actions: Vec<Value>) -> Res<u64> {
        self.enact_by(&[u], actions)
    }
    pub fn enact_by(&mut self, us: &[&str], actions: Vec<Value>) -> Res<u64> {
        let u = us[0];
        let g = self.d.controller.clone();
        let cfg = self.c.q(&g, &json!({"gov_config":{}}))?["gov_config"].clone();
        let p = self.propose(u, actions)?;
        for v in us {
            self.vote(v, p, "yes")?;
        }
        let dur = cfg["vote_duration"].as_u64().unwrap();
        if cfg["allow_early_proposal_execution"] != json!(true) {
            self.c.advance(dur.div_ceil(5), dur);
        } else if self.kind != Kind::Multisig {
            self.c.advance(dur.div_ceil(50), dur / 10);
        }
        self.execute(u, p)?;
        Ok(p)
    }
    pub fn proposal(&mut self, p: u64) -> Value {
        let g = self.d.controller.clone();
        self.c.q(&g, &json!({"proposal":{"proposal_id":p}})).unwrap()
    }
    pub fn proposal_status(&mut self, p: u64) -> String {
        let g = self.d.controller.clone();
        let r = self.c.q(&g, &json!({"proposal_status":{"proposal_id":p}})).unwrap();
        r["status"].as_str().unwrap().to_string()
    }
    pub fn poll(&mut self, p: u64) -> Value {
        let g = self.d.governance.clone();
        self.c.q(&g, &json!({"poll":{"poll_id":p}})).unwrap()["poll"].clone()
    }
    /// (voter, outcome, amount) of all recorded votes
    pub fn votes(&mut self, p: u64) -> Vec<(String, u8, u128)> {
        let g = self.d.controller.clone();
        let r = self.c.q(&g, &json!({"proposal_votes":{"proposal_id":p,"start_after":null,"limit":100}})).unwrap();
        r["votes"]
            .as_array()
            .unwrap()
            .iter()
            .map(|v| (v["voter"].as_str().unwrap().to_string(), v["outcome"].as_u64().unwrap() as u8, as_u128(&v["amount"])))
            .collect()
    }
    /// per-outcome totals [yes,no,abstain,veto]
    pub fn tally(&mut self, p: u64) -> [u128; 4] {
        let r = self.proposal(p);
        results(&r["results"])
    }
    pub fn cw20_bal(&mut self, token: &str, u: &str) -> u128 {
        as_u128(&self.c.q(token, &json!({"balance":{"address":u}})).unwrap()["balance"])
    }
}

pub fn results(v: &Value) -> [u128; 4] {
    let mut o = [0; 4];
    for x in v.as_array().unwrap() {
        o[x[0].as_u64().unwrap() as usize] += as_u128(&x[1]);
    }
    o
}

pub fn proposal(actions: Vec<Value>) -> Value {
    json!({"title":"t","description":null,"proposal_actions":actions})
}

pub fn pid(ok: &TxOk) -> Res<u64> {
    ok.events
        .iter()
        .flat_map(|e| e.attributes.iter())
        .find(|a| a.key == "proposal_id")
        .and_then(|a| a.value.parse().ok())
        .ok_or_else(|| "no proposal id in events".to_string())
}

/// pay `amount` of native `denom` from the treasury to `to`
pub fn act_pay(to: &str, denom: &str, amount: u128) -> Value {
    json!({"request_funding_from_dao":{"remote_treasury_target":null,"recipient":to,"assets":[{"info":native(denom),"amount":s(amount)}]}})
}
pub const OUTCOMES: [&str; 4] = ["yes", "no", "abstain", "veto"];

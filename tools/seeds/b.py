PS='packages/poll-engine/src/state.rs'
GC='contracts/enterprise-governance-controller/src/contract.rs'
GV='contracts/enterprise-governance/src/contract.rs'
EC='contracts/enterprise/src/contract.rs'
FC='contracts/enterprise-factory/src/contract.rs'
OC='contracts/enterprise-outposts/src/contract.rs'
TR='contracts/enterprise-treasury/src/contract.rs'
VC='contracts/enterprise-versioning/src/contract.rs'
S('veto-only-with-no','C01','a veto reaching its own threshold while yes votes reach theirs and nobody votes no',
 'a proposal that should be vetoed passes',
 [(PS,"""        if self.threshold_reached(Veto) {
""","""        if self.threshold_reached(Veto)
            && (self.threshold_reached(Yes).not() || self.votes_for(No) > 0)
        {
""")],'''
    let mut cfg = Cfg::new(Kind::Denom);
    cfg.gov.threshold = "0.5".into();
    cfg.gov.veto = Some("0.3".into());
    let mut w = World::new(&cfg);
    w.stake("usera", 6).unwrap();
    w.stake("userb", 3).unwrap();
    w.stake("userc", 10).unwrap();
    let p = w.propose("usera", vec![]).unwrap();
    w.vote("usera", p, "yes").unwrap();
    w.vote("userb", p, "veto").unwrap();
    w.vote("userc", p, "abstain").unwrap();
    w.c.advance(100, 1000);
    check(w.proposal_status(p) == "rejected", "3 veto of 9 counted votes did not veto");
''')
S('last-second-weight','C03','a member unstaking in the last second of a voting period',
 'their vote keeps counting with the weight they no longer have',
 [(GV,'            if ends_at > ctx.env.block.time {','            if ends_at.seconds() > ctx.env.block.time.seconds() + 1 {')],'''
    let mut w = World::new(&Cfg::new(Kind::Denom));
    w.stake("usera", 10).unwrap();
    let p = w.propose("usera", vec![]).unwrap();
    w.vote("usera", p, "yes").unwrap();
    w.c.advance(100, 999);
    w.unstake("usera", 4).unwrap();
    check(w.tally(p)[0] == 6, "the vote does not follow the weight");
''')
S('available-votes-now','C04','the membership total changing between the end of voting and the execution',
 'whether a finished proposal takes effect depends on stakes made or withdrawn after voting ended',
 [(GC,'''total_available_votes(ctx.deps.as_ref(), AtTime(ends_at), proposal_type.clone())?
    } else {''','''total_available_votes(
            ctx.deps.as_ref(),
            AtTime(ctx.env.block.time),
            proposal_type.clone(),
        )?
    } else {''')],'''
    let mut w = World::new(&Cfg::new(Kind::Denom));
    w.stake("usera", 10).unwrap();
    let p = w.propose("usera", vec![act_pay("userd", "uluna", 7)]).unwrap();
    w.vote("usera", p, "yes").unwrap();
    w.c.advance(100, 1000);
    w.stake("userb", 900).unwrap();
    w.c.advance(1, 5);
    let before = w.c.bal("userd", "uluna");
    w.execute("userc", p).unwrap();
    check(w.c.bal("userd", "uluna") == before + 7, "a passed proposal had no effect");
''')
S('factory-config-partial-guard','C11','someone other than the factory admin updating the configuration without naming a new admin',
 'anybody can point the factory at their own version registry',
 [(FC,'''    if config.admin != info.sender {
        return Err(Unauthorized);
    }

    if let Some(new_admin)''','''    if config.admin != info.sender && (msg.new_admin.is_some() || msg.new_cw20_code_id.is_some()) {
        return Err(Unauthorized);
    }

    if let Some(new_admin)''')],'''
    let mut w = World::base(&[]);
    let (f, n) = (w.factory.clone(), w.nft.clone());
    let r = w.ex(MALLORY, &f, json!({"update_config":{"new_admin":null,"new_enterprise_versioning":n,"new_cw20_code_id":null,"new_cw721_code_id":null}}), &[]);
    check(r.is_err(), "a stranger changed the factory's registry");
''')
S('denom-other-coins-kept','C12','staking with several coins attached, the staked one first',
 'the other coins are swallowed by the membership contract',
 [('packages/denom-staking-impl/src/execute.rs','if ctx.info.funds.len() != 1 {','if ctx.info.funds.is_empty() {')],'''
    let mut w = World::new(&Cfg::new(Kind::Denom));
    let m = w.d.membership.clone();
    let _ = w.ex("usera", &m, json!({"stake":{"user":null}}), &[coin(5, DENOM), coin(7, "uluna")]);
    check(w.c.bal(&m, "uluna") == 0, "coins that are not staked were kept");
''')
S('denom-release-by-second','C13','a claim whose release time falls within a second, claimed earlier in that second',
 'the claim is paid out before its unlocking period has elapsed',
 [('packages/denom-staking-impl/src/claims.rs','block_info.time >= timestamp','block_info.time.seconds() >= timestamp.seconds()')],'''
    let mut w = World::new(&Cfg::new(Kind::Denom));
    w.stake("usera", 10).unwrap();
    w.c.nanos = w.c.nanos / 1_000_000_000 * 1_000_000_000 + 900_000_000;
    w.unstake("usera", 10).unwrap();
    w.c.advance(100, 1000);
    w.c.nanos -= 800_000_000;
    let before = w.c.bal("usera", DENOM);
    let _ = w.claim("usera");
    check(w.c.bal("usera", DENOM) == before, "released before its time");
''')
S('unstake-second-nft','C14','unstaking a list of NFTs that starts with an own one and contains one staked by somebody else',
 "a member can take over other members' NFTs",
 [('packages/nft-staking-impl/src/execute.rs','if stake.staker != user {','if stake.staker != user && Some(token_id) == msg.nft_ids.first() {')],'''
    let mut w = World::new(&Cfg::new(Kind::Nft));
    w.stake_nft("usera", "usera", "usera1").unwrap();
    w.stake_nft("usera", "usera", "usera2").unwrap();
    w.stake_nft("userb", "userb", "userb1").unwrap();
    let m = w.d.membership.clone();
    let r = w.ex("usera", &m, json!({"unstake":{"nft_ids":["usera1","userb1"]}}), &[]);
    check(r.is_err(), "usera unstaked userb's NFT");
''')
S('empty-total-not-recorded','C15','the last member leaving (the total dropping to zero)',
 'the total weight stays what it was before everyone left',
 [('packages/membership-common/src/total_weight.rs','''    let new_total_weight = total_weight - amount;
    save_total_weight(ctx.deps.storage, &new_total_weight, &ctx.env.block)?;''','''    let new_total_weight = total_weight - amount;
    if !new_total_weight.is_zero() {
        save_total_weight(ctx.deps.storage, &new_total_weight, &ctx.env.block)?;
    }''')],'''
    let mut w = World::new(&Cfg::new(Kind::Token));
    w.stake("usera", 10).unwrap();
    w.unstake("usera", 10).unwrap();
    check(w.total() == 0, "total weight without members");
''')
S('multisig-same-account-two-weights','C16','one call naming an account twice with different weights',
 'the call is accepted although ambiguous, and totals no longer match',
 [('packages/multisig-membership-impl/src/validate.rs','.unique_by(|(user, _)| user.clone())','.unique_by(|(user, weight)| (user.clone(), weight.u128()))')],'''
    let mut w = World::new(&Cfg::new(Kind::Multisig));
    check(w.update_members(&[("userd", 3), ("userd", 4)]).is_err(), "an account named twice was accepted");
    check(w.set_members(&[("usera", 3), ("usera", 4)]).is_err(), "an account named twice was accepted");
''')
S('whitelist-second-page','C19','a DAO whitelist longer than one query page, and an asset on its second page',
 'distributing a whitelisted asset is refused',
 [('contracts/funds-distributor/src/distributing.rs','while !assets.is_empty() && last_whitelist_asset.is_some() {','while assets.len() > 1 && last_whitelist_asset.is_some() {')],'''
    let mut cfg = Cfg::new(Kind::Denom);
    let mut l: Vec<_> = (0..150).map(|i| native(&format!("uasset{i:03}"))).collect();
    l.push(native("uzzz"));
    cfg.assets = Some(l);
    let mut w = World::new(&cfg);
    w.stake("usera", 10).unwrap();
    w.c.mint("userb", "uzzz", 100);
    let d = w.d.distributor.clone();
    check(w.ex("userb", &d, json!({"distribute_native":{}}), &[coin(100, "uzzz")]).is_ok(), "whitelisted asset refused");
''')
S('nft-whitelist-page-repeats','C20','paging through the NFT whitelist',
 'the last entry of each page is repeated on the next one',
 [(TR,'''        .map(|addr| qctx.deps.api.addr_validate(&addr))
        .transpose()?
        .map(Bound::exclusive);''','''        .map(|addr| qctx.deps.api.addr_validate(&addr))
        .transpose()?
        .map(Bound::inclusive);''')],'''
    let mut cfg = Cfg::new(Kind::Denom);
    cfg.nfts = Some(vec!["nfta".into(), "nftb".into(), "nftc".into()]);
    let mut w = World::new(&cfg);
    let t = w.d.treasury.clone();
    let a = w.c.q(&t, &json!({"nft_whitelist":{"start_after":null,"limit":1}})).unwrap();
    let b = w.c.q(&t, &json!({"nft_whitelist":{"start_after":a["nfts"][0],"limit":1}})).unwrap();
    check(a["nfts"][0] != b["nfts"][0], "an entry is on two pages");
''')
S('upgrade-skips-patches','C22','an upgrade over several versions, some of them patch releases of intermediate minor versions',
 'intermediate patch versions are not migrated through',
 [(EC,'''            versions.push(version.clone());
''','''            // the latest patch contains everything of the ones before it
            if versions
                .last()
                .map_or(false, |last| last.version.major == version.version.major && last.version.minor == version.version.minor && last.version.patch > 0)
            {
                versions.pop();
            }
            versions.push(version.clone());
''')],'''
    let mut w = World::new(&Cfg::new(Kind::Multisig));
    let v = w.versioning.clone();
    for (x, b) in [((1, 2, 0), 2), ((1, 2, 1), 3), ((1, 2, 2), 4), ((1, 2, 3), 5)] {
        w.ex(ADMIN, &v, json!({"add_version":{"version":version_info(x, b)}}), &[]).unwrap();
    }
    let (e, g) = (w.d.enterprise.clone(), w.d.controller.clone());
    let ok = w.ex(&g, &e, json!({"upgrade_dao":{"new_version":{"major":1,"minor":2,"patch":3},"migrate_msgs":[]}}), &[]).unwrap();
    let n = ok.events.iter().filter(|x| x.ty == "migrate" && x.attributes.iter().any(|a| a.value == e)).count();
    check(n == 4, &format!("{n} migrations of the enterprise contract, 4 expected"));
''')
S('edit-version-leaks-field','C23','editing the treasury code of a version',
 'the outposts code of that version changes too',
 [(VC,'version_info.enterprise_treasury_code_id = enterprise_treasury_code_id;','''version_info.enterprise_treasury_code_id = enterprise_treasury_code_id;
        if msg.enterprise_outposts_code_id.is_none() && version_info.enterprise_outposts_code_id != 0 {
            version_info.enterprise_outposts_code_id = enterprise_treasury_code_id;
        }''')],'''
    let mut w = World::base(&[]);
    let v = w.versioning.clone();
    w.ex(ADMIN, &v, json!({"edit_version":{"version":{"major":1,"minor":0,"patch":0},"enterprise_treasury_code_id":77}}), &[]).unwrap();
    let r = w.c.q(&v, &json!({"version":{"version":{"major":1,"minor":0,"patch":0}}})).unwrap();
    check(r["version"]["enterprise_outposts_code_id"] == version_info((1, 0, 0), 1)["enterprise_outposts_code_id"], "a field that was not named changed");
''')
S('minimum-weight-lost-multisig','C24','creating a multisig DAO with a minimum weight for rewards',
 'the DAO is created without the requested minimum',
 [(FC,'minimum_eligible_weight: create_dao_msg.minimum_weight_for_rewards,','''minimum_eligible_weight: if dao_being_created.initial_weights.is_some() {
                None
            } else {
                create_dao_msg.minimum_weight_for_rewards
            },''')],'''
    let mut cfg = Cfg::new(Kind::Multisig);
    cfg.min_weight = Some(2);
    let mut w = World::new(&cfg);
    let d = w.d.distributor.clone();
    let r = w.c.q(&d, &json!({"minimum_eligible_weight":{}})).unwrap();
    check(as_u128(&r["minimum_eligible_weight"]) == 2, &format!("minimum weight is {r}"));
''')
S('second-treasury-replaces-first','C25','two deployments requested for the same chain before the first is answered, both answered in full',
 'the DAO silently switches to the treasury of the later answer; what the first one holds is out of reach',
 [(OC,'''    if CROSS_CHAIN_TREASURIES.has(ctx.deps.storage, chain_id.clone()) {''','''    // the proxy's own record already rules out a second deployment
    if CROSS_CHAIN_TREASURIES.has(ctx.deps.storage, chain_id.clone())
        && !CROSS_CHAIN_PROXIES.has(ctx.deps.storage, chain_id.clone())
    {'''),(OC,'''    if CROSS_CHAIN_PROXIES.has(ctx.deps.storage, chain_id.clone()) {''','''    if CROSS_CHAIN_PROXIES.has(ctx.deps.storage, chain_id.clone())
        && CROSS_CHAIN_TREASURIES.has(ctx.deps.storage, chain_id.clone())
    {''')],'''
    use sha2::{Digest, Sha256};
    use bech32::ToBase32;
    let mut w = World::new(&Cfg::new(Kind::Multisig));
    let (g, o) = (w.d.controller.clone(), w.d.outposts.clone());
    w.c.mint(&o, "uluna", 10);
    let dep = json!({"deploy_cross_chain_treasury":{"cross_chain_msg_spec":{"chain_id":"chain-a","chain_bech32_prefix":"juno","src_ibc_port":"transfer","src_ibc_channel":"channel-1",
        "dest_ibc_port":"transfer","dest_ibc_channel":"channel-2","uluna_denom":"ibc/uluna","timeout_nanos":null},"asset_whitelist":null,"nft_whitelist":null,
        "ics_proxy_code_id":1,"enterprise_treasury_code_id":2,"chain_global_proxy":"gproxy"}});
    w.ex(&g, &o, dep.clone(), &[]).unwrap();
    w.ex(&g, &o, dep, &[]).unwrap();
    let mut h = Sha256::new();
    h.update(Sha256::digest(b"ibc-wasm-hook-intermediary"));
    h.update(b"channel-1/gproxy");
    let from = bech32::encode("terra", h.finalize().to_vec().to_base32(), bech32::Variant::Bech32).unwrap();
    let cb = |id: u32, addr: &str| {
        let mut v = vec![0x0a, addr.len() as u8];
        v.extend(addr.as_bytes());
        json!({"execute_msg_reply_callback":{"callback_id":id,"events":[],"data":cosmwasm_std::Binary(v)}})
    };
    w.ex(&from, &o, cb(1, "proxya"), &[]).unwrap();
    let _ = w.ex(&from, &o, cb(2, "proxyb"), &[]);
    let _ = w.ex(&from, &o, cb(3, "treasurya"), &[]);
    let _ = w.ex(&from, &o, cb(4, "treasuryb"), &[]);
    let r = w.c.q(&o, &json!({"cross_chain_deployments":{"chain_id":"chain-a"}})).unwrap();
    check(r["proxy_addr"] == json!("proxya") && r["treasury_addr"] == json!("treasurya"), &format!("the first deployment was replaced: {r}"));
''')
S('facade-nft-whitelist-fee','C28','executing, through the facade, a proposal that changes the NFT whitelist of a cross-chain treasury',
 'the adapted messages do not fund the IBC transfer, so the proposal fails',
 [('contracts/enterprise-facade-v2/src/facade_v2.rs','ProposalAction::UpdateNftWhitelist(msg) => msg.remote_treasury_target.is_some(),','ProposalAction::UpdateNftWhitelist(_) => false,')],'''
    let mut w = World::new(&Cfg::new(Kind::Multisig));
    let v2 = w.c.inst(ADMIN, sim::code::FACADE_V2, &json!({}), None).unwrap();
    let tgt = json!({"cross_chain_msg_spec":{"chain_id":"chain-a","chain_bech32_prefix":"juno","src_ibc_port":"transfer","src_ibc_channel":"channel-1",
        "dest_ibc_port":"transfer","dest_ibc_channel":"channel-2","uluna_denom":"ibc/uluna","timeout_nanos":null}});
    let p = w.propose("usera", vec![json!({"update_nft_whitelist":{"remote_treasury_target":tgt,"add":["nfta"],"remove":[]}})]).unwrap();
    let r = w.c.q(&v2, &json!({"execute_proposal_adapted":{"contract":w.d.enterprise,"params":{"proposal_id":p}}})).unwrap();
    check(r["msgs"].as_array().map(|x| x.len()) == Some(2), "no funds for the IBC transfer");
''')
S('description-cannot-be-cleared','C29','a proposal that removes the DAO description',
 'the old description stays',
 [(EC,'metadata.description = description;','''if description.is_some() {
            metadata.description = description;
        }''')],'''
    let mut w = World::new(&Cfg::new(Kind::Multisig));
    let (g, e) = (w.d.controller.clone(), w.d.enterprise.clone());
    let mut m = json!({"name":"no_change","description":{"change":"old"},"logo":"no_change","github_username":"no_change","discord_username":"no_change","twitter_username":"no_change","telegram_username":"no_change"});
    w.ex(&g, &e, json!({"update_metadata":m}), &[]).unwrap();
    m["description"] = json!({"change":null});
    w.ex(&g, &e, json!({"update_metadata":m}), &[]).unwrap();
    check(w.c.q(&e, &json!({"dao_info":{}})).unwrap()["metadata"]["description"].is_null(), "the description was not removed");
''')
S('bridged-third-token-lost','C26','a bridged transfer of more than two NFTs to be staked',
 'only the first two are staked',
 [('packages/ics721-callback-proxy-impl/src/execute.rs','for token_id in msg.original_packet.token_ids {','for token_id in msg.original_packet.token_ids.into_iter().take(2) {')],'''
    let mut w = World::new(&Cfg::new(Kind::Nft));
    let cb = w.c.inst(ADMIN, sim::code::ICS721_CALLBACK, &json!({"ics721_proxy":"bridge"}), None).unwrap();
    let (n, m) = (w.nft.clone(), w.d.membership.clone());
    let ids: Vec<String> = (1..=3).map(|i| format!("br{i}")).collect();
    for i in &ids {
        w.ex(ADMIN, &n, json!({"mint":{"token_id":i,"owner":cb,"token_uri":null,"extension":null}}), &[]).unwrap();
    }
    w.ex("bridge", &cb, json!({"ics721_receive_callback":{"nft_contract":n,"msg":b64(&json!({"stake":{"user":"usera","membership_contract":m}})),
        "original_packet":{"classId":"class","classUri":null,"classData":null,"tokenIds":ids,"tokenUris":null,"tokenData":null,"sender":"x","receiver":cb,"memo":null}}}), &[]).unwrap();
    check(w.weight("usera") == 3, "not all bridged NFTs were staked");
''')

MG='contracts/enterprise-treasury/src/migration.rs'
S('migrated-claim-restarts','C27','a NFT DAO of the old version with an unstaked claim that waits for a block height',
 'the migrated claim waits for another height than it was promised',
 [(MG,'release_at: claim.release_at.clone(),','''release_at: match claim.release_at.clone() {
                            // heights count from the chain's restart
                            ReleaseAt::Height(height) if height.u64() < 1_000_000 => {
                                ReleaseAt::Height(height + cosmwasm_std::Uint64::one())
                            }
                            release_at => release_at,
                        },''')],'''
    use std::sync::Arc;
    let mut w = World::base(&[]);
    w.kind = Kind::Nft;
    w.d = w.create(&Cfg::new(Kind::Nft)).unwrap();
    let (t, tok) = (w.d.treasury.clone(), w.nft.clone());
    let key = |ns: &str, k: &str| [&(ns.len() as u16).to_be_bytes()[..], ns.as_bytes(), k.as_bytes()].concat();
    let mut put = |k: Vec<u8>, v: serde_json::Value| {
        let x = Arc::make_mut(w.c.contracts.get_mut(&t).unwrap());
        Arc::make_mut(&mut x.store).insert(k, serde_json::to_vec(&v).unwrap());
    };
    put(b"dao_type".to_vec(), json!("nft"));
    put(b"dao_membership_contract".to_vec(), json!(tok));
    put(b"migration_info".to_vec(), json!({"version_info":version_info((1,0,0),1),"enterprise_contract":w.d.enterprise,"enterprise_governance_controller_contract":w.d.controller,
        "enterprise_outposts_contract":w.d.outposts,"membership_contract":w.d.membership,"council_membership_contract":w.d.council,"initial_submsgs_limit":null}));
    put(b"migration_stage".to_vec(), json!("migration_in_progress"));
    put(key("claims", "usera"), json!([{"asset":{"cw721":{"tokens":["zz"]}},"release_at":{"height":"5000"}}]));
    w.ex(ADMIN, &tok, json!({"mint":{"token_id":"zz","owner":t,"token_uri":null,"extension":null}}), &[]).unwrap();
    w.ex("userb", &t, json!({"perform_next_migration_step":{"submsgs_limit":null}}), &[]).unwrap();
    let m = w.d.membership.clone();
    let r = w.c.q(&m, &json!({"claims":{"user":"usera"}})).unwrap();
    check(r["claims"][0]["release_at"] == json!({"height":"5000"}), &format!("{r}"));
''')

S('third-hook-not-told','C30','more than two registered hooks',
 'a registered hook is never told of weight changes',
 [('packages/membership-common/src/weight_change_hooks.rs','.range(ctx.deps.storage, None, None, Ascending)\n','.range(ctx.deps.storage, None, None, Ascending)\n        .take(2)\n')],'''
    let mut w = World::new(&Cfg::new(Kind::Denom));
    let sinks: Vec<String> = (0..3).map(|_| w.c.inst(ADMIN, sim::code::SINK, &json!({}), None).unwrap()).collect();
    let (g, m) = (w.d.controller.clone(), w.d.membership.clone());
    for s in &sinks {
        w.ex(&g, &m, json!({"add_weight_change_hook":{"hook_addr":s}}), &[]).unwrap();
    }
    w.stake("usera", 5).unwrap();
    for s in &sinks {
        let l = w.c.q(s, &json!({"log":{}})).unwrap();
        check(l.as_array().unwrap().len() == 1, "a registered hook was not told of a stake");
    }
''')

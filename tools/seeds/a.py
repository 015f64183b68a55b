PE='packages/poll-engine/src/execute.rs'
GC='contracts/enterprise-governance-controller/src/contract.rs'
S('revote-lower-weight','C02','a voter re-casting (or having re-weighted) a vote on the same outcome with a smaller amount than before',
 'the poll total keeps the old, larger amount although the recorded vote is smaller',
 [(PE,'''                poll.decrease_results(VoteOutcome::from(old.outcome), old.amount);
                poll.increase_results(outcome, new.amount)
                    .map_err(|e| e.std_err())?;
''','''                if old.outcome == new.outcome {
                    // same outcome, only the difference has to be added
                    poll.increase_results(outcome, new.amount.saturating_sub(old.amount))
                        .map_err(|e| e.std_err())?;
                } else {
                    poll.decrease_results(VoteOutcome::from(old.outcome), old.amount);
                    poll.increase_results(outcome, new.amount)
                        .map_err(|e| e.std_err())?;
                }
''')],'''
    let mut w = World::new(&Cfg::new(Kind::Denom));
    w.stake("usera", 10).unwrap();
    let p = w.propose("usera", vec![]).unwrap();
    w.vote("usera", p, "yes").unwrap();
    w.unstake("usera", 4).unwrap();
    let sum: u128 = w.votes(p).iter().map(|v| v.2).sum();
    check(w.tally(p)[0] == sum, "tally differs from the recorded votes");
''')
S('late-joiner-cw20-index','C17','cw20 rewards distributed before a new member joins, who then claims',
 'members who join after a cw20 distribution receive a share of it, leaving the distributor short',
 [('contracts/funds-distributor/src/user_weights.rs','''                        cw20_asset: asset,
                        user_index: global_index,
''','''                        cw20_asset: asset,
                        user_index: Decimal::zero(),
'''),('contracts/funds-distributor/src/user_weights.rs','''    for (asset, global_index) in cw20_global_indices {''','''    for (asset, _) in cw20_global_indices {''')],'''
    let tok = World::base(&[]).token;
    let mut cfg = Cfg::new(Kind::Denom);
    cfg.assets = Some(vec![cw20(&tok)]);
    let mut w = World::new(&cfg);
    w.stake("usera", 10).unwrap();
    let (t, d) = (w.token.clone(), w.d.distributor.clone());
    w.ex(ADMIN, &t, json!({"send":{"contract":d,"amount":"100","msg":b64(&json!({"distribute":{}}))}}), &[]).unwrap();
    w.stake("userb", 10).unwrap();
    let r = w.c.q(&d, &json!({"user_rewards":{"user":"userb","native_denoms":[],"cw20_assets":[t]}})).unwrap();
    check(as_u128(&r["cw20_rewards"][0]["amount"]) == 0, "a late joiner was given past rewards");
''')
S('delay-past-end','C05','early execution allowed; a decisive vote in the last tenth of the voting period',
 'the proposal cannot be executed when its voting period has ended',
 [(GC,'earliest_execution: Some(min(earliest_execution, proposal_ends_at)),','earliest_execution: Some(earliest_execution),'),
  (GC,'''                    let proposal_ends_at = end_proposal_status.ends_at;

''','')],'''
    let mut cfg = Cfg::new(Kind::Denom);
    cfg.gov.early = true;
    let mut w = World::new(&cfg);
    w.stake("usera", 10).unwrap();
    let p = w.propose("usera", vec![]).unwrap();
    w.c.advance(100, 950);
    w.vote("usera", p, "yes").unwrap();
    w.c.advance(10, 50);
    check(w.execute("usera", p).is_ok(), "not executable at the end of voting");
''')
S('rejected-not-marked','C06','a proposal with a deposit that is rejected, executed twice while the controller holds other deposits',
 'the deposit of a rejected proposal leaves the controller again with each further execution, at the expense of other depositors',
 [(GC,'''        PollStatus::Rejected { reason } => {
            set_proposal_executed(ctx.deps.storage, proposal_id, ctx.env.block.clone())?;

''','''        PollStatus::Rejected { reason } => {
''')],'''
    let mut cfg = Cfg::new(Kind::Denom);
    cfg.gov.min_deposit = Some(5);
    let mut w = World::new(&cfg);
    w.stake("usera", 10).unwrap();
    let p = w.propose_deposit("usera", 5, None, vec![]).unwrap();
    let q = w.propose_deposit("userb", 7, None, vec![]).unwrap();
    w.vote("usera", p, "no").unwrap();
    w.c.advance(200, 1000);
    w.execute("usera", p).unwrap();
    let _ = w.execute("usera", p);
    let g = w.d.controller.clone();
    check(w.c.bal(&g, DENOM) == 7, "the other proposal's deposit is gone");
''')
S('council-any-action','C08','a council proposal with several actions, of which only some are allowed to the council',
 'the council can smuggle forbidden actions into a proposal that also has an allowed one',
 [(GC,'''            for proposal_action in &msg.proposal_actions {
                let proposal_action_type = to_proposal_action_type(proposal_action);
                if !allowed_actions.contains(&proposal_action_type) {
                    return Err(UnsupportedCouncilProposalAction {
                        action: proposal_action_type,
                    });
                }
            }
''','''            let action_types: Vec<ProposalActionType> = msg
                .proposal_actions
                .iter()
                .map(to_proposal_action_type)
                .collect();
            if !action_types.iter().any(|it| allowed_actions.contains(it)) {
                if let Some(action) = action_types.into_iter().next() {
                    return Err(UnsupportedCouncilProposalAction { action });
                }
            }
''')],'''
    let mut cfg = Cfg::new(Kind::Denom);
    cfg.council = Some(Council::new(&["userd"], "0.5", "0.5", Some(&["update_metadata"])));
    let mut w = World::new(&cfg);
    let md = json!({"update_metadata":{"name":{"change":"x"},"description":"no_change","logo":"no_change","github_username":"no_change","discord_username":"no_change","twitter_username":"no_change","telegram_username":"no_change"}});
    check(w.propose_council("userd", vec![md.clone()]).is_ok(), "allowed action refused");
    check(w.propose_council("userd", vec![md, act_pay("userd", "uluna", 1)]).is_err(), "forbidden action accepted");
''')
S('unlock-old-duration','C09','one proposal changing both the vote duration and the unlocking period',
 'an unlocking period shorter than the new vote duration is accepted',
 [(GC,'''    let updated_gov_config = apply_gov_config_changes(gov_config, &msg);
''','''    let updated_gov_config = apply_gov_config_changes(gov_config.clone(), &msg);
'''),(GC,'''        validate_unlocking_period(updated_gov_config, new_unlocking_period)?;
''','''        validate_unlocking_period(gov_config, new_unlocking_period)?;
''')],'''
    let mut w = World::new(&Cfg::new(Kind::Denom));
    w.stake("usera", 10).unwrap();
    let a = json!({"update_gov_config":{"quorum":"no_change","threshold":"no_change","veto_threshold":"no_change","voting_duration":{"change":"2000"},
        "unlocking_period":{"change":{"time":1500}},"minimum_deposit":"no_change","allow_early_proposal_execution":"no_change"}});
    let _ = w.enact("usera", vec![a]);
    let (g, m) = (w.d.controller.clone(), w.d.membership.clone());
    let dur = w.c.q(&g, &json!({"gov_config":{}})).unwrap()["gov_config"]["vote_duration"].as_u64().unwrap();
    let un = w.c.q(&m, &json!({"denom_config":{}})).unwrap()["unlocking_period"]["time"].as_u64().unwrap();
    check(un >= dur, "unlocking period shorter than the vote duration");
''')
S('stake-for-unsigned','C21','an attestation, and a signed user staking on behalf of an unsigned one',
 'unsigned users get voting weight',
 [('packages/denom-staking-impl/src/execute.rs','validate_user_not_restricted(ctx.deps.as_ref(), user.to_string())?;','validate_user_not_restricted(ctx.deps.as_ref(), ctx.info.sender.to_string())?;')],'''
    let mut cfg = Cfg::new(Kind::Denom);
    cfg.attestation = Some("terms".into());
    let mut w = World::new(&cfg);
    let a = w.d.attestation.clone().unwrap();
    w.ex("usera", &a, json!({"sign_attestation":{}}), &[]).unwrap();
    let _ = w.stake_for("usera", "userb", 5);
    check(w.weight("userb") == 0, "an unsigned user received a stake");
''')
S('nft-duplicate-deposit','C07','an NFT DAO with a minimum deposit above one and a deposit naming the same NFT twice',
 'one NFT counts several times towards the minimum deposit',
 [(GC,'''    assert_no_duplicate_nft_deposits(&msg.deposit_tokens)?;

''',''),(GC,'''fn assert_no_duplicate_nft_deposits(tokens: &Vec<NftTokenId>) -> GovernanceControllerResult<()> {
    let mut token_set: HashSet<NftTokenId> = HashSet::new();

    for token in tokens {
        let newly_inserted = token_set.insert(token.to_string());
        if !newly_inserted {
            return Err(DuplicateNftDeposit);
        }
    }

    Ok(())
}

''',''),(GC,'use std::collections::HashSet;\n',''),(GC,'DuplicateNftDeposit, ','')],'''
    let mut cfg = Cfg::new(Kind::Nft);
    cfg.gov.min_deposit = Some(2);
    let mut w = World::new(&cfg);
    let r = w.propose_nft("usera", &["usera1".to_string(), "usera1".to_string()], None, vec![]);
    check(r.is_err(), "one NFT accepted as a deposit of two");
''')
S('min-weight-cw20-settle','C18','cw20 rewards outstanding for a member below the minimum weight when a proposal lowers the minimum',
 'lowering the minimum weight gives newly eligible members cw20 rewards for the time they were not eligible',
 [('contracts/funds-distributor/src/eligibility.rs','''        update_user_cw20_distributions(deps.branch(), user.clone(), old_effective_weight)?;

        let new_effective_weight''','''        if !old_effective_weight.is_zero() {
            update_user_cw20_distributions(deps.branch(), user.clone(), old_effective_weight)?;
        }

        let new_effective_weight''')],'''
    let tok = World::base(&[]).token;
    let mut cfg = Cfg::new(Kind::Denom);
    cfg.assets = Some(vec![cw20(&tok)]);
    cfg.min_weight = Some(5);
    let mut w = World::new(&cfg);
    w.stake("usera", 10).unwrap();
    w.stake("userb", 3).unwrap();
    let (t, d, g) = (w.token.clone(), w.d.distributor.clone(), w.d.controller.clone());
    w.ex(ADMIN, &t, json!({"send":{"contract":d,"amount":"100","msg":b64(&json!({"distribute":{}}))}}), &[]).unwrap();
    w.ex(&g, &d, json!({"update_minimum_eligible_weight":{"minimum_eligible_weight":"2"}}), &[]).unwrap();
    let r = w.c.q(&d, &json!({"user_rewards":{"user":"userb","native_denoms":[],"cw20_assets":[t]}})).unwrap();
    check(as_u128(&r["cw20_rewards"][0]["amount"]) == 0, "rewards earned while not eligible");
''')
S('partial-actions','C10','a passed proposal whose second action fails',
 'the actions before the failing one keep their effect',
 [(GC,'''            let execute_proposal_actions_msg = SubMsg::reply_always(
                wasm_execute(
                    ctx.env.contract.address.to_string(),
                    &ExecuteMsg::ExecuteProposalActions(ExecuteProposalMsg { proposal_id }),
                    vec![],
                )?,
                EXECUTE_PROPOSAL_ACTIONS_REPLY_ID,
            );
            let mut submsgs = return_proposal_deposit_submsgs(ctx.deps.branch(), proposal_id)?;

            submsgs.insert(0, execute_proposal_actions_msg);
''','''            let mut submsgs: Vec<SubMsg> = execute_proposal_actions_submsgs(ctx, proposal_id)?
                .into_iter()
                .map(|it| SubMsg::reply_always(it.msg, EXECUTE_PROPOSAL_ACTIONS_REPLY_ID))
                .collect();
            submsgs.append(&mut return_proposal_deposit_submsgs(
                ctx.deps.branch(),
                proposal_id,
            )?);
''')],'''
    let mut w = World::new(&Cfg::new(Kind::Denom));
    w.stake("usera", 10).unwrap();
    let _ = w.enact("usera", vec![act_pay("payee", "uluna", 1), act_pay("payee", "uluna", 100000)]);
    check(w.c.bal("payee", "uluna") == 0, "an action took effect although another one failed");
''')

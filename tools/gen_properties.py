#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
GC='contracts/enterprise-governance-controller/src/contract.rs'
GV='contracts/enterprise-governance-controller/src/validate.rs'
PE='packages/poll-engine/src/execute.rs'; PS='packages/poll-engine/src/state.rs'
NOT='The 41 existing tests are poll-engine unit tests with hand-picked values; '

p('C01','A poll ends with exactly the outcome its quorum and thresholds dictate',
'For every tally, number of available votes, quorum, threshold and veto threshold, ending a poll (or simulating its end) yields: rejected for lack of quorum when cast/available is below quorum; otherwise vetoed when veto/(cast minus abstain) reaches the veto threshold (the ordinary threshold if none is set), otherwise passed (or rejected) when yes (or no) reaches the threshold, a yes/no tie above the threshold being a draw, and otherwise rejected because no option reached the threshold. A poll can be ended before its end time only when early ending is allowed, quorum is reached and some option already reached its threshold, and once ended its result never changes.',
['inputs','configurations'],'all tallies, available-vote counts, quorum/threshold/veto configurations and ending times',
NOT+'they sample a few tallies per rule and never combine quorum, threshold, veto and abstentions at their boundaries.',
[PE,PS,'packages/poll-engine/src/query.rs'],[('quorum/threshold evaluation',PS),('end_poll',PE)],['EndPoll','SimulateEndPollStatus','PollStatus'])
p('C02','Poll tallies are exactly the sum of the recorded votes, one per voter',
'At every moment, each outcome total of a poll equals the sum of the amounts of the votes recorded on it, every voter has at most one recorded vote per poll and it is their latest one, and all vote queries (by voter, by poll, by voter across polls) report the same votes. Votes are accepted only while the poll is in progress and before its end time; after that neither votes nor totals change.',
['histories','inputs'],'all sequences of poll creation, voting, re-voting, vote updates, poll ending and time passing',
NOT+'they check single re-votes; no test interleaves several voters, several polls, weight updates and expiry.',
[PE,PS,'packages/poll-engine/src/query.rs'],[('cast_vote / update_votes bookkeeping',PE),('votes indexed map',PS)],['Poll.results','PollVoter','PollVoters','Voter'])
p('C03','Open votes and reward shares always follow members current weights',
'After any stake, unstake or membership change in a token, denom, NFT or multisig DAO, every vote the member has on a general proposal still open counts exactly their new weight in that proposal\'s tally (zero if they left), and rewards distributed from then on are split by the new weights. Votes on proposals whose voting period is over, and on council proposals, are not altered by such changes.',
['histories','configurations'],'all interleavings of stakes, unstakes, membership edits, votes, expiries and distributions, in all four DAO types',
'No test covers the membership, controller, governance and distributor contracts together; the hook chain is only exercised on chain.',
['packages/membership-common/src/weight_change_hooks.rs',GC,PE,'packages/multisig-membership-impl/src/execute.rs','contracts/funds-distributor/src/user_weights.rs','packages/token-staking-impl/src/execute.rs','packages/denom-staking-impl/src/execute.rs','packages/nft-staking-impl/src/execute.rs'],
[('weight change hooks','packages/membership-common/src/weight_change_hooks.rs'),('weights_changed',GC),('update_votes',PE)],['ProposalVotes','Proposal.results','UserRewards'])
p('C04','A proposal takes effect at most once and only if its poll passed',
'Over any history, the actions of a proposal are carried out at most once, in the order given, and only by a call that executes the proposal while its poll passes under the votes recorded on it and the votes available (the membership total at the end of voting, or now if it is still running). A rejected proposal never takes effect, and the reported proposal status agrees with this at every moment.',
['histories'],'all interleavings of proposing, voting, staking changes, time passing and (repeated) execution by anyone',
'The controller contract has no tests; this is a whole-history, cross-contract property.',
[GC,PE],[('execute_proposal / end_proposal',GC),('executed_at marker','contracts/enterprise-governance-controller/src/proposals.rs')],['ExecuteProposal','ProposalStatus','treasury balances'])
p('C05','Proposals execute only after voting ends, or early under the delay rule',
'A general proposal can be executed before its end time only if the DAO allows early execution and the outcome is already decided; after a vote that changes whether or how it could be executed early (multisig DAOs and council proposals exempt), it cannot be executed until a tenth of the voting duration has passed or voting ended, whichever is earlier. Once the end time has come, execution is available to anyone as soon as that delay is over.',
['histories','configurations'],'all vote/time/execute interleavings with early execution on and off',
'The controller contract has no tests and the rule depends on the order of votes and on block times.',
[GC],[('earliest_execution set in the cast-vote reply',GC),('is_past_earliest_execution','packages/enterprise-governance-controller-api/src/api.rs')],['ExecuteProposal'])
p('C06','Proposal deposits are held safely and leave exactly once to the right party',
'While a proposal with a deposit is unexecuted, the controller holds that deposit in full (coins, tokens or NFTs). When the proposal is executed, the deposit moves exactly once: to the depositor (the deposit owner named at creation, else the proposer), or, when a general proposal failed to reach quorum or was vetoed, to the DAO treasury.',
['histories','inputs'],'all histories with several deposit-bearing proposals of all deposit asset kinds',
'The controller contract has no tests; conservation spans several proposals and contracts.',
[GC],[('return_proposal_deposit_submsgs',GC),('deposit routing in end_proposal',GC)],['balances of controller, depositors and treasury'])
p('C07','Proposals are only created by those entitled and with acceptable content',
'A general proposal is created only by an unrestricted account that, if the DAO requires a minimum deposit, pays at least that amount in the DAO\'s own unit (for NFT DAOs distinct NFTs it owns or is approved for; voting weight is then not needed) and otherwise holds voting weight. Proposals with more than ten actions, an invalid or duplicate whitelist entry, a downgrade, an unparsable message, a duplicate or wrong-DAO-type membership edit, or an invalid governance or council configuration are refused, and acceptable ones are stored exactly as submitted.',
['inputs','configurations'],'all proposers, deposits and proposal contents over the action alphabet in all DAO types',
'The controller contract has no tests; input space is the product of DAO types, deposit rules and action kinds.',
[GC,GV],[('create_proposal and deposit paths',GC),('validate_proposal_actions',GV)],['CreateProposal','CreateProposalWithNftDeposit','Receive'])
p('C08','The council can do only what the DAO allowed it to, with its own votes',
'A council proposal can be created only by a council member and only with action types the DAO allows its council; types that change governance, the council, membership, or move funds can never be allowed. Only council members vote on council proposals, each with weight one, they never vote as council on general proposals, and a council proposal passes only under the council quorum and threshold measured over council votes and council size.',
['histories','configurations','inputs'],'all council configurations, proposal types, voters and voting histories',
'Neither controller nor council membership has tests.',
[GC,GV],[('create_council_proposal / cast_council_vote',GC),('validate_dao_council',GV)],['CreateCouncilProposal','CastCouncilVote','CastVote','ProposalStatus'])
p('C09','Governance settings stay valid and never change a poll already under way',
'The governance configuration in force is always within its legal ranges (quorum, threshold and veto threshold, vote duration, and an unlocking period set by a proposal not shorter than the vote duration), whatever updates proposals carry. A change of governance or council settings applies to later proposals only: running proposals keep the quorum, thresholds and end time they were created with.',
['inputs','histories'],'all configuration updates and their interleavings with running proposals',
'The controller and factory have no tests.',
[GC,GV,'packages/poll-engine/src/validate.rs'],[('validate_gov_config / unlocking period check',GV),('poll stores its own parameters',PS)],['GovConfig','Poll'])
p('C10','If any action of a proposal fails, none of its actions has any effect',
'When executing a passed proposal, either all its actions take effect or, if any of them fails anywhere down its message chain, none does, anywhere in the DAO. In both cases the proposal counts as executed, cannot run again, and its deposit is returned.',
['fault_sequences','histories'],'every position of a failing action among every combination of action kinds',
'No integration tests; failure atomicity depends on the reply structure across contracts.',
[GC],[('ExecuteProposalActions self-call with reply_always',GC)],['ExecuteProposal'])
p('C11','Privileged operations are only possible for the component entitled to them',
'In every contract, operations that change configuration, membership, weights, hooks, votes, polls, whitelists, versions, or that move DAO funds, succeed only for the one caller entitled to them (the DAO\'s governance controller, the contract itself, the membership contract, the factory, the designated token, NFT or IBC counterpart, or the admin). From anyone else, including members, council, other components and other DAOs, they are refused and change nothing.',
['inputs','configurations'],'every privileged message of every contract times every possible caller',
'No test checks authorisation; it is a complete matrix over contracts and callers.',
['contracts/*/src/contract.rs','packages/membership-common/src/validate.rs','packages/*-impl/src/execute.rs'],[('admin_only / enterprise_governance_controller_only checks','all contracts')],['every ExecuteMsg'])
p('C12','Staking conserves assets: weights and claims are fully backed',
'In token and denom DAOs, after any history, the membership contract holds at least the sum of all stakes and all outstanding claims and exactly what stake, unstake and claim operations imply, the total weight is the sum of members\' weights, each member\'s weight is what was staked for them minus what they unstaked, and nobody can unstake more than their stake.',
['histories','inputs'],'all stake/unstake/claim/batch-stake/batch-claim histories by several users',
'No staking tests exist; conservation is over histories and users.',
['packages/token-staking-impl/src/execute.rs','packages/denom-staking-impl/src/execute.rs','packages/membership-common/src/member_weights.rs','packages/membership-common/src/total_weight.rs'],[('increment/decrement weight and total','packages/membership-common/src')],['UserWeight','TotalWeight','Members','Claims','balances'])
p('C13','Unstaked assets are released once, to their owner, after the unlocking period',
'Every unstake creates one claim for exactly the unstaked assets that becomes releasable precisely when the unlocking period in force at unstaking (in time or blocks) has elapsed. Claiming pays its owner all and only their releasable claims, once each; nobody can claim for someone else, and later changes of the unlocking period do not affect existing claims.',
['histories','configurations'],'all unstake/advance/claim/period-change histories in token, denom and NFT DAOs',
'No claim tests exist; timing boundaries and repetition need histories.',
['packages/token-staking-impl/src/claims.rs','packages/denom-staking-impl/src/claims.rs','packages/nft-staking-impl/src/claims.rs','packages/token-staking-impl/src/execute.rs'],[('get_releasable_claims / claim removal','packages/*-staking-impl/src/claims.rs')],['Claims','ReleasableClaims','balances'])
p('C14','Every NFT staked is in custody once and returns only to its staker',
'In NFT DAOs a member\'s weight equals the number of NFTs staked for them, every staked or claimed NFT is held by the membership contract and recorded for exactly one user, only that user can unstake it, and it leaves the contract only through that user\'s matured claim. NFTs of other collections can never be staked.',
['histories','inputs'],'all stake/unstake/claim/transfer histories over several NFTs and users',
'No NFT staking tests exist.',
['packages/nft-staking-impl/src/execute.rs','packages/nft-staking-impl/src/nft_staking.rs','packages/nft-staking-impl/src/claims.rs'],[('NFT_STAKES / NFT_CLAIMS','packages/nft-staking-impl/src')],['StakedNfts','UserStake','Claims','cw721 OwnerOf'])
p('C15','Historical total weight equals what the total really was at that moment',
'For every past block height or time, the total weight reported for that moment is the total in force just before any change made in that block (or second), and the current total is the sum of current weights; later changes never rewrite the past.',
['histories'],'all weight-change histories and all query points, in all membership kinds',
'Snapshot semantics are untested; they need histories of changes within and across blocks.',
['packages/membership-common/src/total_weight.rs'],[('height and seconds snapshots','packages/membership-common/src/total_weight.rs')],['TotalWeight'])
p('C16','Multisig membership is exactly what was last set for each member',
'In multisig memberships (DAO or council), after any sequence of member updates and replacements each account\'s weight is the last one set for it (zero if never set or if dropped by a replacement), the total is the sum, the member list reports exactly that, and a call naming an account twice is refused with no effect.',
['histories','inputs'],'all sequences of update and replace operations over several accounts and weights',
'No multisig tests exist.',
['packages/multisig-membership-impl/src/execute.rs','packages/multisig-membership-impl/src/query.rs','packages/multisig-membership-impl/src/instantiate.rs'],[('update_members / set_members','packages/multisig-membership-impl/src/execute.rs')],['UserWeight','TotalWeight','Members'])
p('C17','Rewards are split pro rata to weight, claimable once, and always solvent',
'For every asset and history of distributions, weight changes and claims, each user\'s total rewards (claimed plus pending) equal the sum over distributions of their share of the eligible weight at that time, up to rounding down; the distributor always holds enough to pay everyone, claims pay exactly the pending amount to the user themself, and an immediate second claim pays nothing.',
['histories','inputs'],'all interleavings of native/cw20 distributions, weight updates and claims by several users',
'No distributor tests exist; rounding and index updates need histories.',
['contracts/funds-distributor/src/distributing.rs','contracts/funds-distributor/src/claim.rs','contracts/funds-distributor/src/rewards.rs','contracts/funds-distributor/src/user_weights.rs'],[('global and user indices','contracts/funds-distributor/src')],['UserRewards','ClaimRewards','balances'])
p('C18','Only members at or above the minimum weight earn rewards',
'A distribution is shared only among users whose weight is at or above the minimum eligible weight at that moment, in proportion to their weights, and fails if there are none. Changing the minimum never changes rewards already earned and takes effect for exactly the users whose eligibility it changes.',
['histories','configurations'],'all interleavings of minimum-weight changes, weight changes, distributions and claims',
'No distributor tests exist.',
['contracts/funds-distributor/src/eligibility.rs','contracts/funds-distributor/src/user_weights.rs'],[('effective weights','contracts/funds-distributor/src/eligibility.rs')],['UserRewards','MinimumEligibleWeight'])
p('C19','Only whitelisted assets can be distributed to members',
'A distribution of an asset is accepted exactly when the asset is on the DAO\'s own whitelist or the global whitelist at that time, however many assets are whitelisted and wherever in the list it is; a distribution containing any other asset is refused entirely and no funds move.',
['inputs','histories'],'all whitelist contents (sizes beyond page limits), changes and distributed asset sets',
'No tests; page-boundary whitelists are never exercised.',
['contracts/funds-distributor/src/distributing.rs','contracts/enterprise-treasury/src/asset_whitelist.rs'],[('whitelist lookup','contracts/funds-distributor/src/distributing.rs')],['DistributeNative','Receive'])
p('C20','Paging through any list yields every entry exactly once, in order',
'For every paginated query of every contract (proposals, votes, members, staked NFTs, whitelists, versions, DAOs, cross-chain treasuries, polls and voters), following pages with any page size returns every entry exactly once in a stable order, never more than the requested (or maximum) number per page, and filters return exactly the matching entries.',
['inputs','configurations'],'all list sizes up to past the page maxima, all page sizes and filters',
'No pagination tests beyond two poll-engine samples.',
['contracts/*/src/contract.rs','packages/*-impl/src/query.rs','packages/membership-common/src/member_weights.rs','contracts/enterprise-treasury/src/asset_whitelist.rs'],[('start_after/limit handling','all list queries')],['list queries'])
p('C21','With an attestation, unsigned users cannot take part until they sign',
'When the DAO has an attestation, an account that has not signed it cannot create, vote on or execute proposals (general or council), receive stakes or claim rewards, and can do all of these right after signing itself (nobody can sign for another). Setting a new attestation requires signing anew, removing it lifts the restriction, and unstaking and claiming unlocked assets are never blocked.',
['histories','configurations'],'all histories of setting/removing/signing attestations and user operations in all DAO types',
'No tests for attestation.',
['contracts/attestation/src/contract.rs','contracts/enterprise/src/contract.rs',GC,'packages/membership-common/src/validate.rs','contracts/funds-distributor/src/claim.rs'],[('IsRestrictedUser query','contracts/enterprise/src/contract.rs')],['all user operations'])
p('C22','A DAO upgrade walks every newer version once, in order, to the target',
'Upgrading a DAO to a version is possible only when it is newer than the current one and known to the registry; it migrates the DAO\'s enterprise contract through each registered version after the current one up to the target, in ascending order, with that version\'s enterprise code and the migration message supplied for it (or an empty one), and ends with the DAO reporting the target version and running its code. However many versions lie in between, none is skipped or repeated; the components release 1.2.1 replaces end up on that release\'s registered code, everything else keeps its state, and a failed upgrade changes nothing.',
['inputs','configurations'],'all registries (including more versions than a page), current versions and targets',
'No tests for upgrades.',
['contracts/enterprise/src/contract.rs'],[('upgrade_dao','contracts/enterprise/src/contract.rs')],['UpgradeDao','contract code ids'])
p('C23','The version registry is append-only, ordered, and admin-controlled',
'A version is registered at most once and only by the admin; editing changes exactly the named fields of an existing version; queries list versions in ascending semantic order and the latest version is the greatest by semantic order, whatever the order of registration.',
['histories','inputs'],'all sequences of add/edit/update-admin with versions in any order',
'No tests; ordering (e.g. 1.10.0 after 1.9.0) and histories are unexplored.',
['contracts/enterprise-versioning/src/contract.rs'],[('VERSIONS map','contracts/enterprise-versioning/src/contract.rs')],['Version','Versions','LatestVersion'])
p('C24','Every created DAO is complete, correctly wired and independent',
'Creating a DAO of any kind either fails leaving nothing behind or yields a DAO whose components all exist, refer to one another consistently (each component recognises the DAO\'s own controller, membership, treasury, distributor and enterprise, and only those), carry the requested configuration, run the requested version\'s code and are upgradable only by the DAO. DAOs get consecutive ids and creating another DAO never affects existing ones.',
['configurations','histories'],'all membership kinds, optional features and sequences of creations, valid and invalid',
'No factory tests exist.',
['contracts/enterprise-factory/src/contract.rs','contracts/enterprise-factory/src/*_membership.rs','contracts/enterprise-factory/src/state.rs'],[('reply-driven creation','contracts/enterprise-factory/src/contract.rs')],['CreateDao','AllDaos','ComponentContracts'])
p('C25','Cross-chain treasuries: one per chain, driven only by the DAO, callbacks once',
'At most one proxy and one treasury are ever recorded per chain, only the DAO\'s controller can deploy or command them, commands go to the recorded address of the right chain, and a remote reply is accepted only from the authentic IBC sender for a callback that is outstanding, once. Forged, duplicated, reordered or unknown callbacks change nothing.',
['histories','fault_sequences'],'all interleavings of deployments on several chains and (forged, duplicated, reordered) callbacks',
'No outposts tests exist.',
['contracts/enterprise-outposts/src/contract.rs','contracts/enterprise-outposts/src/ibc_hooks.rs','contracts/enterprise-outposts/src/validate.rs'],[('callback ids and derived sender check','contracts/enterprise-outposts/src')],['CrossChainDeployments','CrossChainTreasuries','outgoing IBC messages'])
p('C26','Bridged NFTs can be staked only once known, and only by the real collection',
'In a DAO over a bridged (ICS721) collection, staking is impossible until the bridge reports the collection\'s local contract; from then on exactly that contract\'s NFTs can be staked. The callback proxy acts only for its bridge, staking all bridged tokens for the named user or, for unknown payloads, doing nothing.',
['histories','fault_sequences'],'all orders of bridge registration, genuine and forged transfers and callbacks',
'No tests for the ICS721 path.',
['packages/nft-staking-impl/src/execute.rs','packages/nft-staking-impl/src/config.rs','packages/ics721-callback-proxy-impl/src/execute.rs'],[('receive_nft resolution of the collection','packages/nft-staking-impl/src/execute.rs')],['ReceiveNft','Ics721ReceiveCallback'])
p('C27','Legacy migration moves each stake and claim exactly once, in any batching',
'For a migrated pre-rewrite DAO, whatever batch sizes the migration steps use and whoever triggers them, every stake and every pending claim ends up in the new membership contract exactly once for its owner with the same amount and release time, the assets move with them, the weight the treasury reports for each user stays what it was before the migration, every step that has something to do moves something, the report of unmoved stakes or claims is exact, and the migration never reports completion while anything is left and completes once nothing is.',
['schedules','configurations'],'all legacy stake/claim populations and all sequences of step sizes',
'No migration tests exist.',
['contracts/enterprise-treasury/src/migration.rs','contracts/enterprise-treasury/src/contract.rs'],[('perform_next_migration_step','contracts/enterprise-treasury/src/migration.rs')],['PerformNextMigrationStep','HasUnmovedStakesOrClaims','HasIncompleteV2Migration','UserWeight'])
p('C28','The facade reports and adapts exactly what the DAO itself holds',
'For every DAO and state, the facade answers (addressed by treasury or DAO address alike) agree with the component contracts: DAO info and governance settings, proposals and their statuses, votes, membership and stakes, claims, whitelists and treasury data. The adapted messages it returns, when sent by the user, have exactly the effect of the corresponding direct operation; what the DAO (such as a pre-rewrite one) cannot do is refused, never turned into something else.',
['histories','configurations'],'all DAO kinds and reachable states; every facade query and adapted message',
'No facade tests exist.',
['contracts/enterprise-facade/src/contract.rs','contracts/enterprise-facade/src/facade.rs','contracts/enterprise-facade-v2/src/facade_v2.rs'],[('query forwarding','contracts/enterprise-facade/src/contract.rs')],['facade queries'])
p('C29','Executed proposals do exactly what they say, to the right component',
'When a passed proposal is executed, each action has exactly its stated effect on exactly its target: the stated assets go to the stated recipient, whitelists gain and lose exactly the named entries, messages are sent by the named component, metadata, council, members, settings and minimum weight become what was proposed and untouched fields keep their value, and distributed funds reach the members. DAO treasury funds never leave in any other way.',
['inputs','histories'],'all action kinds and combinations in all DAO types',
'No tests for action execution.',
[GC,'contracts/enterprise-treasury/src/contract.rs','contracts/enterprise/src/contract.rs'],[('execute_proposal_actions',GC)],['balances, whitelists, config queries'])
p('C30','Everyone who must know hears of every weight change, and only of real ones',
'Whenever an account\'s membership weight changes (staking, unstaking, staking for another, batch stakes, membership updates and replacements), the membership contract reports to every registered hook that account with exactly its old and new weight; what is reported is always true, nobody who is not registered is told, and a refused operation reports nothing.',
['histories','configurations'],'all sequences of weight-changing operations interleaved with registering and removing several hooks, in every membership kind',
'No tests of membership hooks; they are the link that keeps votes and rewards in step with weights.',
['packages/membership-common/src/weight_change_hooks.rs','packages/token-staking-impl/src/execute.rs','packages/denom-staking-impl/src/execute.rs','packages/nft-staking-impl/src/execute.rs','packages/multisig-membership-impl/src/execute.rs'],[('report_weight_change_submsgs','packages/membership-common/src/weight_change_hooks.rs')],['WeightsChanged messages received by hooks','AddWeightChangeHook','RemoveWeightChangeHook'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))

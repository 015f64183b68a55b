From 3118fac9754f100719d3e6cda2ae7e84b94319a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:59 +0000
Subject: [PATCH 1/6] fix: don't give council members initial reward weights in
 non-multisig DAOs

---
 .../src/multisig_membership.rs                  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/contracts/enterprise-factory/src/multisig_membership.rs b/contracts/enterprise-factory/src/multisig_membership.rs
index 36a5f0b..9931b5f 100644
--- a/contracts/enterprise-factory/src/multisig_membership.rs
+++ b/contracts/enterprise-factory/src/multisig_membership.rs
@@ -94,13 +94,16 @@ pub fn instantiate_multisig_membership_contract(
     let enterprise_contract = dao_being_created.require_enterprise_address()?;
     let version_info = dao_being_created.require_version_info()?;
 
-    DAO_BEING_CREATED.save(
-        deps.storage,
-        &DaoBeingCreated {
-            initial_weights: Some(initial_weights.clone()),
-            ..dao_being_created
-        },
-    )?;
+    // only the DAO's own members' weights are used when distributing funds, not the council's
+    if reply_id == MEMBERSHIP_CONTRACT_INSTANTIATE_REPLY_ID {
+        DAO_BEING_CREATED.save(
+            deps.storage,
+            &DaoBeingCreated {
+                initial_weights: Some(initial_weights.clone()),
+                ..dao_being_created
+            },
+        )?;
+    }
 
     let submsg = SubMsg::reply_on_success(
         Wasm(Instantiate {
-- 
2.43.0


From ea693be8799fcea8458845a0d31f927dc273166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:25 +0000
Subject: [PATCH 2/6] fix: keep council votes untouched when general membership
 weights change

---
 .../src/contract.rs                           | 34 ++++++++++++++++++-
 .../enterprise-governance/src/contract.rs     |  4 +++
 packages/poll-engine-api/src/api.rs           |  3 ++
 3 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/contracts/enterprise-governance-controller/src/contract.rs b/contracts/enterprise-governance-controller/src/contract.rs
index 5586591..f433993 100644
--- a/contracts/enterprise-governance-controller/src/contract.rs
+++ b/contracts/enterprise-governance-controller/src/contract.rs
@@ -85,7 +85,7 @@ use poll_engine_api::api::{
     CastVoteParams, CreatePollParams, EndPollParams, Poll, PollId, PollParams, PollRejectionReason,
     PollResponse, PollStatus, PollStatusFilter, PollStatusResponse, PollVoterParams,
     PollVoterResponse, PollVotersParams, PollVotersResponse, PollsParams, PollsResponse,
-    UpdateVotesParams, VotingScheme,
+    UpdateVotesParams, VoterParams, VoterResponse, VotingScheme,
 };
 use poll_engine_api::error::PollError::PollInProgress;
 use std::cmp::min;
@@ -1343,11 +1343,15 @@ pub fn update_user_votes(
     let mut update_votes_submsgs: Vec<SubMsg> = vec![];
 
     for user_weight_change in user_weight_changes {
+        let excluded_polls =
+            query_council_polls_voted_on(deps, &governance_contract, &user_weight_change.user)?;
+
         update_votes_submsgs.push(SubMsg::new(wasm_execute(
             governance_contract.to_string(),
             &UpdateVotes(UpdateVotesParams {
                 voter: user_weight_change.user.clone(),
                 new_amount: user_weight_change.new_weight,
+                excluded_polls,
             }),
             vec![],
         )?));
@@ -1356,6 +1360,34 @@ pub fn update_user_votes(
     Ok(update_votes_submsgs)
 }
 
+/// Council votes don't depend on the general membership weights, so they have to be left out
+/// when those weights change.
+fn query_council_polls_voted_on(
+    deps: Deps,
+    governance_contract: &Addr,
+    voter: &str,
+) -> GovernanceControllerResult<Vec<PollId>> {
+    let voter_response: VoterResponse = deps.querier.query_wasm_smart(
+        governance_contract.to_string(),
+        &enterprise_governance_api::msg::QueryMsg::Voter(VoterParams {
+            voter_addr: voter.to_string(),
+            start_after: None,
+            limit: None,
+        }),
+    )?;
+
+    let mut council_polls: Vec<PollId> = vec![];
+
+    for vote in voter_response.votes {
+        let proposal_info = PROPOSAL_INFOS.may_load(deps.storage, vote.poll_id)?;
+        if proposal_info.map_or(false, |info| info.proposal_type == Council) {
+            council_polls.push(vote.poll_id);
+        }
+    }
+
+    Ok(council_polls)
+}
+
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn reply(deps: DepsMut, env: Env, msg: Reply) -> GovernanceControllerResult<Response> {
     match msg.id {
diff --git a/contracts/enterprise-governance/src/contract.rs b/contracts/enterprise-governance/src/contract.rs
index 18e60d0..afe96d0 100644
--- a/contracts/enterprise-governance/src/contract.rs
+++ b/contracts/enterprise-governance/src/contract.rs
@@ -87,6 +87,10 @@ fn update_votes(ctx: &mut Context, params: UpdateVotesParams) -> PollResult<Resp
     let votes = query_voter(&qctx, &params.voter, None, None)?;
 
     for vote in votes.votes {
+        if params.excluded_polls.contains(&vote.poll_id) {
+            continue;
+        }
+
         let qctx = QueryContext::from(ctx.deps.as_ref(), ctx.env.clone());
         let status = query_poll_status(&qctx, vote.poll_id)?;
         if let PollStatus::InProgress { ends_at } = status.status {
diff --git a/packages/poll-engine-api/src/api.rs b/packages/poll-engine-api/src/api.rs
index 6a8127a..83aa2a6 100644
--- a/packages/poll-engine-api/src/api.rs
+++ b/packages/poll-engine-api/src/api.rs
@@ -154,6 +154,9 @@ pub struct UpdateVotesParams {
     pub voter: String,
     /// New number of user's available votes.
     pub new_amount: Uint128,
+    /// Polls that are to be left untouched, e.g. because they are voted on with different weights.
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
+    pub excluded_polls: Vec<PollId>,
 }
 
 #[cw_serde]
-- 
2.43.0


From ca9b44001c396227ed1f3164661616310b2a697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:17 +0000
Subject: [PATCH 3/6] fix: report weight loss of members dropped when replacing
 a multisig's members

---
 .../multisig-membership-impl/src/execute.rs     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/multisig-membership-impl/src/execute.rs b/packages/multisig-membership-impl/src/execute.rs
index 96d5345..9ae9f28 100644
--- a/packages/multisig-membership-impl/src/execute.rs
+++ b/packages/multisig-membership-impl/src/execute.rs
@@ -8,7 +8,7 @@ use membership_common::weight_change_hooks::report_weight_change_submsgs;
 use membership_common_api::api::UserWeightChange;
 use multisig_membership_api::api::{SetMembersMsg, UpdateMembersMsg};
 use multisig_membership_api::error::MultisigMembershipResult;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Update members' weights. Only the current admin can execute this.
 pub fn update_members(
@@ -52,9 +52,9 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     // only governance controller can execute this
     enterprise_governance_controller_only(ctx, None)?;
 
-    let old_member_weights = MEMBER_WEIGHTS
+    let mut old_member_weights = MEMBER_WEIGHTS
         .range(ctx.deps.storage, None, None, Order::Ascending)
-        .collect::<StdResult<HashMap<Addr, Uint128>>>()?;
+        .collect::<StdResult<BTreeMap<Addr, Uint128>>>()?;
 
     MEMBER_WEIGHTS.clear(ctx.deps.storage);
 
@@ -67,7 +67,7 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     for (member, weight) in deduped_edit_members {
         total_weight += weight;
 
-        let old_weight = old_member_weights.get(&member).cloned().unwrap_or_default();
+        let old_weight = old_member_weights.remove(&member).unwrap_or_default();
         weight_changes.push(UserWeightChange {
             user: member.to_string(),
             old_weight,
@@ -77,6 +77,15 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
         set_member_weight(ctx.deps.storage, member, weight)?;
     }
 
+    // members that were left out have lost all of their weight
+    for (member, old_weight) in old_member_weights {
+        weight_changes.push(UserWeightChange {
+            user: member.to_string(),
+            old_weight,
+            new_weight: Uint128::zero(),
+        });
+    }
+
     save_total_weight(ctx.deps.storage, &total_weight, &ctx.env.block)?;
 
     let report_weight_change_submsgs = report_weight_change_submsgs(ctx, weight_changes)?;
-- 
2.43.0


From e5434ed1071218617a8912112df38953e2a4390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:15 +0000
Subject: [PATCH 4/6] fix: refuse upgrading a DAO to a version that is not
 registered

The upgrade walked the registered versions up to the requested one but never
checked that the requested one exists, so a DAO could end up reporting a
version unknown to the registry.
---
 contracts/enterprise/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/enterprise/src/contract.rs b/contracts/enterprise/src/contract.rs
index 2f48feb..abd687b 100644
--- a/contracts/enterprise/src/contract.rs
+++ b/contracts/enterprise/src/contract.rs
@@ -295,6 +295,11 @@ fn get_versions_between_current_and_target(
         }
     }
 
+    // the target itself has to be a registered version
+    if versions.last().map(|info| &info.version) != Some(&target_version) {
+        return Err(StdError::generic_err(format!("version {target_version} not found")).into());
+    }
+
     Ok(versions)
 }
 
-- 
2.43.0


From bd668292d21fd60cef37d59c9ffd9219485a558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:15 +0000
Subject: [PATCH 5/6] fix: show all council members in the facade, beyond the
 first page

---
 .../enterprise-facade-v2/src/facade_v2.rs     | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/contracts/enterprise-facade-v2/src/facade_v2.rs b/contracts/enterprise-facade-v2/src/facade_v2.rs
index 8174188..5e53079 100644
--- a/contracts/enterprise-facade-v2/src/facade_v2.rs
+++ b/contracts/enterprise-facade-v2/src/facade_v2.rs
@@ -138,18 +138,26 @@ impl EnterpriseFacade for EnterpriseFacadeV2 {
             }
         };
 
-        let council_members_response: MembersResponse = qctx.deps.querier.query_wasm_smart(
-            gov_config.dao_council_membership_contract.to_string(),
-            &Members(MembersParams {
-                start_after: None,
-                limit: Some(1000u32),
-            }),
-        )?;
-        let council_members = council_members_response
-            .members
-            .into_iter()
-            .map(|user_weight| user_weight.user)
-            .collect();
+        // membership contracts cap the page size, so go through the pages until there are no more members
+        let mut council_members: Vec<Addr> = vec![];
+        loop {
+            let council_members_response: MembersResponse = qctx.deps.querier.query_wasm_smart(
+                gov_config.dao_council_membership_contract.to_string(),
+                &Members(MembersParams {
+                    start_after: council_members.last().map(|user| user.to_string()),
+                    limit: Some(1000u32),
+                }),
+            )?;
+            if council_members_response.members.is_empty() {
+                break;
+            }
+            council_members.extend(
+                council_members_response
+                    .members
+                    .into_iter()
+                    .map(|user_weight| user_weight.user),
+            );
+        }
 
         let dao_council = gov_config.council_gov_config.map(|config| DaoCouncil {
             members: council_members,
-- 
2.43.0


From fa0e4a601f6fe9efa3f1f4b2b6bbf3d6f40cc3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:15 +0000
Subject: [PATCH 6/6] fix: refuse actions on remote treasuries for pre-rewrite
 DAOs instead of redirecting them to the DAO's own treasury

---
 contracts/enterprise-facade-v1/src/facade_v1.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/contracts/enterprise-facade-v1/src/facade_v1.rs b/contracts/enterprise-facade-v1/src/facade_v1.rs
index 802b617..e9ba3b4 100644
--- a/contracts/enterprise-facade-v1/src/facade_v1.rs
+++ b/contracts/enterprise-facade-v1/src/facade_v1.rs
@@ -547,6 +547,17 @@ impl EnterpriseFacadeV1 {
         deps: Deps,
         proposal_action: ProposalAction,
     ) -> StdResult<ProposalActionV1> {
+        // old DAOs have no remote treasuries, dropping the target would act on the DAO's own treasury
+        let remote_treasury_target = match &proposal_action {
+            ProposalAction::UpdateAssetWhitelist(msg) => &msg.remote_treasury_target,
+            ProposalAction::UpdateNftWhitelist(msg) => &msg.remote_treasury_target,
+            ProposalAction::RequestFundingFromDao(msg) => &msg.remote_treasury_target,
+            _ => &None,
+        };
+        if remote_treasury_target.is_some() {
+            return Err(StdError::generic_err("remote treasuries not supported"));
+        }
+
         match proposal_action {
             ProposalAction::UpdateMetadata(msg) => Ok(UpdateMetadata(msg.into())),
             ProposalAction::UpdateGovConfig(msg) => Ok(UpdateGovConfig(msg.into())),
-- 
2.43.0


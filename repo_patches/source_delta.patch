From db3c99e8949af8c4d3ccf9c50fda17b0325cfb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 1/3] fix: cw-fund-distributor: take the total voting power at
 the distribution height

The total voting power was the one at the block of instantiation, while shares
are taken from the voting power at the distribution height, and redistributing
for another height kept the old total. Shares could then add up to more than
the whole, paying early claimants out of the part of the others.
---
 .../cw-fund-distributor/src/contract.rs       | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index c5539d1..62eec24 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -44,22 +44,32 @@ pub fn instantiate(
     let voting_contract = deps.api.addr_validate(&msg.voting_contract)?;
     VOTING_CONTRACT.save(deps.storage, &voting_contract)?;
 
+    // validate the total power at the distribution height and store it
+    let total_power = get_total_power(&deps.as_ref(), &voting_contract, msg.distribution_height)?;
+    TOTAL_POWER.save(deps.storage, &total_power)?;
+
+    Ok(Response::default()
+        .add_attribute("distribution_height", env.block.height.to_string())
+        .add_attribute("voting_contract", voting_contract)
+        .add_attribute("total_power", total_power))
+}
+
+/// Queries the (non-zero) total voting power at the given height.
+fn get_total_power(
+    deps: &Deps,
+    voting_contract: &Addr,
+    height: u64,
+) -> Result<Uint128, ContractError> {
     let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
-        voting_contract.clone(),
+        voting_contract,
         &voting::Query::TotalPowerAtHeight {
-            height: Some(env.block.height),
+            height: Some(height),
         },
     )?;
-    // validate the total power and store it
     if total_power.power.is_zero() {
         return Err(ContractError::ZeroVotingPower {});
     }
-    TOTAL_POWER.save(deps.storage, &total_power.power)?;
-
-    Ok(Response::default()
-        .add_attribute("distribution_height", env.block.height.to_string())
-        .add_attribute("voting_contract", voting_contract)
-        .add_attribute("total_power", total_power.power))
+    Ok(total_power.power)
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
@@ -561,8 +571,12 @@ fn execute_redistribute_unclaimed_funds(
     deps: DepsMut,
     distribution_height: u64,
 ) -> Result<Response, ContractError> {
-    // update the distribution height
+    // update the distribution height, and the total power to be the one at that
+    // height, such that all shares add up to no more than the whole
     DISTRIBUTION_HEIGHT.save(deps.storage, &distribution_height)?;
+    let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
+    let total_power = get_total_power(&deps.as_ref(), &voting_contract, distribution_height)?;
+    TOTAL_POWER.save(deps.storage, &total_power)?;
 
     // get performed claims of cw20 and native tokens
     let performed_cw20_claims: Vec<Cw20ClaimEntry> = CW20_CLAIMS
-- 
2.43.0


From 0bb72294ce007d8fe023064ec8ff9c17b5f964c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 2/3] fix: dao-pre-propose-approver: reject the pre-proposal
 when its approval proposal is vetoed

A vetoed approval proposal made the completion hook fail, which removes the
module from the approver DAO's proposal module (opening proposals to anyone)
and leaves the pre-proposal pending, with its deposit, for ever.
---
 .../pre-propose/dao-pre-propose-approver/src/contract.rs      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
index 268d3ba..e2d306c 100644
--- a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
+++ b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
@@ -170,7 +170,7 @@ pub fn execute_proposal_completed(
 
     // On completion send rejection or approval message
     let msg = match new_status {
-        Status::Closed => Some(WasmMsg::Execute {
+        Status::Closed | Status::Vetoed => Some(WasmMsg::Execute {
             contract_addr: approval_contract.into_string(),
             msg: to_json_binary(&PreProposeApprovalExecuteMsg::Extension {
                 msg: ApprovalExt::Reject { id: pre_propose_id },
@@ -187,7 +187,7 @@ pub fn execute_proposal_completed(
         _ => None,
     };
 
-    // If Status is not Executed or Closed, throw error
+    // If Status is not Executed, Closed or Vetoed, throw error
     match msg {
         Some(msg) => Ok(Response::default()
             .add_message(msg)
-- 
2.43.0


From 8f34892ce2bfa8f82ba64b8c79ebbc7646ca18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:14 +0000
Subject: [PATCH 3/3] fix: cw721-roles tells its hooks about a lowered token
 weight

Lowering a token's weight changed the owner's weight and the total but left
the membership diff empty, so hook receivers (e.g. reward contracts and
delegation trackers) kept the larger weight.
---
 contracts/external/cw721-roles/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index e3f0719..ed404c1 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -406,6 +406,8 @@ pub fn execute_update_token_weight(
 
                     // Subtract difference from the total
                     total = total.checked_sub(Uint64::from(weight_difference))?;
+                    // Set the diff for use in hooks
+                    diff = MemberDiff::new(token.clone().owner, old, Some(new_total_weight));
                 }
                 Ordering::Equal => return Err(ContractError::NoWeightChange {}),
             }
-- 
2.43.0


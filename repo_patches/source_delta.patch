From 84bfbb8acc7287f6ec6f6bc63cf4a3468f5fbc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 01/38] fix: clear token approvals when icrc7_transfer changes
 the owner

---
 src/core_nft/src/updates/icrc7.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 5c990d6..7adfe88 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -1,4 +1,6 @@
 use crate::utils::check_memo;
+use crate::types::wrapped_types::WrappedNat;
+use crate::types::__TOKEN_APPROVALS;
 use crate::utils::trace;
 use crate::{
     state::{icrc3_add_transaction, mutate_state, read_state},
@@ -99,6 +101,10 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
                     .or_insert(vec![])
                     .retain(|id| *id != nft.token_id.clone());
             });
+            // approvals granted by the previous owner do not survive a change of owner
+            __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+                token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
+            });
             Ok(Nat::from(transaction_id))
         }
         Err(e) => {
-- 
2.43.0


From 9f1838857e66a4a29c019020422db9d21dae51af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 02/38] fix: burn_nft removes the token from the owner index
 and drops its approvals

---
 src/core_nft/src/updates/management.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index bce3aee..b634588 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -7,6 +7,8 @@ use crate::state::{icrc3_add_transaction, mutate_state, read_state, InternalFile
 use crate::types::http::add_redirection;
 use crate::types::metadata::__METADATA;
 use crate::types::sub_canister::StorageCanister;
+use crate::types::wrapped_types::WrappedNat;
+use crate::types::__TOKEN_APPROVALS;
 use crate::types::{icrc7, management, nft};
 use crate::utils::{check_memo, trace};
 
@@ -365,6 +367,13 @@ pub fn burn_nft(token_id: Nat) -> management::burn_nft::Response {
 
     mutate_state(|state| {
         state.data.tokens_list.remove(&token_id);
+        if let Some(owner_tokens) = state.data.tokens_list_by_owner.get_mut(&token.token_owner) {
+            owner_tokens.retain(|id| *id != token_id);
+        }
+    });
+
+    __TOKEN_APPROVALS.with_borrow_mut(|token_approvals| {
+        token_approvals.remove(&WrappedNat::from(token_id));
     });
 
     Ok(())
-- 
2.43.0


From 258bce9d3b1737d21ef662a98f1f0c01046d0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 03/38] fix: init passes permitted_drift and
 max_canister_storage_threshold in the order Data::new takes them

---
 src/core_nft/src/lifecycle/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/init.rs b/src/core_nft/src/lifecycle/init.rs
index a384e9f..6bdf194 100644
--- a/src/core_nft/src/lifecycle/init.rs
+++ b/src/core_nft/src/lifecycle/init.rs
@@ -84,8 +84,8 @@ fn init(args: Args) {
                 init_args.max_memo_size,
                 init_args.atomic_batch_transfers,
                 init_args.tx_window.clone(),
-                init_args.permitted_drift,
                 init_args.max_canister_storage_threshold,
+                init_args.permitted_drift,
                 init_args.approval_init.clone(),
             );
 
-- 
2.43.0


From 5dbf1e7ad38661df08df5ef3d4a5c74e1e5db488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 04/38] fix: certify the http endpoints again after an upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 746684b..0021a26 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -1,7 +1,7 @@
 use crate::lifecycle::init_canister;
 use crate::memory::get_upgrades_memory;
 use crate::state::{read_state, replace_icrc3, start_default_archive_job, RuntimeState};
-use crate::types::http::add_redirection;
+use crate::types::http::{add_redirection, certify_all_assets};
 use crate::Args;
 
 use bity_ic_canister_logger::LogEntry;
@@ -53,6 +53,7 @@ fn post_upgrade(args: Args) {
             init_canister(state.clone());
             replace_icrc3(icrc3);
             start_default_archive_job();
+            certify_all_assets();
 
             let media_redirections = read_state(|state| state.data.media_redirections.clone());
             for (path, redirection_url) in media_redirections {
-- 
2.43.0


From 964be386d0912b3a5993a7905e0af6d41e5be5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 05/38] fix: do not carry management guards over an upgrade

---
 src/core_nft/src/lifecycle/post_upgrade.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/lifecycle/post_upgrade.rs b/src/core_nft/src/lifecycle/post_upgrade.rs
index 0021a26..3acdd45 100644
--- a/src/core_nft/src/lifecycle/post_upgrade.rs
+++ b/src/core_nft/src/lifecycle/post_upgrade.rs
@@ -48,6 +48,8 @@ fn post_upgrade(args: Args) {
 
             state.env.set_version(upgrade_args.version);
             state.env.set_commit_hash(upgrade_args.commit_hash);
+            // calls in flight when the canister stopped can no longer release their guard
+            state.principal_guards.clear();
 
             bity_ic_canister_logger::init_with_logs(state.env.is_test_mode(), logs, traces);
             init_canister(state.clone());
-- 
2.43.0


From 6144c31bb577e4a81c473be8332a2ee1c0aa4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 06/38] fix: icrc37_revoke_collection_approvals honours
 from_subaccount

---
 src/core_nft/src/updates/icrc37.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index e21b1db..0f48d22 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -583,7 +583,7 @@ fn revoke_collection_approvals(
 
     let from_account = Account {
         owner: caller,
-        subaccount: None,
+        subaccount: arg.from_subaccount,
     };
 
     let collection_approvals = __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
-- 
2.43.0


From 30bd5e924e24602b4d23f5a328fd887663d0743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 07/38] fix: icrc37_is_approved looks up collection approvals
 of the token owner and honours their expiry

---
 src/core_nft/src/queries/icrc37.rs | 32 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 2cd6bc7..cb7ecc7 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -178,24 +178,34 @@ fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Res
 
             trace(&format!("has_token_approval: {:?}", has_token_approval));
 
-            let has_collection_approval = __COLLECTION_APPROVALS
-                .with_borrow(|collection_approvals| {
-                    collection_approvals.get(&WrappedAccount::from(spender_account.clone()))
+            let owner = state.data.owner_of(&arg.token_id);
+
+            // collection approvals are stored under the account that granted them
+            let has_collection_approval = owner
+                .clone()
+                .and_then(|owner| {
+                    __COLLECTION_APPROVALS.with_borrow(|collection_approvals| {
+                        collection_approvals.get(&WrappedAccount::from(owner))
+                    })
                 })
-                .map(|approval_map| approval_map.0)
-                .unwrap_or(HashMap::new())
-                .iter()
-                .any(|(account, _approval)| {
-                    account.0.owner == spender_account.owner
-                        && account.0.subaccount == spender_account.subaccount
-                });
+                .and_then(|approval_map| {
+                    approval_map
+                        .0
+                        .get(&WrappedAccount::from(spender_account))
+                        .map(|approval| {
+                            approval
+                                .expires_at
+                                .map(|expires_at| expires_at > current_time)
+                                .unwrap_or(true)
+                        })
+                })
+                .unwrap_or(false);
 
             trace(&format!(
                 "has_collection_approval: {:?}",
                 has_collection_approval
             ));
 
-            let owner = state.data.owner_of(&arg.token_id);
             let is_owner = owner == Some(from_account);
 
             trace(&format!("is_owner: {:?}", is_owner));
-- 
2.43.0


From 789e98f4cc32173585a1e9695ea01ba9b4749009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 08/38] fix: reject the anonymous principal as spender or
 recipient whatever the subaccount

---
 src/core_nft/src/updates/icrc37.rs | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 0f48d22..fbd5148 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -110,12 +110,7 @@ fn approve_token(
         return ApproveTokenResult::Err(ApproveTokenError::Unauthorized);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.approval_info.spender == anonymous_account {
+    if arg.approval_info.spender.owner == Principal::anonymous() {
         return ApproveTokenResult::Err(ApproveTokenError::InvalidSpender);
     }
 
@@ -263,12 +258,7 @@ fn approve_collection(
         subaccount: arg.approval_info.from_subaccount,
     };
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.approval_info.spender == anonymous_account {
+    if arg.approval_info.spender.owner == Principal::anonymous() {
         return ApproveCollectionResult::Err(ApproveCollectionError::InvalidSpender);
     }
 
@@ -699,12 +689,7 @@ fn transfer_from(
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-    let anonymous_account = Account {
-        owner: Principal::anonymous(),
-        subaccount: None,
-    };
-
-    if arg.to == anonymous_account {
+    if arg.to.owner == Principal::anonymous() {
         return TransferFromResult::Err(TransferFromError::InvalidRecipient);
     }
 
-- 
2.43.0


From 3d0e82ff7a34e3ee9f6c1a83888a56d556eb3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 09/38] fix: approval queries report the granting subaccount,
 not the spender's

---
 src/core_nft/src/queries/icrc37.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index cb7ecc7..a01928d 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -30,11 +30,11 @@ fn icrc37_get_token_approvals(
             .0
             .iter()
             .map(
-                |(account, approval)| icrc37_get_token_approvals::TokenApproval {
+                |(_, approval)| icrc37_get_token_approvals::TokenApproval {
                     token_id: token_id.clone(),
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
@@ -94,10 +94,10 @@ fn icrc37_get_collection_approvals(
             .unwrap_or(HashMap::new())
             .iter()
             .map(
-                |(account, approval)| icrc37_get_collection_approvals::CollectionApproval {
+                |(_, approval)| icrc37_get_collection_approvals::CollectionApproval {
                     approval_info: crate::types::icrc37::ApprovalInfo {
                         spender: approval.spender.0.clone(),
-                        from_subaccount: account.0.subaccount,
+                        from_subaccount: approval.from.0.subaccount,
                         expires_at: approval.expires_at,
                         memo: approval.memo.clone().map(serde_bytes::ByteBuf::from),
                         created_at_time: approval.created_at,
-- 
2.43.0


From d3c7566188ea3376a4f7a07ed54ec05942dfc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:50 +0000
Subject: [PATCH 10/38] fix: icrc37_transfer_from keeps the collection
 approvals of an account that still owns tokens

---
 src/core_nft/src/updates/icrc37.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index fbd5148..fd2b6f3 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -820,10 +820,13 @@ fn transfer_from(
         token_approvals.remove(&WrappedNat::from(arg.token_id.clone()));
     });
 
-    let has_nfts = __TOKEN_APPROVALS.with_borrow(|token_approvals| {
-        token_approvals
-            .get(&WrappedNat::from(arg.token_id.clone()))
-            .is_some()
+    let has_nfts = read_state(|state| {
+        state
+            .data
+            .tokens_list_by_owner
+            .get(&arg.from)
+            .map(|token_ids| !token_ids.is_empty())
+            .unwrap_or(false)
     });
 
     if !has_nfts {
-- 
2.43.0


From 47bd421abe637dcef4f68fda8ad85754992b03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 11/38] fix: mint leaves no metadata or mint blocks behind when
 logging the batch fails

---
 src/core_nft/src/updates/management.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index b634588..4d21526 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -172,9 +172,7 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
     for (i, mint_request) in req.mint_requests.iter().enumerate() {
         let token_id = current_token_id.clone() + Nat::from(i as u64);
 
-        let mut new_token =
-            nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
-        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+        let new_token = nft::Icrc7Token::new(token_id.clone(), mint_request.token_owner.clone());
 
         let transaction = ICRC7Transaction::new(
             "7mint".to_string(),
@@ -194,10 +192,14 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         transactions.push(transaction);
     }
 
-    for transaction in transactions {
+    for (i, transaction) in transactions.into_iter().enumerate() {
         match icrc3_add_transaction(transaction) {
             Ok(_) => {}
             Err(e) => {
+                // mint blocks of this batch are already logged: roll the whole batch back
+                if i > 0 {
+                    ic_cdk::trap(&format!("Failed to log mint transaction: {}", e));
+                }
                 return Err(management::mint::MintError::StorageCanisterError(
                     e.to_string(),
                 ));
@@ -205,6 +207,10 @@ pub fn mint(req: management::mint::Args) -> management::mint::Response {
         }
     }
 
+    for ((_, new_token, _), mint_request) in new_tokens.iter_mut().zip(&req.mint_requests) {
+        __METADATA.with_borrow_mut(|m| new_token.add_metadata(m, mint_request.metadata.clone()));
+    }
+
     mutate_state(|state| {
         let new_last_token_id =
             current_token_id.clone() + Nat::from(req.mint_requests.len() as u64);
-- 
2.43.0


From d82b89cfdc4678b1ae5e824545dae7a4113716c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 12/38] fix: update_nft_metadata changes the stored metadata
 only after the block is logged

---
 src/core_nft/src/updates/management.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 4d21526..a319477 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -255,10 +255,8 @@ pub fn update_nft_metadata(
             let previous_metadata =
                 __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
 
-            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
-
-            let new_metadata =
-                __METADATA.with_borrow(|m| m.get_all_data(Some(token_name_hash.clone())));
+            let new_metadata: BTreeMap<String, Icrc3Value> =
+                req.metadata.iter().cloned().collect();
 
             let mut metadata_map = BTreeMap::new();
 
@@ -275,13 +273,7 @@ pub fn update_nft_metadata(
 
             metadata_map.insert(
                 "icrc7:new_metadata".to_string(),
-                Icrc3Value::Map(
-                    new_metadata
-                        .unwrap_or_default()
-                        .into_iter()
-                        .map(|(k, v)| (k, v.0))
-                        .collect(),
-                ),
+                Icrc3Value::Map(new_metadata),
             );
 
             let meta = Icrc3Value::Map(metadata_map);
@@ -312,6 +304,8 @@ pub fn update_nft_metadata(
                 }
             };
 
+            __METADATA.with_borrow_mut(|m| token.replace_metadata(m, req.metadata));
+
             mutate_state(|state| {
                 state
                     .data
-- 
2.43.0


From e4028a354af0ac7a96632fdef612436fcfa9f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 13/38] fix: icrc37_revoke_token_approvals accepts an empty
 batch and rate limits every token of the batch

---
 src/core_nft/src/updates/icrc37.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index fd2b6f3..b856320 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -372,18 +372,6 @@ fn icrc37_revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::Response {
     let caller = ic_cdk::api::msg_caller();
 
-    match guard_sliding_window(args[0].token_id.clone()) {
-        Err(e) => {
-            return icrc37_revoke_token_approvals::Response::Err(
-                icrc37_revoke_token_approvals::RevokeTokenApprovalError::GenericError {
-                    error_code: Nat::from(0u64),
-                    message: e,
-                },
-            );
-        }
-        Ok(()) => {}
-    }
-
     // here we check the max revoke approvals,
     // note that if spender is not provided, we will revoke all approvals for the token
     // even if the max revoke approvals is 0.
@@ -416,6 +404,16 @@ fn revoke_token_approvals(
 ) -> icrc37_revoke_token_approvals::RevokeTokenApprovalResponse {
     use icrc37_revoke_token_approvals::{RevokeTokenApprovalError, RevokeTokenApprovalResponse};
 
+    match guard_sliding_window(arg.token_id.clone()) {
+        Ok(()) => {}
+        Err(e) => {
+            return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::GenericError {
+                error_code: Nat::from(0u64),
+                message: e,
+            });
+        }
+    }
+
     if let Some(created_at_time) = arg.created_at_time {
         match verify_approval_timing(created_at_time, current_time) {
             Err((true, ledger_time)) => {
-- 
2.43.0


From fefe52d69077d9d61f152cc42f4dcf2b419b80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 14/38] fix: revoking an approval that does not exist is an
 error and logs no block

---
 src/core_nft/src/updates/icrc37.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index b856320..130b6ad 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -460,7 +460,14 @@ fn revoke_token_approvals(
     let mut approval_map = token_approvals.unwrap().0;
 
     if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
+        if approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none()
+        {
+            return RevokeTokenApprovalResponse::Err(
+                RevokeTokenApprovalError::ApprovalDoesNotExist,
+            );
+        }
     } else {
         approval_map.clear();
     };
@@ -587,7 +594,14 @@ fn revoke_collection_approvals(
     let mut approval_map = collection_approvals.unwrap().0;
 
     if let Some(spender) = &arg.spender {
-        approval_map.remove(&WrappedAccount::from(spender.clone()));
+        if approval_map
+            .remove(&WrappedAccount::from(spender.clone()))
+            .is_none()
+        {
+            return RevokeCollectionApprovalResult::Err(
+                RevokeCollectionApprovalError::ApprovalDoesNotExist,
+            );
+        }
     } else {
         approval_map.clear();
     }
-- 
2.43.0


From b0be928e85b2a629a50cfdbfdcae319bc478dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 15/38] fix: the upload garbage collector cancels only expired,
 unfinished uploads

---
 src/core_nft/src/jobs/upload_garbage_collector.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 64aac02..2976d44 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -2,11 +2,14 @@ use std::time::Duration;
 
 use bity_ic_canister_time::{run_interval, DAY_IN_MS};
 use bity_ic_storage_canister_api::cancel_upload;
+use bity_ic_storage_canister_api::types::storage::UploadState;
 use bity_ic_storage_canister_c2c::cancel_upload;
 use tracing::{debug, info};
 
 use crate::state::read_state;
 
+const UPLOAD_EXPIRY_NS: u64 = Duration::from_millis(DAY_IN_MS).as_nanos() as u64;
+
 pub fn start_job() {
     run_interval(
         Duration::from_millis(DAY_IN_MS),
@@ -22,7 +25,9 @@ async fn upload_garbage_collector() {
     let all_files = read_state(|state| state.internal_filestorage.get_all_files().clone());
 
     for (file_path, file) in all_files {
-        if file.init_timestamp + DAY_IN_MS > ic_cdk::api::time() {
+        let expired = ic_cdk::api::time().saturating_sub(file.init_timestamp) > UPLOAD_EXPIRY_NS;
+
+        if expired && !matches!(file.state, UploadState::Finalized) {
             let result = cancel_upload(
                 file.canister,
                 cancel_upload::Args {
-- 
2.43.0


From 2a6d546e6c7c91e7f176b2885704dd14b8427f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 16/38] fix: init_upload keeps track of a storage canister
 created before a failure

---
 src/core_nft/src/updates/management.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index a319477..6b44700 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -391,7 +391,14 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
 
     let mut sub_canister_manager = read_state(|state| state.data.sub_canister_manager.clone());
 
-    let canister = match sub_canister_manager.init_upload(data.clone()).await {
+    let result = sub_canister_manager.init_upload(data.clone()).await;
+
+    // a storage canister may have been created even if the upload was refused
+    mutate_state(|state| {
+        state.data.sub_canister_manager = sub_canister_manager;
+    });
+
+    let canister = match result {
         Ok((_, canister)) => canister,
         Err(e) => {
             trace(&format!("Error inserting data: {:?}", e));
@@ -400,7 +407,6 @@ pub async fn init_upload(data: init_upload::Args) -> init_upload::Response {
     };
 
     mutate_state(|state| {
-        state.data.sub_canister_manager = sub_canister_manager;
         state.internal_filestorage.insert(
             data.file_path.clone(),
             InternalFilestorageData {
-- 
2.43.0


From 91faf3b74548eefebea5815a4dfd452fac6c73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 17/38] fix: index cache cleanup no longer mutates the cache
 while it is borrowed

---
 src/index_icrc7/src/cache.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/index_icrc7/src/cache.rs b/src/index_icrc7/src/cache.rs
index cf8e02f..715abe6 100644
--- a/src/index_icrc7/src/cache.rs
+++ b/src/index_icrc7/src/cache.rs
@@ -68,16 +68,16 @@ pub fn try_get_value_with_timestamp(key: u64) -> Option<(u64, CustomValue)> {
 
 pub fn remove_all_values_older_than(timestamp: &u64) -> bool {
     __CACHE.with(|cache| {
-        cache
+        let expired_keys = cache
             .borrow()
             .iter()
             .filter(|(_, entry)| entry.timestamp < *timestamp)
             .map(|(key, _)| key)
-            .collect::<Vec<_>>()
-            .into_iter()
-            .for_each(|key| {
-                cache.borrow_mut().remove(&key);
-            });
+            .collect::<Vec<_>>();
+
+        expired_keys.into_iter().for_each(|key| {
+            cache.borrow_mut().remove(&key);
+        });
 
         true
     })
-- 
2.43.0


From 1db66accda91f4e77b68e2636674f100f7bde031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:56 +0000
Subject: [PATCH 18/38] fix: index transfer_from blocks under their token id

---
 src/index_icrc7/src/blocks.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index aee2cd0..838b99c 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -354,7 +354,20 @@ impl TransactionDataExtractor for TransferFromBlock {
     }
 
     fn extract_token_id(&self, data: &ICRC3Value) -> Result<Option<WrappedNat>, String> {
-        return Ok(None);
+        match data {
+            ICRC3Value::Map(map) => {
+                if let Some(ICRC3Value::Map(tx)) = map.get("tx") {
+                    if let Some(ICRC3Value::Nat(token_id)) = tx.get("tid") {
+                        Ok(Some(WrappedNat(token_id.clone())))
+                    } else {
+                        Err("Missing or invalid token ID field".to_string())
+                    }
+                } else {
+                    Err("Invalid transaction data".to_string())
+                }
+            }
+            _ => Err("TransferFrom transaction data must be a map".to_string()),
+        }
     }
 }
 
-- 
2.43.0


From 339bf43663b11eef4bb8e0d74da1ece8342dc166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 19/38] fix: index collection approvals under the spender like
 every other approval block

---
 src/index_icrc7/src/blocks.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index_icrc7/src/blocks.rs b/src/index_icrc7/src/blocks.rs
index 838b99c..99f8a65 100644
--- a/src/index_icrc7/src/blocks.rs
+++ b/src/index_icrc7/src/blocks.rs
@@ -418,6 +418,11 @@ impl TransactionDataExtractor for CollectionApproveBlock {
                             accounts.push(account);
                         }
                     }
+                    if let Some(ICRC3Value::Text(spender)) = tx.get("spender") {
+                        if let Ok(account) = WrappedAccount::from_str(spender) {
+                            accounts.push(account);
+                        }
+                    }
                 }
                 Ok(accounts)
             }
-- 
2.43.0


From 83d0a327d8330344d2e779cd6bbaa952df2639a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 20/38] fix: index a block once per account

---
 src/index_icrc7/src/index.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index_icrc7/src/index.rs b/src/index_icrc7/src/index.rs
index 0c70b1d..97d5ef6 100644
--- a/src/index_icrc7/src/index.rs
+++ b/src/index_icrc7/src/index.rs
@@ -91,7 +91,10 @@ pub fn add_block_to_index(block: &BlockWithId) -> Result<(), String> {
     };
 
     let block_instance = get_block_instance(&block_type);
-    let accounts = block_instance.extract_accounts(data).unwrap_or_default();
+    let mut accounts = block_instance.extract_accounts(data).unwrap_or_default();
+    // the same account can appear in several roles of a block
+    accounts.sort();
+    accounts.dedup();
     let token_id = block_instance.extract_token_id(data).unwrap_or_default();
     let _timestamp = block_instance.extract_timestamp(data).unwrap_or_default();
 
-- 
2.43.0


From 2707a947ef59df4d9708e044ee167aba97143988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 21/38] fix: overlapping index runs do not index a block twice

---
 src/index_icrc7/src/jobs.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/index_icrc7/src/jobs.rs b/src/index_icrc7/src/jobs.rs
index 40df08e..f66aa72 100644
--- a/src/index_icrc7/src/jobs.rs
+++ b/src/index_icrc7/src/jobs.rs
@@ -43,7 +43,14 @@ async fn update_index() {
     let blocks = get_all_blocks(block_ids, None).await;
     match blocks {
         Ok(blocks) => {
+            // another run may have indexed some of these blocks while this one was waiting
+            last_block_id = read_state(|state| state.data.last_block_id);
+
             for block in blocks {
+                if block.id < last_block_id {
+                    continue;
+                }
+
                 match add_block_to_index(&block) {
                     Ok(_) => {
                         last_block_id += 1;
-- 
2.43.0


From 5e8ab9b17bc64b52bd102e0791fa88861b27bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:42 +0000
Subject: [PATCH 22/38] fix: the upload garbage collector forgets the uploads
 it cancelled

---
 src/core_nft/src/jobs/upload_garbage_collector.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/jobs/upload_garbage_collector.rs b/src/core_nft/src/jobs/upload_garbage_collector.rs
index 2976d44..419a438 100644
--- a/src/core_nft/src/jobs/upload_garbage_collector.rs
+++ b/src/core_nft/src/jobs/upload_garbage_collector.rs
@@ -6,7 +6,7 @@ use bity_ic_storage_canister_api::types::storage::UploadState;
 use bity_ic_storage_canister_c2c::cancel_upload;
 use tracing::{debug, info};
 
-use crate::state::read_state;
+use crate::state::{mutate_state, read_state};
 
 const UPLOAD_EXPIRY_NS: u64 = Duration::from_millis(DAY_IN_MS).as_nanos() as u64;
 
@@ -38,6 +38,9 @@ async fn upload_garbage_collector() {
 
             match result {
                 Ok(_) => {
+                    mutate_state(|state| {
+                        state.internal_filestorage.remove(&file_path);
+                    });
                     debug!("Successfully canceled upload for file {}", file_path);
                 }
                 Err(err) => {
-- 
2.43.0


From b0d51acd9ae7df780f6b81ca2ffd8e130248cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 23/38] fix: apply the memo size limit to the ICRC-37 methods

---
 src/core_nft/src/updates/icrc37.rs | 36 ++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 130b6ad..1186072 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -6,6 +6,7 @@ pub use crate::types::icrc37::{
 use crate::types::nft;
 use crate::types::wrapped_types::{WrappedAccount, WrappedApprovalValue, WrappedNat};
 use crate::types::{__COLLECTION_APPROVALS, __TOKEN_APPROVALS};
+use crate::utils::check_memo;
 
 use bity_ic_icrc3::{
     transaction::{ICRC37Transaction, ICRC37TransactionData},
@@ -79,6 +80,13 @@ fn approve_token(
         }
     }
 
+    if let Err(e) = check_memo(arg.approval_info.memo.clone()) {
+        return ApproveTokenResult::Err(ApproveTokenError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     match verify_approval_timing(arg.approval_info.created_at_time, current_time) {
         Err((true, ledger_time)) => {
             return ApproveTokenResult::Err(ApproveTokenError::CreatedInFuture { ledger_time });
@@ -241,6 +249,13 @@ fn approve_collection(
         }
     }
 
+    if let Err(e) = check_memo(arg.approval_info.memo.clone()) {
+        return ApproveCollectionResult::Err(ApproveCollectionError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     match verify_approval_timing(arg.approval_info.created_at_time, current_time) {
         Err((true, ledger_time)) => {
             return ApproveCollectionResult::Err(ApproveCollectionError::CreatedInFuture {
@@ -414,6 +429,13 @@ fn revoke_token_approvals(
         }
     }
 
+    if let Err(e) = check_memo(arg.memo.clone()) {
+        return RevokeTokenApprovalResponse::Err(RevokeTokenApprovalError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     if let Some(created_at_time) = arg.created_at_time {
         match verify_approval_timing(created_at_time, current_time) {
             Err((true, ledger_time)) => {
@@ -562,6 +584,13 @@ fn revoke_collection_approvals(
         }
     }
 
+    if let Err(e) = check_memo(arg.memo.clone()) {
+        return RevokeCollectionApprovalResult::Err(RevokeCollectionApprovalError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     if let Some(created_at_time) = arg.created_at_time {
         match verify_approval_timing(created_at_time, current_time) {
             Err((true, ledger_time)) => {
@@ -677,6 +706,13 @@ fn transfer_from(
         }
     }
 
+    if let Err(e) = check_memo(arg.memo.clone()) {
+        return TransferFromResult::Err(TransferFromError::GenericError {
+            error_code: Nat::from(0u64),
+            message: e,
+        });
+    }
+
     if let Some(created_at_time) = arg.created_at_time {
         match verify_approval_timing(created_at_time, current_time) {
             Err((true, ledger_time)) => {
-- 
2.43.0


From fb5ac3b2dc9e879294f4c4d74b541f4cec64c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 24/38] fix: certify /logs and /traces under the paths they are
 served at

---
 src/core_nft/src/queries/http_request.rs | 18 +++++++++---------
 src/core_nft/src/types/http.rs           |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core_nft/src/queries/http_request.rs b/src/core_nft/src/queries/http_request.rs
index 1749e87..8b6a468 100644
--- a/src/core_nft/src/queries/http_request.rs
+++ b/src/core_nft/src/queries/http_request.rs
@@ -17,14 +17,14 @@ fn http_request(req: HttpRequest) -> HttpResponse {
     let path = req.get_path().expect("Failed to parse request path");
 
     match path.as_str() {
-        "/logs" => serve_logs(bity_ic_canister_logger::export_logs()),
-        "/traces" => serve_logs(bity_ic_canister_logger::export_traces()),
+        "/logs" => serve_logs("/logs", bity_ic_canister_logger::export_logs()),
+        "/traces" => serve_logs("/traces", bity_ic_canister_logger::export_traces()),
         "/metrics" => serve_metrics(),
         _ => serve_asset(&req),
     }
 }
 
-fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
+fn serve_logs(path: &str, logs: Vec<LogEntry>) -> HttpResponse<'static> {
     ASSET_ROUTER.with_borrow(|_| {
         let body = serde_json::to_vec(&logs).expect("Failed to serialize metrics");
         let headers = get_asset_headers(vec![
@@ -47,15 +47,15 @@ fn serve_logs(logs: Vec<LogEntry>) -> HttpResponse<'static> {
         HTTP_TREE.with(|tree| {
             let tree = tree.borrow();
 
-            let metrics_tree_path = HttpCertificationPath::exact("/metrics");
-            let metrics_certification = HttpCertification::skip();
-            let metrics_tree_entry =
-                HttpCertificationTreeEntry::new(&metrics_tree_path, metrics_certification);
+            let logs_tree_path = HttpCertificationPath::exact(path);
+            let logs_certification = HttpCertification::skip();
+            let logs_tree_entry =
+                HttpCertificationTreeEntry::new(&logs_tree_path, logs_certification);
             add_v2_certificate_header(
                 &data_certificate().expect("No data certificate available"),
                 &mut response,
-                &tree.witness(&metrics_tree_entry, "/metrics").unwrap(),
-                &metrics_tree_path.to_expr_path(),
+                &tree.witness(&logs_tree_entry, path).unwrap(),
+                &logs_tree_path.to_expr_path(),
             );
 
             response
diff --git a/src/core_nft/src/types/http.rs b/src/core_nft/src/types/http.rs
index bdff63a..17c93dd 100644
--- a/src/core_nft/src/types/http.rs
+++ b/src/core_nft/src/types/http.rs
@@ -94,7 +94,7 @@ pub fn certify_all_assets() {
         let logs_tree_entry = HttpCertificationTreeEntry::new(logs_tree_path, logs_certification);
         tree.insert(&logs_tree_entry);
 
-        let trace_tree_path = HttpCertificationPath::exact("/trace");
+        let trace_tree_path = HttpCertificationPath::exact("/traces");
         let trace_certification = HttpCertification::skip();
         let trace_tree_entry =
             HttpCertificationTreeEntry::new(trace_tree_path, trace_certification);
-- 
2.43.0


From 1db4d12ce0e1c641b47656ab5e162fb93a1cc6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 25/38] fix: icrc7_transfer reports a transfer refused as a
 duplicate as an error

---
 src/core_nft/src/updates/icrc7.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 7adfe88..ccac5e8 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -109,7 +109,9 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
         }
         Err(e) => {
             if let bity_ic_icrc3::types::Icrc3Error::DuplicateTransaction { duplicate_of } = e {
-                return Ok(Nat::from(duplicate_of));
+                return Err(icrc7::icrc7_transfer::TransferError::Duplicate {
+                    duplicate_of: Nat::from(duplicate_of),
+                });
             }
             Err(icrc7::icrc7_transfer::TransferError::GenericError {
                 error_code: Nat::from(2u64),
-- 
2.43.0


From 40879df81c170445f8507c3280683a6337006140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 26/38] fix: page through approvals in an order that does not
 depend on the hash map

---
 src/core_nft/src/queries/icrc37.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index a01928d..677e994 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -47,6 +47,7 @@ fn icrc37_get_token_approvals(
             b.approval_info
                 .created_at_time
                 .cmp(&a.approval_info.created_at_time)
+                .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
         });
 
         let start_index = if let Some(prev_approval) = prev {
@@ -110,6 +111,7 @@ fn icrc37_get_collection_approvals(
         b.approval_info
             .created_at_time
             .cmp(&a.approval_info.created_at_time)
+            .then_with(|| a.approval_info.spender.cmp(&b.approval_info.spender))
     });
 
     let start_index = if let Some(prev_approval) = prev {
-- 
2.43.0


From 2a49f774dead4babc37410565c92dc2ea90ddfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 27/38] fix: apply max_update_batch_size to the ICRC-37 batch
 methods

---
 src/core_nft/src/updates/icrc37.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 1186072..138c07a 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -48,13 +48,25 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
     Ok(())
 }
 
+/// Number of requests of a batch that are processed, as for icrc7_transfer.
+fn max_update_batch_size() -> usize {
+    usize::try_from(
+        read_state(|state| state.data.max_update_batch_size.clone())
+            .unwrap_or(Nat::from(
+                crate::types::icrc7::DEFAULT_MAX_UPDATE_BATCH_SIZE,
+            ))
+            .0,
+    )
+    .unwrap_or(usize::MAX)
+}
+
 #[update]
 fn icrc37_approve_tokens(args: icrc37_approve_tokens::Args) -> icrc37_approve_tokens::Response {
     let caller = ic_cdk::api::msg_caller();
 
     let mut results = Vec::with_capacity(args.len());
 
-    for arg in args {
+    for arg in args.into_iter().take(max_update_batch_size()) {
         let current_time = ic_cdk::api::time(); // get current time each time because of the async calls.
         let result = approve_token(arg, caller, current_time);
         results.push(Some(result));
@@ -222,7 +234,7 @@ fn icrc37_approve_collection(
 
     let mut results = Vec::with_capacity(args.len());
 
-    for arg in args {
+    for arg in args.into_iter().take(max_update_batch_size()) {
         let current_time = ic_cdk::api::time(); // get current time each time because of the async calls.
         let result = approve_collection(arg, caller, current_time);
         results.push(Some(result));
@@ -680,7 +692,7 @@ fn icrc37_transfer_from(args: icrc37_transfer_from::Args) -> icrc37_transfer_fro
 
     let mut results = Vec::with_capacity(args.len());
 
-    for arg in args {
+    for arg in args.into_iter().take(max_update_batch_size()) {
         let current_time = ic_cdk::api::time();
         let result = transfer_from(arg, caller, current_time);
         results.push(Some(result));
-- 
2.43.0


From d2970af02d88402adc4aa0195f4c9391b6ab6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:21 +0000
Subject: [PATCH 28/38] fix: icrc37_is_approved honours max_query_batch_size

---
 src/core_nft/src/queries/icrc37.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core_nft/src/queries/icrc37.rs b/src/core_nft/src/queries/icrc37.rs
index 677e994..ec9fc4b 100644
--- a/src/core_nft/src/queries/icrc37.rs
+++ b/src/core_nft/src/queries/icrc37.rs
@@ -1,4 +1,5 @@
 use crate::state::read_state;
+use crate::types::icrc7;
 pub use crate::types::icrc37::{
     icrc37_get_collection_approvals, icrc37_get_token_approvals, icrc37_is_approved,
     icrc37_max_approvals_per_token_or_collection, icrc37_max_revoke_approvals,
@@ -7,6 +8,7 @@ use crate::types::{WrappedAccount, WrappedNat};
 use crate::types::{__COLLECTION_APPROVALS, __TOKEN_APPROVALS};
 
 use bity_ic_icrc3::utils::trace;
+use candid::Nat;
 use ic_cdk_macros::query;
 pub use icrc_ledger_types::icrc1::account::Account;
 use std::collections::HashMap;
@@ -140,6 +142,19 @@ fn icrc37_get_collection_approvals(
 
 #[query]
 fn icrc37_is_approved(args: icrc37_is_approved::Args) -> icrc37_is_approved::Response {
+    let max_query_batch_size = read_state(|state| state.data.max_query_batch_size.clone())
+        .unwrap_or(Nat::from(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE));
+
+    if args.len()
+        > usize::try_from(max_query_batch_size.0.clone())
+            .unwrap_or(icrc7::DEFAULT_MAX_QUERY_BATCH_SIZE as usize)
+    {
+        ic_cdk::trap(format!(
+            "max_query_batch_size exceeded. Limit is {}. Retry with a smaller batch size.",
+            max_query_batch_size.0
+        ));
+    }
+
     read_state(|state| {
         let mut response = Vec::with_capacity(args.len());
 
-- 
2.43.0


From c871ab89423c934834549a68ba741f3c798605f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:07 +0000
Subject: [PATCH 29/38] fix: icrc37_transfer_from answers Duplicate with the
 block the ledger named

---
 src/core_nft/src/updates/icrc37.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 138c07a..8b0dd05 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -836,15 +836,9 @@ fn transfer_from(
     let index = match icrc3_add_transaction(transaction) {
         Ok(index) => index,
         Err(e) => match e {
-            Icrc3Error::Icrc3Error(e) => {
-                if e.to_lowercase().contains("duplicate") {
-                    return TransferFromResult::Err(TransferFromError::Duplicate {
-                        duplicate_of: Nat::from(2u64), // value hardcoded for now. Need to update icrc3 to get the correct value
-                    });
-                }
-                return TransferFromResult::Err(TransferFromError::GenericError {
-                    error_code: Nat::from(1u64),
-                    message: format!("Failed to insert transaction: {}", e),
+            Icrc3Error::DuplicateTransaction { duplicate_of } => {
+                return TransferFromResult::Err(TransferFromError::Duplicate {
+                    duplicate_of: Nat::from(duplicate_of),
                 });
             }
             _ => {
-- 
2.43.0


From 8f850e2a9c5eb516fa94f6d589579ca1238bc95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:07 +0000
Subject: [PATCH 30/38] fix: a transaction window too large for u64 no longer
 makes every request TooOld

---
 src/core_nft/src/updates/icrc37.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index 8b0dd05..d95df18 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -41,7 +41,8 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
             .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_TX_WINDOW))
     });
 
-    if created_at_time + tx_window.0.try_into().unwrap_or(0) < current_time {
+    // a window too large for u64 accepts every past time
+    if created_at_time.saturating_add(tx_window.0.try_into().unwrap_or(u64::MAX)) < current_time {
         return Err((false, 0));
     }
 
-- 
2.43.0


From 674a9c98c935e0f1c853276288a7ccb48bb465b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:48 +0000
Subject: [PATCH 31/38] fix: get_all_uploads pages in an order that does not
 depend on the hash map

---
 src/core_nft/src/updates/management.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core_nft/src/updates/management.rs b/src/core_nft/src/updates/management.rs
index 6b44700..4520a60 100644
--- a/src/core_nft/src/updates/management.rs
+++ b/src/core_nft/src/updates/management.rs
@@ -585,16 +585,17 @@ pub fn get_all_uploads(
     take: Option<Nat>,
 ) -> management::get_all_uploads::Response {
     trace(&format!("prev: {:?}, take: {:?}", prev, take));
-    let all_uploads = read_state(|state| state.internal_filestorage.clone());
+    let mut all_uploads = read_state(|state| state.internal_filestorage.get_all_files());
+    // pages must not follow the iteration order of the hash map
+    all_uploads.sort_by(|a, b| a.0.cmp(&b.0));
     let start: usize = usize::try_from(prev.unwrap_or(Nat::from(0u64)).0).unwrap_or(0);
     let end: usize = usize::try_from(take.unwrap_or(Nat::from(100u64)).0).unwrap_or(100);
     trace(&format!("start: {:?}, end: {:?}", start, end));
     let filtered_uploads: HashMap<String, UploadState> = all_uploads
-        .map
-        .iter()
+        .into_iter()
         .skip(start)
         .take(end)
-        .map(|(path, status)| (path.clone(), status.state.clone()))
+        .map(|(path, status)| (path, status.state))
         .collect();
 
     Ok(filtered_uploads)
-- 
2.43.0


From 238cef8ac61b10f0ad7bead39cb1fb53519eebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:33 +0000
Subject: [PATCH 32/38] fix: name every spender in the approve_collection
 consent message and answer for an empty list

---
 src/core_nft/src/queries/icrc21.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core_nft/src/queries/icrc21.rs b/src/core_nft/src/queries/icrc21.rs
index ff62ad3..a833ce9 100644
--- a/src/core_nft/src/queries/icrc21.rs
+++ b/src/core_nft/src/queries/icrc21.rs
@@ -144,7 +144,15 @@ fn handle_approve_collection_consent(args: icrc21::Args) -> icrc21::Response {
                 ));
             }
 
-            let generic_message = format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", approve_args.first().unwrap().approval_info.spender.owner);
+            let spenders: Vec<String> = approve_args
+                .iter()
+                .map(|arg| arg.approval_info.spender.owner.to_string())
+                .collect();
+            let generic_message = if spenders.len() == 1 {
+                format!("You are about to approve {} to transfer all your nft available in the collection. Method: icrc37_approve_collection", spenders[0])
+            } else {
+                format!("You are about to approve {} accounts to transfer all your nft available in the collection: {}. Method: icrc37_approve_collection", spenders.len(), spenders.join(", "))
+            };
 
             create_consent_info(generic_message, args.user_preferences.metadata)
         }
-- 
2.43.0


From 3c204b086cc9ce5eb47bac619e233c400fd17cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:34 +0000
Subject: [PATCH 33/38] fix: numbers beyond 64 bits can be stored and read back
 instead of trapping

---
 src/core_nft/src/types/value_custom.rs  | 26 +++++++++++++-----
 src/core_nft/src/types/wrapped_types.rs | 10 ++++++-
 src/index_icrc7/src/wrapped_values.rs   | 36 ++++++++++++++++++++-----
 3 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/core_nft/src/types/value_custom.rs b/src/core_nft/src/types/value_custom.rs
index a95fe58..8935781 100644
--- a/src/core_nft/src/types/value_custom.rs
+++ b/src/core_nft/src/types/value_custom.rs
@@ -36,14 +36,18 @@ impl<C> minicbor::Encode<C> for CustomValue {
                 e.array(2)?.u8(1)?.str(t)?;
             }
             Value::Nat(n) => {
-                e.array(2)?
-                    .u8(2)?
-                    .u64(u64::try_from(n.0.clone()).unwrap())?;
+                e.array(2)?.u8(2)?;
+                match u64::try_from(&n.0) {
+                    Ok(n) => e.u64(n)?,
+                    Err(_) => e.str(&n.0.to_string())?,
+                };
             }
             Value::Int(i) => {
-                e.array(2)?
-                    .u8(3)?
-                    .i64(i64::try_from(i.0.clone()).unwrap())?;
+                e.array(2)?.u8(3)?;
+                match i64::try_from(&i.0) {
+                    Ok(i) => e.i64(i)?,
+                    Err(_) => e.str(&i.0.to_string())?,
+                };
             }
             Value::Array(arr) => {
                 e.array(2)?.u8(4)?;
@@ -85,10 +89,20 @@ impl<'b, C> minicbor::Decode<'b, C> for CustomValue {
                 let s = d.str()?.to_string();
                 Value::Text(s)
             }
+            2 if d.datatype()? == minicbor::data::Type::String => {
+                let n = candid::Nat::parse(d.str()?.as_bytes())
+                    .map_err(minicbor::decode::Error::message)?;
+                Value::Nat(n)
+            }
             2 => {
                 let n = d.u64()?;
                 Value::Nat(n.into())
             }
+            3 if d.datatype()? == minicbor::data::Type::String => {
+                let i = candid::Int::parse(d.str()?.as_bytes())
+                    .map_err(minicbor::decode::Error::message)?;
+                Value::Int(i)
+            }
             3 => {
                 let i = d.i64()?;
                 Value::Int(i.into())
diff --git a/src/core_nft/src/types/wrapped_types.rs b/src/core_nft/src/types/wrapped_types.rs
index 8557c64..cf9623b 100644
--- a/src/core_nft/src/types/wrapped_types.rs
+++ b/src/core_nft/src/types/wrapped_types.rs
@@ -36,7 +36,10 @@ impl<C> minicbor::Encode<C> for WrappedNat {
         e: &mut Encoder<W>,
         _ctx: &mut C,
     ) -> Result<(), minicbor::encode::Error<W::Error>> {
-        e.u64(u64::try_from(self.0 .0.clone()).unwrap())?;
+        match u64::try_from(&self.0 .0) {
+            Ok(n) => e.u64(n)?,
+            Err(_) => e.str(&self.0 .0.to_string())?,
+        };
         Ok(())
     }
 }
@@ -46,6 +49,11 @@ impl<'b, C> minicbor::Decode<'b, C> for WrappedNat {
         d: &mut minicbor::Decoder<'b>,
         _ctx: &mut C,
     ) -> Result<Self, minicbor::decode::Error> {
+        if d.datatype()? == minicbor::data::Type::String {
+            return Nat::parse(d.str()?.as_bytes())
+                .map(WrappedNat)
+                .map_err(minicbor::decode::Error::message);
+        }
         let nat = d.u64()?;
         Ok(WrappedNat(Nat::from(nat)))
     }
diff --git a/src/index_icrc7/src/wrapped_values.rs b/src/index_icrc7/src/wrapped_values.rs
index cbd2a30..9d27e3e 100644
--- a/src/index_icrc7/src/wrapped_values.rs
+++ b/src/index_icrc7/src/wrapped_values.rs
@@ -48,7 +48,10 @@ impl<C> minicbor::Encode<C> for WrappedNat {
         e: &mut Encoder<W>,
         _ctx: &mut C,
     ) -> Result<(), minicbor::encode::Error<W::Error>> {
-        e.u64(u64::try_from(self.0 .0.clone()).unwrap())?;
+        match u64::try_from(&self.0 .0) {
+            Ok(n) => e.u64(n)?,
+            Err(_) => e.str(&self.0 .0.to_string())?,
+        };
         Ok(())
     }
 }
@@ -58,6 +61,11 @@ impl<'b, C> minicbor::Decode<'b, C> for WrappedNat {
         d: &mut minicbor::Decoder<'b>,
         _ctx: &mut C,
     ) -> Result<Self, minicbor::decode::Error> {
+        if d.datatype()? == minicbor::data::Type::String {
+            return Nat::parse(d.str()?.as_bytes())
+                .map(WrappedNat)
+                .map_err(minicbor::decode::Error::message);
+        }
         let nat = d.u64()?;
         Ok(WrappedNat(Nat::from(nat)))
     }
@@ -181,14 +189,18 @@ impl<C> minicbor::Encode<C> for CustomValue {
                 e.array(2)?.u8(1)?.str(t)?;
             }
             Value::Nat(n) => {
-                e.array(2)?
-                    .u8(2)?
-                    .u64(u64::try_from(n.0.clone()).unwrap())?;
+                e.array(2)?.u8(2)?;
+                match u64::try_from(&n.0) {
+                    Ok(n) => e.u64(n)?,
+                    Err(_) => e.str(&n.0.to_string())?,
+                };
             }
             Value::Int(i) => {
-                e.array(2)?
-                    .u8(3)?
-                    .i64(i64::try_from(i.0.clone()).unwrap())?;
+                e.array(2)?.u8(3)?;
+                match i64::try_from(&i.0) {
+                    Ok(i) => e.i64(i)?,
+                    Err(_) => e.str(&i.0.to_string())?,
+                };
             }
             Value::Array(arr) => {
                 e.array(2)?.u8(4)?;
@@ -230,10 +242,20 @@ impl<'b, C> minicbor::Decode<'b, C> for CustomValue {
                 let s = d.str()?.to_string();
                 Value::Text(s)
             }
+            2 if d.datatype()? == minicbor::data::Type::String => {
+                let n = candid::Nat::parse(d.str()?.as_bytes())
+                    .map_err(minicbor::decode::Error::message)?;
+                Value::Nat(n)
+            }
             2 => {
                 let n = d.u64()?;
                 Value::Nat(n.into())
             }
+            3 if d.datatype()? == minicbor::data::Type::String => {
+                let i = candid::Int::parse(d.str()?.as_bytes())
+                    .map_err(minicbor::decode::Error::message)?;
+                Value::Int(i)
+            }
             3 => {
                 let i = d.i64()?;
                 Value::Int(i.into())
-- 
2.43.0


From 429a81085d9bff00cf21fb7396e751a5a71eb95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:40 +0000
Subject: [PATCH 34/38] fix: icrc7_transfer and the memo limit cope with
 settings too large for a machine word

---
 src/core_nft/src/updates/icrc37.rs |  6 +-----
 src/core_nft/src/updates/icrc7.rs  | 10 +++++-----
 src/core_nft/src/utils.rs          |  2 +-
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/core_nft/src/updates/icrc37.rs b/src/core_nft/src/updates/icrc37.rs
index d95df18..58ebe4c 100644
--- a/src/core_nft/src/updates/icrc37.rs
+++ b/src/core_nft/src/updates/icrc37.rs
@@ -24,11 +24,7 @@ fn verify_approval_timing(created_at_time: u64, current_time: u64) -> Result<(),
         .unwrap_or(Nat::from(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT));
 
     if created_at_time
-        > current_time
-            + permited_drift
-                .0
-                .try_into()
-                .unwrap_or(crate::types::icrc7::DEFAULT_PERMITTED_DRIFT)
+        > current_time.saturating_add(permited_drift.0.try_into().unwrap_or(u64::MAX))
     {
         return Err((true, current_time));
     }
diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index ccac5e8..993c4cc 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -49,20 +49,20 @@ fn transfer_nft(arg: &icrc7::TransferArg) -> Result<Nat, icrc7::icrc7_transfer::
     });
 
     let drift = permitted_drift
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_PERMITTED_DRIFT);
 
-    if time > current_time + drift {
+    if time > current_time.saturating_add(drift) {
         return Err(icrc7::icrc7_transfer::TransferError::CreatedInFuture {
             ledger_time: Nat::from(current_time),
         });
     }
 
     let tx_window = tx_window
-        .map(|d| u64::try_from(d.0).unwrap())
+        .map(|d| u64::try_from(d.0).unwrap_or(u64::MAX))
         .unwrap_or(icrc7::DEFAULT_TX_WINDOW);
 
-    if time < current_time.saturating_sub(tx_window + drift) {
+    if time < current_time.saturating_sub(tx_window.saturating_add(drift)) {
         return Err(icrc7::icrc7_transfer::TransferError::TooOld);
     }
 
@@ -138,7 +138,7 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
         )
     });
 
-    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap();
+    let max_batch_size = usize::try_from(max_update_batch_size.0).unwrap_or(usize::MAX);
 
     if atomic_batch_transfers && args.len() > max_batch_size {
         return vec![Some(Err(
diff --git a/src/core_nft/src/utils.rs b/src/core_nft/src/utils.rs
index c548667..ca5f32a 100644
--- a/src/core_nft/src/utils.rs
+++ b/src/core_nft/src/utils.rs
@@ -14,7 +14,7 @@ pub fn check_memo(memo: Option<serde_bytes::ByteBuf>) -> Result<(), String> {
             })
             .0,
         )
-        .unwrap();
+        .unwrap_or(usize::MAX);
 
         trace(&format!("Memo Size: {}", memo.len()));
         trace(&format!("Max Memo Size: {}", max_memo_size));
-- 
2.43.0


From 29a61583f795a3e2f17d779631d99cc060429de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:14 +0000
Subject: [PATCH 35/38] fix: execute atomic transfer batches as a whole or not
 at all

With icrc7:atomic_batch_transfers set, a failing transfer left the other
transfers of the batch applied. The call now traps in that case, which
undoes them.
---
 src/core_nft/src/updates/icrc7.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core_nft/src/updates/icrc7.rs b/src/core_nft/src/updates/icrc7.rs
index 993c4cc..746490e 100644
--- a/src/core_nft/src/updates/icrc7.rs
+++ b/src/core_nft/src/updates/icrc7.rs
@@ -159,9 +159,20 @@ pub async fn icrc7_transfer(args: icrc7::icrc7_transfer::Args) -> icrc7::icrc7_t
     }
 
     // Process only up to max_batch_size transfers
-    args.iter()
+    let results: icrc7::icrc7_transfer::Response = args
+        .iter()
         .take(max_batch_size)
         .map(transfer_nft)
         .map(Some)
-        .collect()
+        .collect();
+
+    // An atomic batch is executed as a whole or not at all: trapping undoes the transfers that succeeded.
+    if atomic_batch_transfers
+        && results.iter().flatten().any(|result| result.is_ok())
+        && results.iter().flatten().any(|result| result.is_err())
+    {
+        ic_cdk::trap("Atomic batch transfer rolled back: not all transfers can be executed");
+    }
+
+    results
 }
-- 
2.43.0


From 3bc266ef41b5734c41c7fea03e2e5d4bf2a22d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:25 +0000
Subject: [PATCH 36/38] fix: the command line tool ignores refused init_upload
 and store_chunk requests

---
 cmdline/src/calls/uploads.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 9abc29e..8d3020e 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use candid::{Encode, Nat, Principal};
 use core_nft::updates::management::{finalize_upload, init_upload, store_chunk};
 use ic_agent::Agent;
@@ -9,11 +9,14 @@ use url::Url;
 
 pub async fn init(agent: &Agent, canister_id: &Principal, args: init_upload::Args) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "init_upload")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<init_upload::Response>(&response)?
+        .map_err(|e| anyhow!("Init upload failed: {:?}", e))?;
     Ok(())
 }
 
@@ -23,11 +26,14 @@ pub async fn store(
     args: store_chunk::Args,
 ) -> Result<()> {
     let bytes = Encode!(&args)?;
-    agent
+    let response = agent
         .update(canister_id, "store_chunk")
         .with_arg(bytes)
         .call_and_wait()
         .await?;
+
+    candid::decode_one::<store_chunk::Response>(&response)?
+        .map_err(|e| anyhow!("Store chunk failed: {:?}", e))?;
     Ok(())
 }
 
-- 
2.43.0


From bb8341de515336e23723e715d1ac0f628e85a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:25 +0000
Subject: [PATCH 37/38] fix: upload-file sends short reads as whole chunks, and
 chunks of a file it read at another time than the hash

---
 cmdline/src/calls/uploads.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/cmdline/src/calls/uploads.rs b/cmdline/src/calls/uploads.rs
index 8d3020e..49ee574 100644
--- a/cmdline/src/calls/uploads.rs
+++ b/cmdline/src/calls/uploads.rs
@@ -3,8 +3,6 @@ use candid::{Encode, Nat, Principal};
 use core_nft::updates::management::{finalize_upload, init_upload, store_chunk};
 use ic_agent::Agent;
 use sha2::{Digest, Sha256};
-use std::fs::File;
-use std::io::Read;
 use url::Url;
 
 pub async fn init(agent: &Agent, canister_id: &Principal, args: init_upload::Args) -> Result<()> {
@@ -62,17 +60,16 @@ pub async fn upload_file(
     destination_path: &str,
     chunk_size: u64,
 ) -> Result<Url> {
-    let mut file = File::open(file_path)?;
-    let metadata = file.metadata()?;
-    let file_size = metadata.len();
+    if chunk_size == 0 {
+        return Err(anyhow!("The chunk size must not be zero"));
+    }
 
-    let mut buffer = Vec::new();
-    file.read_to_end(&mut buffer)?;
+    // size, hash and chunks all describe the content read here
+    let buffer = std::fs::read(file_path)?;
+    let file_size = buffer.len() as u64;
     let hash = Sha256::digest(&buffer);
     let file_hash = format!("{:x}", hash);
 
-    let mut file = File::open(file_path)?;
-
     init(
         &agent,
         &canister_id,
@@ -85,23 +82,13 @@ pub async fn upload_file(
     )
     .await?;
 
-    let total_chunks = (file_size + chunk_size - 1) / chunk_size;
-
-    for i in 0..total_chunks {
-        let mut chunk_data = vec![0; chunk_size as usize];
-        let bytes_read = file.read(&mut chunk_data)?;
-        if bytes_read == 0 {
-            break;
-        }
-
-        chunk_data.truncate(bytes_read);
-
+    for (i, chunk) in buffer.chunks(chunk_size as usize).enumerate() {
         store(
             &agent,
             &canister_id,
             store_chunk::Args {
                 chunk_id: Nat::from(i),
-                chunk_data,
+                chunk_data: chunk.to_vec(),
                 file_path: destination_path.to_string(),
             },
         )
-- 
2.43.0


From a94229521125a14afff6cf6da24b9d1188d9204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:25 +0000
Subject: [PATCH 38/38] fix: mint and create-metadata drop or cut entries whose
 text has no or several colons

---
 cmdline/src/commands.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/cmdline/src/commands.rs b/cmdline/src/commands.rs
index c789f69..7e7758e 100644
--- a/cmdline/src/commands.rs
+++ b/cmdline/src/commands.rs
@@ -93,6 +93,11 @@ pub async fn handle_create_metadata(sub_matches: &ArgMatches) -> Result<()> {
                         None
                     };
                     attributes.push((trait_type, value, display_type));
+                } else {
+                    return Err(anyhow!(
+                        "Attribute '{}' must have the format trait_type:value[:display_type]",
+                        attr
+                    ));
                 }
             }
         }
@@ -184,25 +189,17 @@ pub async fn handle_mint(
         let mut metadata = Vec::new();
         if let Some(entries) = sub_matches.get_many::<String>("metadata") {
             for entry in entries {
-                let parts: Vec<&str> = entry.split(':').collect();
-                if parts.len() >= 2 {
-                    let key = parts[0].to_string();
-                    let value_str = parts[1];
-                    let value = if let Ok(num) = value_str.parse::<u64>() {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Nat(candid::Nat::from(
-                            num,
-                        ))
-                    } else if let Ok(int) = value_str.parse::<i64>() {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Int(candid::Int::from(
-                            int,
-                        ))
-                    } else {
-                        icrc_ledger_types::icrc::generic_value::ICRC3Value::Text(
-                            value_str.to_string(),
-                        )
-                    };
-                    metadata.push((key, value));
-                }
+                let (key, value_str) = entry.split_once(':').ok_or_else(|| {
+                    anyhow!("Metadata entry '{}' must have the format key:value", entry)
+                })?;
+                let value = if let Ok(num) = value_str.parse::<u64>() {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Nat(candid::Nat::from(num))
+                } else if let Ok(int) = value_str.parse::<i64>() {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Int(candid::Int::from(int))
+                } else {
+                    icrc_ledger_types::icrc::generic_value::ICRC3Value::Text(value_str.to_string())
+                };
+                metadata.push((key.to_string(), value));
             }
         }
         metadata
-- 
2.43.0


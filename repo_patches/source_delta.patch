From 07070ba7586513cbabe7b282b5fcc6259c965a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 1/8] fix: staking-pool get_accounts no longer panics when
 from_index + limit overflows

---
 staking-pool/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staking-pool/src/lib.rs b/staking-pool/src/lib.rs
index 4c6ab0b..ebf124c 100644
--- a/staking-pool/src/lib.rs
+++ b/staking-pool/src/lib.rs
@@ -387,7 +387,7 @@ impl StakingContract {
     pub fn get_accounts(&self, from_index: u64, limit: u64) -> Vec<HumanReadableAccount> {
         let keys = self.accounts.keys_as_vector();
 
-        (from_index..std::cmp::min(from_index + limit, keys.len()))
+        (from_index..std::cmp::min(from_index.saturating_add(limit), keys.len()))
             .map(|index| self.get_account(keys.get(index).unwrap()))
             .collect()
     }
-- 
2.43.0


From 4fce2ecc7c3fc4b60d2209be58dea643ffce7adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 2/8] fix: multisig2 access key members can call
 add_request_and_confirm

---
 multisig2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 052bfab..fbc73b0 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -20,7 +20,7 @@ const REQUEST_COOLDOWN: u64 = 900_000_000_000;
 const ACTIVE_REQUESTS_LIMIT: u32 = 12;
 
 /// Default set of methods that access key should have.
-const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_and_confirm_request";
+const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_request_and_confirm";
 
 pub type RequestId = u32;
 
-- 
2.43.0


From 286b5b20262d2f0e7e82eb49a697d86fa34e5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 3/8] fix: multisig2 SetNumConfirmations can no longer exceed
 the number of members

---
 multisig2/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index fbc73b0..40c227c 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -274,6 +274,10 @@ impl MultiSigContract {
                 // the following methods must be a single action
                 MultiSigRequestAction::SetNumConfirmations { num_confirmations } => {
                     self.assert_one_action_only(receiver_id, num_actions);
+                    assert(
+                        self.members.len() >= num_confirmations as u64,
+                        "Number of confirmations must be equal or less than number of members",
+                    );
                     self.num_confirmations = num_confirmations;
                     return PromiseOrValue::Value(true);
                 }
-- 
2.43.0


From 81220d91821fb94b089e6ed60b31acefa82a8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 4/8] fix: multisig2 new counts a member named twice once
 against the number of confirmations

---
 multisig2/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 40c227c..671cc5c 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -163,6 +163,11 @@ impl MultiSigContract {
         for member in members {
             promise = multisig.add_member(promise, member);
         }
+        // The list may name a member more than once.
+        assert(
+            multisig.members.len() >= num_confirmations as u64,
+            "Members list must be equal or larger than number of confirmations",
+        );
         multisig
     }
 
-- 
2.43.0


From 50c9a9ddff266a91ce7be2928bd6b7ceb269ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 5/8] fix: multisig-factory returns the deposit to the caller
 when a creation fails

---
 multisig-factory/src/lib.rs | 45 ++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/multisig-factory/src/lib.rs b/multisig-factory/src/lib.rs
index 9fe444f..6948784 100644
--- a/multisig-factory/src/lib.rs
+++ b/multisig-factory/src/lib.rs
@@ -1,8 +1,8 @@
 use near_sdk::borsh::{self, BorshDeserialize, BorshSerialize};
-use near_sdk::json_types::Base58PublicKey;
+use near_sdk::json_types::{Base58PublicKey, U128};
 use near_sdk::serde::{Deserialize, Serialize};
 use near_sdk::serde_json::json;
-use near_sdk::{env, near_bindgen, AccountId, Promise};
+use near_sdk::{env, ext_contract, near_bindgen, AccountId, Promise, PromiseResult};
 
 #[global_allocator]
 static ALLOC: near_sdk::wee_alloc::WeeAlloc<'_> = near_sdk::wee_alloc::WeeAlloc::INIT;
@@ -12,6 +12,15 @@ const CODE: &[u8] = include_bytes!("../../multisig2/res/multisig2.wasm");
 /// This gas spent on the call & account creation, the rest goes to the `new` call.
 const CREATE_CALL_GAS: u64 = 50_000_000_000_000;
 
+/// Gas for the callback that returns the attached deposit if the creation has failed.
+const ON_CREATE_GAS: u64 = 10_000_000_000_000;
+
+/// External interface for the callbacks to self.
+#[ext_contract(ext_self)]
+pub trait ExtSelf {
+    fn on_create(&mut self, attached_deposit: U128, predecessor_account_id: AccountId) -> bool;
+}
+
 #[derive(Serialize, Deserialize)]
 #[serde(crate = "near_sdk::serde", untagged)]
 pub enum MultisigMember {
@@ -44,7 +53,37 @@ impl MultisigFactory {
                     .as_bytes()
                     .to_vec(),
                 0,
-                env::prepaid_gas() - CREATE_CALL_GAS,
+                env::prepaid_gas() - CREATE_CALL_GAS - ON_CREATE_GAS,
             )
+            .then(ext_self::on_create(
+                env::attached_deposit().into(),
+                env::predecessor_account_id(),
+                &env::current_account_id(),
+                0,
+                ON_CREATE_GAS,
+            ))
+    }
+
+    /// Callback after a multisig was created.
+    /// Returns `true` if the creation succeeded.
+    /// Otherwise refunds the attached deposit and returns `false`.
+    pub fn on_create(
+        &mut self,
+        attached_deposit: U128,
+        predecessor_account_id: AccountId,
+    ) -> bool {
+        assert_eq!(
+            env::predecessor_account_id(),
+            env::current_account_id(),
+            "Can only be called by the contract itself"
+        );
+        assert_eq!(env::promise_results_count(), 1, "Contract expected a result on the callback");
+        match env::promise_result(0) {
+            PromiseResult::Successful(_) => true,
+            _ => {
+                Promise::new(predecessor_account_id).transfer(attached_deposit.into());
+                false
+            }
+        }
     }
 }
-- 
2.43.0


From b737493f10a474c6216dbed68e91cf15b7bf612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:29 +0000
Subject: [PATCH 6/8] fix: lockup new validates an explicit vesting schedule

---
 lockup/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lockup/src/lib.rs b/lockup/src/lib.rs
index 22db413..92c3357 100644
--- a/lockup/src/lib.rs
+++ b/lockup/src/lib.rs
@@ -223,6 +223,7 @@ impl LockupContract {
             }
             Some(VestingScheduleOrHash::VestingHash(hash)) => VestingInformation::VestingHash(hash),
             Some(VestingScheduleOrHash::VestingSchedule(vs)) => {
+                vs.assert_valid();
                 VestingInformation::VestingSchedule(vs)
             }
         };
-- 
2.43.0


From d65f9c22271d58267b7618b45d9a3335a89d4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:12 +0000
Subject: [PATCH 7/8] fix: deploy_lockup.sh uses the poll and the whitelist
 that deploy_core.sh deploys

---
 scripts/deploy_lockup.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/deploy_lockup.sh b/scripts/deploy_lockup.sh
index 74fd6f7..3d6eb21 100755
--- a/scripts/deploy_lockup.sh
+++ b/scripts/deploy_lockup.sh
@@ -79,8 +79,8 @@ while true; do
   fi
 done
 
-VOTE_ACCOUNT_ID="vote.${MASTER_ACCOUNT_ID}"
-WHITELIST_ACCOUNT_ID="whitelist.${MASTER_ACCOUNT_ID}"
+VOTE_ACCOUNT_ID="transfer-vote.${MASTER_ACCOUNT_ID}"
+WHITELIST_ACCOUNT_ID="lockup-whitelist.${MASTER_ACCOUNT_ID}"
 
 REPL=$(cat <<-END
 await new Promise(resolve => setTimeout(resolve, 100));
-- 
2.43.0


From 0861362f00f2e0a26c499f273665b927215f96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:12 +0000
Subject: [PATCH 8/8] fix: deploy_lockup.sh notices that the account exists
 already

---
 scripts/deploy_lockup.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/deploy_lockup.sh b/scripts/deploy_lockup.sh
index 3d6eb21..354879d 100755
--- a/scripts/deploy_lockup.sh
+++ b/scripts/deploy_lockup.sh
@@ -49,7 +49,7 @@ if [ ${#LOCKUP_ACCOUNT_ID} -gt "64" ]; then
 fi
 
 # Verifying the new account doesn't exist
-RES=$(near state $ACCOUNT_ID | grep "amount" && echo "BAD" || echo "OK")
+RES=$(near state $ACCOUNT_ID | grep -q "amount" && echo "BAD" || echo "OK")
 if [ "$RES" = "BAD" ]; then
   echo "The account ${ACCOUNT_ID} already exist."
   exit 1
-- 
2.43.0


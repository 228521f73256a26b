From 25ac24bbf8d06a8da0e20f363e6e8897305cccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 1/2] fix: validator fee claims fail instead of wrapping when
 the vault is below its rent minimum

---
 src/processor/validator_claim_fees.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/processor/validator_claim_fees.rs b/src/processor/validator_claim_fees.rs
index 7e411a4..11ac5c8 100644
--- a/src/processor/validator_claim_fees.rs
+++ b/src/processor/validator_claim_fees.rs
@@ -43,23 +43,28 @@ pub fn process_validator_claim_fees(
 
     // Calculate the amount to transfer
     let min_rent = Rent::default().minimum_balance(8);
-    let amount = args
-        .amount
-        .unwrap_or(validator_fees_vault.lamports() - min_rent);
+    let claimable = validator_fees_vault
+        .lamports()
+        .checked_sub(min_rent)
+        .ok_or(ProgramError::InsufficientFunds)?;
+    let amount = args.amount.unwrap_or(claimable);
 
     // Ensure vault has enough lamports
-    if validator_fees_vault.lamports() - min_rent < amount {
+    if claimable < amount {
         msg!(
             "Vault ({}) has insufficient funds: {} < {}",
             validator_fees_vault.key,
-            validator_fees_vault.lamports() - min_rent,
+            claimable,
             amount
         );
         return Err(ProgramError::InsufficientFunds);
     }
 
     // Calculate fees and remaining amount
-    let protocol_fees = (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)) / 100;
+    let protocol_fees = amount
+        .checked_mul(u64::from(PROTOCOL_FEES_PERCENTAGE))
+        .ok_or(DlpError::Overflow)?
+        / 100;
     let remaining_amount = amount.saturating_sub(protocol_fees);
 
     // Transfer fees to fees_vault
-- 
2.43.0


From 7915bbb8157c31ad23e4237948c903e613972e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 2/2] fix: builders of commit and finalize list the validator
 as writable, since its lamports change

---
 src/instruction_builder/commit_state.rs             | 2 +-
 src/instruction_builder/commit_state_from_buffer.rs | 2 +-
 src/instruction_builder/finalize.rs                 | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instruction_builder/commit_state.rs b/src/instruction_builder/commit_state.rs
index b6f5ce0..8e044ea 100644
--- a/src/instruction_builder/commit_state.rs
+++ b/src/instruction_builder/commit_state.rs
@@ -30,7 +30,7 @@ pub fn commit_state(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/commit_state_from_buffer.rs b/src/instruction_builder/commit_state_from_buffer.rs
index dc93230..56c913f 100644
--- a/src/instruction_builder/commit_state_from_buffer.rs
+++ b/src/instruction_builder/commit_state_from_buffer.rs
@@ -31,7 +31,7 @@ pub fn commit_state_from_buffer(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/finalize.rs b/src/instruction_builder/finalize.rs
index 38226dd..23cbe2a 100644
--- a/src/instruction_builder/finalize.rs
+++ b/src/instruction_builder/finalize.rs
@@ -21,7 +21,7 @@ pub fn finalize(validator: Pubkey, delegated_account: Pubkey) -> Instruction {
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
-- 
2.43.0


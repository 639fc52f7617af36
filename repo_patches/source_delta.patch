From 1308cb20c11a2ff76ba9527294d39d0eaf328b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 01/31] fix: invalid token sends only release the account rent
 they reserved

---
 elusiv/src/processor/proof.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 5cca361..3ffc6ed 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -884,11 +884,21 @@ pub fn finalize_verification_transfer_token<'a>(
             None,
         )?;
 
+        // `associated_token_account_rent` has only been reserved if the recipient is an associated-token-account
+        let associated_token_account_rent = match &request {
+            ProofRequest::Send(public_inputs)
+                if public_inputs.recipient_is_associated_token_account =>
+            {
+                spl_token_account_rent()?
+            }
+            _ => Lamports(0),
+        };
+
         // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent` to `fee_collector` (lamports)
         transfer_lamports_from_pda_checked(
             pool,
             fee_collector,
-            (data.commitment_hash_fee + spl_token_account_rent()?)?.0,
+            (data.commitment_hash_fee + associated_token_account_rent)?.0,
         )?;
 
         return Ok(());
-- 
2.43.0


From 44fff0e9a4e93564952ec0c334be4dc72cc67773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 02/31] fix: solana-pay sends do not pay the optional fee twice

---
 elusiv/src/processor/proof.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 3ffc6ed..d87b9f5 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -736,11 +736,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
             if public_inputs.solana_pay_transfer {
                 // `pool` transfers `amount` to `original_fee_payer` (lamports)
-                transfer_lamports_from_pda_checked(
-                    pool,
-                    original_fee_payer,
-                    public_inputs.join_split.amount,
-                )?;
+                transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-- 
2.43.0


From 06992732d484a731c290a1be41a61399883dbf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 03/31] fix: reject sends whose total amount overflows

---
 elusiv/src/processor/proof.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index d87b9f5..0264a62 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -299,7 +299,8 @@ pub fn init_verification_transfer_fee<'a>(
             guard!(
                 public_inputs.join_split.amount
                     >= associated_token_account_rent_token
-                        + public_inputs.join_split.optional_fee.amount,
+                        .checked_add(public_inputs.join_split.optional_fee.amount)
+                        .ok_or(ElusivError::InvalidAmount)?,
                 ElusivError::InvalidAmount
             );
         }
@@ -1139,6 +1140,15 @@ fn check_join_split_public_inputs(
         ElusivError::InvalidRecentCommitmentIndex
     );
 
+    // Verify the total amount
+    guard!(
+        public_inputs
+            .amount
+            .checked_add(public_inputs.fee)
+            .is_some(),
+        ElusivError::InvalidAmount
+    );
+
     // Verify the optional fee
     guard!(
         public_inputs.amount >= public_inputs.optional_fee.amount,
-- 
2.43.0


From d4f908893ba73bcd1d141b6056c63e341cb4fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 04/31] fix: basis point fees of large amounts do not overflow

---
 elusiv/src/state/fee.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 7695ae0..24c9564 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -17,7 +17,8 @@ pub struct BasisPointFee(pub u64);
 
 impl BasisPointFee {
     pub fn calc(&self, amount: u64) -> u64 {
-        self.0 * amount / 10_000
+        let fee = self.0 as u128 * amount as u128 / 10_000;
+        u64::try_from(fee).unwrap_or(u64::MAX)
     }
 }
 
-- 
2.43.0


From 1dd5e9ccc18c2301ec29c53798c715040037d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 05/31] fix: the root of a tree that is not in use yet is not
 valid

---
 elusiv/src/processor/proof.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 0264a62..8ee6b98 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1183,7 +1183,8 @@ fn check_join_split_public_inputs(
                 } else {
                     // Closed tree
                     guard!(
-                        root.reduce() == nullifier_accounts[index].get_root(),
+                        tree_indices[index] < active_tree_index
+                            && root.reduce() == nullifier_accounts[index].get_root(),
                         ElusivError::InvalidMerkleRoot
                     );
                 }
-- 
2.43.0


From 6bd02e5a3896c9822ba1955d21d0bbf2927bd296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 06/31] fix: a direct transfer cannot serve two solana-pay
 sends

---
 elusiv/src/processor/proof.rs | 41 ++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 8ee6b98..61b1a9b 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -740,12 +740,9 @@ pub fn finalize_verification_transfer_lamports<'a>(
                 transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
-                let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-                enforce_instruction(
-                    &instructions_sysvar,
-                    instructions_sysvar.find_instruction_count()? - 1,
+                enforce_direct_transfer_instruction(
+                    &DefaultInstructionsSysvar(instructions_account),
                     &system_instruction::transfer(original_fee_payer.key, recipient.key, amount),
-                    false,
                 )?;
             } else {
                 // `pool` transfers `amount` to `recipient` (lamports)
@@ -979,10 +976,8 @@ pub fn finalize_verification_transfer_token<'a>(
                 )?;
 
                 // Last instruction: `original_fee_payer_account` transfers `amount` to `recipient` (token)
-                let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-                enforce_instruction(
-                    &instructions_sysvar,
-                    instructions_sysvar.find_instruction_count()? - 1,
+                enforce_direct_transfer_instruction(
+                    &DefaultInstructionsSysvar(instructions_account),
                     &spl_token::instruction::transfer(
                         token_program.key,
                         original_fee_payer_account.key,
@@ -991,7 +986,6 @@ pub fn finalize_verification_transfer_token<'a>(
                         &[original_fee_payer.key],
                         token.amount(),
                     )?,
-                    false,
                 )?;
             } else {
                 // `pool` transfers `amount` to `recipient` (token)
@@ -1326,6 +1320,33 @@ fn enforce_finalize_send_instructions_inner<I: InstructionsSysvar>(
     Ok(())
 }
 
+/// Enforces that the last instruction is the direct transfer of a solana-pay send
+/// - the direct transfer belongs to exactly one send, so no other transfer-finalization can precede it
+fn enforce_direct_transfer_instruction<I: InstructionsSysvar>(
+    instruction_sysvar: &I,
+    expected: &Instruction,
+) -> ProgramResult {
+    let current_ix_index = instruction_sysvar.current_index()? as usize;
+    let last_ix_index = instruction_sysvar.find_instruction_count()? - 1;
+
+    for index in current_ix_index + 1..last_ix_index {
+        let ix = instruction_sysvar.instruction_at_index(index)?;
+        guard!(
+            ix.program_id != crate::id()
+                || !matches!(
+                    ix.data.first(),
+                    Some(&ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX)
+                        | Some(&ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_TOKEN_INDEX)
+                ),
+            ElusivError::InvalidOtherInstruction
+        );
+    }
+
+    enforce_instruction(instruction_sysvar, last_ix_index, expected, false)?;
+
+    Ok(())
+}
+
 fn enforce_instruction<I: InstructionsSysvar>(
     instruction_sysvar: &I,
     index: usize,
-- 
2.43.0


From a31b9cbc4dd9170a0cffcdae5666d6b471ceb051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 07/31] fix: the finalization instructions have to belong to
 the same verification

---
 elusiv/src/processor/proof.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 61b1a9b..c9cf128 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -570,6 +570,7 @@ pub fn finalize_verification_send(
         instructions_account,
         public_inputs.join_split.token_id == 0,
         verification_account_index,
+        &verification_account.get_other_data().fee_payer.skip_mr(),
     )?;
 
     let (commitment_index, mt_index) = minimum_commitment_mt_index(
@@ -1238,16 +1239,33 @@ fn enforce_finalize_send_instructions(
     instructions_account: &AccountInfo,
     uses_lamports: bool,
     verification_account_index: u8,
+    fee_payer: &U256,
 ) -> ProgramResult {
     if cfg!(test) {
         return Ok(());
     }
 
+    let instruction_sysvar = DefaultInstructionsSysvar(instructions_account);
     enforce_finalize_send_instructions_inner(
-        &DefaultInstructionsSysvar(instructions_account),
+        &instruction_sysvar,
         uses_lamports,
         verification_account_index,
-    )
+    )?;
+
+    // All following instructions have to finalize the verification of the same `fee_payer`
+    let mut index = instruction_sysvar.current_index()? as usize;
+    loop {
+        index += 1;
+        let ix = instruction_sysvar.instruction_at_index(index)?;
+        guard!(
+            matches!(ix.accounts.first(), Some(account) if account.pubkey.to_bytes() == *fee_payer),
+            ElusivError::InvalidOtherInstruction
+        );
+
+        if ix.data[0] != ElusivInstruction::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX {
+            return Ok(());
+        }
+    }
 }
 
 fn verify_finalize_send_instruction<I: InstructionsSysvar>(
-- 
2.43.0


From 60ade693b3c830880267b10b40f418e74a69fb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 08/31] fix: the root history of batched insertions holds every
 recent root

---
 elusiv/src/state/commitment.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/state/commitment.rs b/elusiv/src/state/commitment.rs
index dac3b7c..d8b0115 100644
--- a/elusiv/src/state/commitment.rs
+++ b/elusiv/src/state/commitment.rs
@@ -259,11 +259,12 @@ impl<'a> CommitmentHashingAccount<'a> {
             );
 
             // This inserts the new root into the `active_mt_root_history`
+            let mt_roots_count = storage_account.get_mt_roots_count();
             storage_account.set_active_mt_root_history(
-                ordering as usize % HISTORY_ARRAY_SIZE,
+                mt_roots_count as usize % HISTORY_ARRAY_SIZE,
                 &storage_account.get_root().unwrap(),
             );
-            storage_account.set_mt_roots_count(&(storage_account.get_mt_roots_count() + 1));
+            storage_account.set_mt_roots_count(&(mt_roots_count + 1));
         }
     }
 }
-- 
2.43.0


From c40543c91102fab48e862e03a38239110a08e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 09/31] fix: a tolerated insertion failure does not drop queued
 commitments

---
 elusiv/src/processor/commitment.rs | 61 +++++++++++++++---------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index c1ab6c5..86f1a4c 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -375,30 +375,45 @@ pub fn init_commitment_hash(
 
     insertion_can_fail: bool,
 ) -> ProgramResult {
-    match init_commitment_hash_inner(
-        commitment_queue,
-        metadata_queue,
-        hashing_account,
-        metadata_account,
-    ) {
-        Ok(()) => Ok(()),
+    let mut commitment_queue = CommitmentQueue::new(commitment_queue);
+
+    // Only failures before the first state change can be ignored, otherwise dequeued commitments would be lost
+    let (batch, batching_rate) = match next_insertable_batch(&commitment_queue, hashing_account) {
+        Ok(batch) => batch,
         Err(e) => {
-            if insertion_can_fail {
+            return if insertion_can_fail {
                 solana_program::msg!("Instruction failed: {:?}", e);
                 Ok(())
             } else {
                 Err(e)
             }
         }
+    };
+
+    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
+
+    let mut metadata_queue = MetadataQueue::new(metadata_queue);
+    for _ in 0..batch.len() {
+        let metadata = metadata_queue.dequeue_first()?;
+        metadata_account.add_commitment_metadata(&metadata)?;
     }
+
+    // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
+    let fee_version = batch.first().unwrap().fee_version;
+
+    let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
+    for i in 0..batch.len() {
+        commitments[i] = batch[i].commitment;
+    }
+
+    hashing_account.reset(batching_rate, fee_version, &commitments)
 }
 
-fn init_commitment_hash_inner(
-    commitment_queue: &mut CommitmentQueueAccount,
-    metadata_queue: &mut MetadataQueueAccount,
-    hashing_account: &mut CommitmentHashingAccount,
-    metadata_account: &mut MetadataAccount,
-) -> ProgramResult {
+/// The next batch of the commitment queue, if it can be placed in the [`CommitmentHashingAccount`]
+fn next_insertable_batch(
+    commitment_queue: &CommitmentQueue,
+    hashing_account: &CommitmentHashingAccount,
+) -> Result<(Vec<CommitmentHashRequest>, u32), solana_program::program_error::ProgramError> {
     guard!(
         !hashing_account.get_is_active(),
         ElusivError::ComputationIsNotYetFinished
@@ -408,18 +423,7 @@ fn init_commitment_hash_inner(
         ElusivError::ComputationIsNotYetFinished
     );
 
-    let mut commitment_queue = CommitmentQueue::new(commitment_queue);
     let (batch, batching_rate) = commitment_queue.next_batch()?;
-    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
-
-    let mut metadata_queue = MetadataQueue::new(metadata_queue);
-    for _ in 0..batch.len() {
-        let metadata = metadata_queue.dequeue_first()?;
-        metadata_account.add_commitment_metadata(&metadata)?;
-    }
-
-    // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
-    let fee_version = batch.first().unwrap().fee_version;
 
     // Check for room for the commitment batch
     guard!(
@@ -427,12 +431,7 @@ fn init_commitment_hash_inner(
         ElusivError::NoRoomForCommitment
     );
 
-    let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
-    for i in 0..batch.len() {
-        commitments[i] = batch[i].commitment;
-    }
-
-    hashing_account.reset(batching_rate, fee_version, &commitments)
+    Ok((batch, batching_rate))
 }
 
 pub fn compute_commitment_hash<'a>(
-- 
2.43.0


From fadb013339cc5ed436e40a6e837d024b0684afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 10/31] fix: the metadata of a new tree starts at its first
 leaf

---
 elusiv/src/processor/commitment.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index 86f1a4c..654a087 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -392,6 +392,9 @@ pub fn init_commitment_hash(
 
     commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
 
+    // The metadata is stored at the index of its commitment (this includes the start of a new MT)
+    metadata_account.set_next_metadata_ptr(&hashing_account.get_ordering());
+
     let mut metadata_queue = MetadataQueue::new(metadata_queue);
     for _ in 0..batch.len() {
         let metadata = metadata_queue.dequeue_first()?;
-- 
2.43.0


From f599ea5e62e99e92bb358e012cd77495eb5f5b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 11/31] fix: a tree is not reset while its last batch can still
 be inserted

---
 elusiv/src/processor/accounts.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elusiv/src/processor/accounts.rs b/elusiv/src/processor/accounts.rs
index 420faf1..330bd22 100644
--- a/elusiv/src/processor/accounts.rs
+++ b/elusiv/src/processor/accounts.rs
@@ -179,6 +179,14 @@ pub fn reset_active_merkle_tree(
         ElusivError::MerkleTreeIsNotFullYet
     );
 
+    // A batch that exactly fills the MT belongs into this MT (and could already be in the process of being hashed)
+    guard!(
+        storage_account.is_full()
+            || storage_account.get_next_commitment_ptr() as usize + queue.next_batch()?.0.len()
+                > MT_COMMITMENT_COUNT,
+        ElusivError::MerkleTreeIsNotFullYet
+    );
+
     storage_account.set_trees_count(&(active_merkle_tree_index.checked_add(1).ok_or(MATH_ERR)?));
     active_nullifier_account.set_root(&storage_account.get_root()?);
     storage_account.reset();
-- 
2.43.0


From e039946437914ba24bafa29c6f4a564a5b888ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 12/31] fix: keep a nullifier that replaces the maximum of a
 full segment

An insertion directly below the maximum of a full map reuses the slot of the
maximum. The map linked the slot to itself and declared the predecessor the
new maximum: the inserted key was lost, so a spent nullifier could be spent
again.
---
 elusiv/src/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 6faaa11..6c03b35 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -221,6 +221,11 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
         self.set(&new_ptr, key, value);
 
+        if is_full && index + 1 == self.len.get() {
+            // The maximum has been replaced in place, all pointers remain valid
+            return Ok(Some((max_key.unwrap(), max_value.unwrap())));
+        }
+
         if index == 0 {
             // Prepend
             let ptr = self.min_ptr.get();
-- 
2.43.0


From b247dc706e4547d336e6b7681cc2ab21a483f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 13/31] fix: updating a verifying key closes the replaced data
 account

---
 elusiv/src/processor/vkey.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/vkey.rs b/elusiv/src/processor/vkey.rs
index f73c754..6b9b212 100644
--- a/elusiv/src/processor/vkey.rs
+++ b/elusiv/src/processor/vkey.rs
@@ -4,9 +4,7 @@ use crate::{
 };
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_types::{BorshSerDeSized, ChildAccountConfig, ElusivOption, ParentAccount};
-use elusiv_utils::{
-    guard, open_pda_account_with_offset, pda_account, transfer_with_system_program,
-};
+use elusiv_utils::{close_account, guard, open_pda_account_with_offset, pda_account};
 use solana_program::{
     account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
     pubkey::Pubkey,
@@ -106,7 +104,7 @@ pub fn update_vkey_version<'a>(
     signer: &AccountInfo<'a>,
     vkey_account: &mut VKeyAccount,
     old_vkey_binary_data_account: &AccountInfo<'a>,
-    system_program: &AccountInfo<'a>,
+    _system_program: &AccountInfo<'a>,
 
     _vkey_id: u32,
 ) -> ProgramResult {
@@ -124,12 +122,7 @@ pub fn update_vkey_version<'a>(
             ElusivError::InvalidAccount
         );
 
-        transfer_with_system_program(
-            old_vkey_binary_data_account,
-            signer,
-            system_program,
-            old_vkey_binary_data_account.lamports(),
-        )?;
+        close_account(signer, old_vkey_binary_data_account)?;
     }
 
     // Swap child accounts
-- 
2.43.0


From 010ee831e4ceef3705c4be67a6b28a086adb2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 14/31] fix: the Miller loop's last two line evaluations are
 applied when the prepared inputs are the point at infinity

---
 elusiv/src/proof/verifier.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 172ba97..5c29d35 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -600,10 +600,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
             partial v = mul_by_characteristics(storage, alt_b.get()) {
                 _ = alt_b.set(G2Affine::new(v.x, v.y.neg(), v.infinity));
@@ -613,10 +611,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
         }
         {   /// 500
-- 
2.43.0


From b8bfe4ef558fa82b514521df34097f5075001f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:27 +0000
Subject: [PATCH 15/31] fix: a proof whose points are not canonical points of
 their curves (or at infinity) is refused

---
 elusiv/src/processor/proof.rs |  5 +++++
 elusiv/src/types.rs           | 22 ++++++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index c9cf128..7354775 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -379,6 +379,11 @@ pub fn init_verification_proof(
         ElusivError::InvalidAccount
     );
 
+    guard!(
+        proof.has_valid_points(),
+        ElusivError::InvalidInstructionData
+    );
+
     verification_account.a.set(proof.a);
     verification_account.b.set(proof.b);
     verification_account.c.set(proof.c);
diff --git a/elusiv/src/types.rs b/elusiv/src/types.rs
index e9c40fc..4444300 100644
--- a/elusiv/src/types.rs
+++ b/elusiv/src/types.rs
@@ -6,8 +6,8 @@ use crate::proof::vkey::{MigrateUnaryVKey, SendQuadraVKey, VerifyingKeyInfo};
 use crate::state::metadata::CommitmentMetadata;
 use crate::state::proof::NullifierDuplicateAccount;
 use crate::u64_array;
-use ark_bn254::Fr;
-use ark_ff::PrimeField;
+use ark_bn254::{Fq, FqParameters, Fr};
+use ark_ff::{FpParameters, PrimeField};
 use borsh::BorshDeserialize;
 use borsh::BorshSerialize;
 use elusiv_types::{PDAAccount, SizedType};
@@ -235,6 +235,24 @@ pub struct Proof {
     pub c: G1A,
 }
 
+impl Proof {
+    /// All points have to be (canonically encoded) points of their curves, other than the points at infinity
+    pub fn has_valid_points(&self) -> bool {
+        fn is_canonical(e: &Fq) -> bool {
+            e.0 < FqParameters::MODULUS
+        }
+        let (a, b, c) = (&self.a.0, &self.b.0, &self.c.0);
+
+        [a, c].iter().all(|p| {
+            !p.infinity && is_canonical(&p.x) && is_canonical(&p.y) && p.is_on_curve()
+        }) && !b.infinity
+            && [&b.x.c0, &b.x.c1, &b.y.c0, &b.y.c1]
+                .iter()
+                .all(|e| is_canonical(e))
+            && b.is_on_curve()
+    }
+}
+
 /// A Groth16 proof in affine form in binary representation (this construct is required for serde-json parsing in the Warden)
 #[cfg(feature = "elusiv-client")]
 #[derive(BorshDeserialize, BorshSerialize, BorshSerDeSized, PartialEq, Clone, Copy, Debug)]
-- 
2.43.0


From 05fd0ebd151436254f95cf6ded9fd4fe4e44f6d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 16/31] fix: keep the basic network account within the size a
 program can allocate

With the current token list the BasicWardenNetworkAccount for 512 members takes
10246 bytes, more than the 10 KiB a CPI can allocate, so Init could never succeed.
---
 elusiv-warden-network/src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index c95075c..d9dbdb4 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -35,7 +35,7 @@ macro_rules! warden_network {
     };
 }
 
-warden_network!(ElusivBasicWardenNetwork, NetworkSize::Dynamic(0, 512));
+warden_network!(ElusivBasicWardenNetwork, NetworkSize::Dynamic(0, 511));
 
 #[elusiv_account]
 pub struct BasicWardenNetworkAccount {
-- 
2.43.0


From 47499b1a4f50627e13eed3fa07badfc418086b9e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 17/31] fix: count warden activity

WardenStatistics::inc dropped the results of its additions, so nothing was ever
counted, and refused the last day of leap years (day 366).
---
 elusiv-warden-network/src/warden.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/elusiv-warden-network/src/warden.rs b/elusiv-warden-network/src/warden.rs
index e0ed547..c15139f 100644
--- a/elusiv-warden-network/src/warden.rs
+++ b/elusiv-warden-network/src/warden.rs
@@ -197,14 +197,17 @@ pub struct WardenStatistics {
 }
 
 impl WardenStatistics {
-    pub fn inc(&self, day: u32) -> Result<&Self, ProgramError> {
-        guard!(day < 366, ElusivWardenNetworkError::StatsError);
+    /// Counts one activity on the `day` (of the year, starting with 1)
+    pub fn inc(&mut self, day: u32) -> Result<&Self, ProgramError> {
+        guard!((1..=366).contains(&day), ElusivWardenNetworkError::StatsError);
+        let activity = &mut self.activity[day as usize - 1];
 
-        self.total
+        self.total = self
+            .total
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        self.activity[day as usize]
+        *activity = activity
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-- 
2.43.0


From ad444eafea8668773703e6e2c1acbcd089bc9af4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 18/31] fix: persist attested warden metadata in the warden
 account

---
 elusiv-warden-network/src/processor/basic_warden.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 442a714..b6c22f3 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -234,6 +234,7 @@ pub fn attest_basic_warden_metadata(
     warden.config.uses_proxy = uses_proxy;
     warden.config.region = region;
     warden.is_metadata_valid = Some(!warden_supplied_invalid_data).into();
+    warden_account.set_warden(&warden);
 
     basic_network_account.update_region(warden_id, member_index as usize, &region)?;
 
-- 
2.43.0


From 562a5dd6362e06533d5152ece2fb9f69d4d69479 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 19/31] fix: only update the region of an actual network member

The unused places of the member list read as warden 0.
---
 elusiv-warden-network/src/network.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index d9dbdb4..f4d6870 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -79,6 +79,10 @@ impl<'a> BasicWardenNetworkAccount<'a> {
         member_index: usize,
         region: &WardenRegion,
     ) -> ProgramResult {
+        guard!(
+            member_index < self.get_members_count() as usize,
+            ElusivWardenNetworkError::InvalidInstructionData
+        );
         guard!(
             self.get_members(member_index) == warden_id,
             ElusivWardenNetworkError::InvalidInstructionData
-- 
2.43.0


From 32703617c1efac08a1b2ae0dc1d9eafa8bd61f6e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 20/31] fix: store the key of a registered warden operator

---
 elusiv-warden-network/src/processor/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/operator.rs b/elusiv-warden-network/src/processor/operator.rs
index d0e4e3e..ba07ede 100644
--- a/elusiv-warden-network/src/processor/operator.rs
+++ b/elusiv-warden-network/src/processor/operator.rs
@@ -29,6 +29,7 @@ pub fn register_warden_operator<'b>(
         WardenOperatorAccount,
         operator_account.get_safe()?
     );
+    operator_account.set_key(operator.key);
     operator_account.set_ident(&ident);
     operator_account.set_url(&url);
     operator_account.set_jurisdiction(&jurisdiction.into());
-- 
2.43.0


From 812e3d6b723130c27792c47cd28c719fba30f528 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 21/31] fix: wardens cannot appoint themselves as attesters at
 registration

---
 elusiv-warden-network/src/processor/basic_warden.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index b6c22f3..00dce93 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -31,6 +31,12 @@ pub fn register_basic_warden<'a, 'b>(
 ) -> ProgramResult {
     guard!(config.key == *warden.key, ProgramError::InvalidArgument);
 
+    // Attesters are only appointed by the `METADATA_ATTESTER_AUTHORITY` (see [`add_metadata_attester`])
+    guard!(
+        !config.warden_features.attestation,
+        ElusivWardenNetworkError::WardenRegistrationError
+    );
+
     basic_network_account.try_add_member(
         warden_id,
         &config.basic_warden_features,
-- 
2.43.0


From 8a43989b6e2102c1e7d60e494934367c67d3de60 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 22/31] fix: track the relaying warden of transfer
 finalizations

The fee payer is the first account of FinalizeVerificationTransferLamports and
FinalizeVerificationTransferToken, the tracked positions were the recipient's.
---
 elusiv-warden-network/src/processor/basic_warden.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 00dce93..a3173e7 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -289,12 +289,12 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
-        warden_index: 1,
+        warden_index: 0,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
-        warden_index: 3,
+        warden_index: 0,
     },
 ];
 
-- 
2.43.0


From 434b1605c7e023af13e9a1a2fe21c7623c5e8594 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 23/31] fix: infallible tracking does not abort on foreign
 instructions

A preceding instruction without data or accounts panicked even if the tracking
was not allowed to fail the transaction.
---
 elusiv-warden-network/src/processor/basic_warden.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index a3173e7..4261099 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -346,13 +346,20 @@ fn track_basic_warden_stats_inner(
         instructions_account,
     )?;
 
-    let ix_byte = previous_ix.data[0];
+    let ix_byte = *previous_ix
+        .data
+        .first()
+        .ok_or(ElusivWardenNetworkError::StatsError)?;
     if let Some(ix) = TRACKABLE_ELUSIV_INSTRUCTIONS
         .iter()
         .find(|i| i.instruction_id == ix_byte)
     {
+        let relayer = previous_ix
+            .accounts
+            .get(ix.warden_index as usize)
+            .ok_or(ElusivWardenNetworkError::StatsError)?;
         guard!(
-            previous_ix.accounts[ix.warden_index as usize].pubkey == *warden.key,
+            relayer.pubkey == *warden.key,
             ElusivWardenNetworkError::StatsError
         );
         guard!(
-- 
2.43.0


From 8a3e163220943cce9a5b38afb6a6b5549c442ed4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 24/31] fix: store the second quote half under the member's own
 position

The warden id was used as the position.
---
 elusiv-warden-network/src/network.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index f4d6870..7535c58 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -166,10 +166,9 @@ impl<'a> ApaWardenNetworkAccount<'a> {
         );
 
         let member_index = (0..self.get_members_count() as usize)
-            .map(|i| self.get_members(i))
-            .find(|member| member == &warden_id)
+            .find(|i| self.get_members(*i) == warden_id)
             .ok_or(ElusivWardenNetworkError::WardenRegistrationError)?;
-        self.set_quote_ends(member_index as usize, &Some(quote_end).into());
+        self.set_quote_ends(member_index, &Some(quote_end).into());
 
         Ok(())
     }
-- 
2.43.0


From 3d2677d9af92b0e231a12d9abc4ceada4a345b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 25/31] fix: find also finds values that are a single byte

---
 elusiv/src/bytes.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/elusiv/src/bytes.rs b/elusiv/src/bytes.rs
index b922c8e..20dbbe7 100644
--- a/elusiv/src/bytes.rs
+++ b/elusiv/src/bytes.rs
@@ -60,19 +60,10 @@ pub fn find<N: BorshSerialize + BorshSerDeSized>(
 
     // TODO: optimize with byte alignment
 
-    let last_index = N::SIZE - 1;
     let mut offset = 0;
     for i in 0..length {
-        if data[offset] == bytes[0] {
-            for j in 1..N::SIZE {
-                if data[offset + j] != bytes[j] {
-                    break;
-                }
-
-                if j == last_index {
-                    return Some(i);
-                }
-            }
+        if data[offset..offset + N::SIZE] == bytes[..N::SIZE] {
+            return Some(i);
         }
 
         offset += N::SIZE;
-- 
2.43.0


From d4a47ff6e600ee107918f9d5c741031f440977ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 26/31] fix: declared size of a serialized G2 point

---
 elusiv/src/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/fields.rs b/elusiv/src/fields.rs
index bff385a..acd8641 100644
--- a/elusiv/src/fields.rs
+++ b/elusiv/src/fields.rs
@@ -302,7 +302,7 @@ impl BorshDeserialize for G2A {
     }
 }
 impl BorshSerDeSized for Wrap<G2A> {
-    const SIZE: usize = 65;
+    const SIZE: usize = 129;
 }
 impl BorshSerialize for Wrap<G2A> {
     fn serialize<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
-- 
2.43.0


From 333e94dde12073e6ae67367e2e9945ffc13f8321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 27/31] fix: refuse fee schedules whose fees exceed u64

---
 elusiv/src/state/fee.rs   | 28 +++++++++++++++++++++++++++-
 elusiv/src/state/proof.rs |  2 +-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 24c9564..c9213ae 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -1,4 +1,5 @@
 use super::program_account::PDAAccountData;
+use super::proof::MAX_PREPARE_INPUTS_INSTRUCTIONS;
 use crate::bytes::{div_ceiling_u64, u64_as_usize_safe};
 use crate::commitment::{
     commitment_hash_computation_instructions, commitments_per_batch, BaseCommitmentHashComputation,
@@ -75,8 +76,12 @@ impl ProgramFee {
         }
     }
 
-    /// Verifies that possible subventions are not too high
+    /// Verifies that all fees are representable and that possible subventions are not too high
     pub fn is_valid(&self) -> bool {
+        if !self.is_representable() {
+            return false;
+        }
+
         for min_batching_rate in 0..MAX_COMMITMENT_BATCHING_RATE as u32 {
             let commitment_fee = self.commitment_hash_computation_fee(min_batching_rate).0;
             if self.base_commitment_subvention.0 > commitment_fee {
@@ -97,6 +102,27 @@ impl ProgramFee {
         true
     }
 
+    /// Verifies that no computation of a fee exceeds [`u64`]
+    fn is_representable(&self) -> bool {
+        let lamports_per_tx = self.lamports_per_tx.0 as u128;
+        let hash_tx_compensation = lamports_per_tx + self.warden_hash_tx_reward.0 as u128;
+        let base_commitment_fee = BaseCommitmentHashComputation::TX_COUNT as u128
+            * hash_tx_compensation
+            + lamports_per_tx;
+        let proof_fee = (MAX_PREPARE_INPUTS_INSTRUCTIONS as u128
+            + Self::proof_base_tx_count() as u128)
+            * lamports_per_tx
+            + self.warden_proof_reward.0 as u128;
+
+        base_commitment_fee <= u64::MAX as u128
+            && (0..=MAX_COMMITMENT_BATCHING_RATE as u32).all(|min_batching_rate| {
+                let tx_count = commitment_hash_computation_instructions(min_batching_rate).len();
+                let commitment_fee = tx_count as u128 * hash_tx_compensation
+                    + commitments_per_batch(min_batching_rate) as u128;
+                proof_fee + commitment_fee <= u64::MAX as u128
+            })
+    }
+
     pub fn proof_base_tx_count() -> u64 {
         (CombinedMillerLoop::TX_COUNT + FinalExponentiation::TX_COUNT + 2) as u64
     }
diff --git a/elusiv/src/state/proof.rs b/elusiv/src/state/proof.rs
index 588589c..4e07159 100644
--- a/elusiv/src/state/proof.rs
+++ b/elusiv/src/state/proof.rs
@@ -22,7 +22,7 @@ pub type RAMFq12<'a> = LazyRAM<'a, Fq12, 7>;
 pub type RAMG2A<'a> = LazyRAM<'a, G2A, 1>;
 
 const MAX_PUBLIC_INPUTS_COUNT: usize = 14;
-const MAX_PREPARE_INPUTS_INSTRUCTIONS: usize = MAX_PUBLIC_INPUTS_COUNT * 10;
+pub(crate) const MAX_PREPARE_INPUTS_INSTRUCTIONS: usize = MAX_PUBLIC_INPUTS_COUNT * 10;
 
 /// Describes the state of the proof-verification initialization and finalization
 #[derive(
-- 
2.43.0


From eb1530256a668e66a405090a054672701a4ec11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 28/31] fix: a send that relies on another request's duplicate
 account can be finalized after that account was closed

---
 elusiv/src/instruction.rs     |  4 ++--
 elusiv/src/processor/proof.rs | 10 ++++++++--
 elusiv/src/types.rs           | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/elusiv/src/instruction.rs b/elusiv/src/instruction.rs
index dd83118..9c58536 100644
--- a/elusiv/src/instruction.rs
+++ b/elusiv/src/instruction.rs
@@ -172,7 +172,7 @@ pub enum ElusivInstruction {
     #[pda(commitment_hash_queue, CommitmentQueueAccount, { writable })]
     #[pda(metadata_queue, MetadataQueueAccount, { writable })]
     #[pda(verification_account, VerificationAccount, pda_pubkey = original_fee_payer.pubkey(), pda_offset = Some(verification_account_index.into()), { writable, account_info })]
-    #[acc(nullifier_duplicate_account, { writable, owned })]
+    #[acc(nullifier_duplicate_account, { writable })]
     #[sys(system_program, key = system_program::ID, { ignore })]
     #[sys(instructions_account, key = instructions::ID)]
     FinalizeVerificationTransferLamports { verification_account_index: u8 },
@@ -189,7 +189,7 @@ pub enum ElusivInstruction {
     #[pda(commitment_hash_queue, CommitmentQueueAccount, { writable })]
     #[pda(metadata_queue, MetadataQueueAccount, { writable })]
     #[pda(verification_account, VerificationAccount, pda_pubkey = original_fee_payer.pubkey(), pda_offset = Some(verification_account_index.into()), { writable, account_info })]
-    #[acc(nullifier_duplicate_account, { writable, owned })]
+    #[acc(nullifier_duplicate_account, { writable })]
     #[sys(a_token_program, key = spl_associated_token_account::ID, { ignore })]
     #[sys(token_program, key = spl_token::ID)]
     #[sys(system_program, key = system_program::ID, { ignore })]
diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 7354775..7a28602 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -704,7 +704,10 @@ pub fn finalize_verification_transfer_lamports<'a>(
     );
     guard!(
         *nullifier_duplicate_account.key
-            == join_split.create_nullifier_duplicate_pda(nullifier_duplicate_account)?,
+            == join_split.finalized_nullifier_duplicate_pda(
+                nullifier_duplicate_account,
+                data.skip_nullifier_pda,
+            )?,
         ElusivError::InvalidAccount
     );
 
@@ -854,7 +857,10 @@ pub fn finalize_verification_transfer_token<'a>(
     );
     guard!(
         *nullifier_duplicate_account.key
-            == join_split.create_nullifier_duplicate_pda(nullifier_duplicate_account)?,
+            == join_split.finalized_nullifier_duplicate_pda(
+                nullifier_duplicate_account,
+                data.skip_nullifier_pda,
+            )?,
         ElusivError::InvalidAccount
     );
 
diff --git a/elusiv/src/types.rs b/elusiv/src/types.rs
index 4444300..2f4699d 100644
--- a/elusiv/src/types.rs
+++ b/elusiv/src/types.rs
@@ -367,6 +367,20 @@ impl JoinSplitPublicInputs {
         )
     }
 
+    /// The PDA at finalization, where a request that skipped opening it does not need it to exist anymore
+    /// (the request that opened it might have been finalized before)
+    pub fn finalized_nullifier_duplicate_pda(
+        &self,
+        account: &AccountInfo,
+        skip_nullifier_pda: bool,
+    ) -> Result<Pubkey, ProgramError> {
+        if skip_nullifier_pda && account.data_is_empty() {
+            return Ok(self.nullifier_duplicate_pda().0);
+        }
+
+        self.create_nullifier_duplicate_pda(account)
+    }
+
     pub fn total_amount(&self) -> u64 {
         self.amount + self.fee
     }
-- 
2.43.0


From 8cb0f09bd480a491ed9a9e1f76210503505e76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 29/31] fix: accounts can be opened at addresses that were sent
 lamports before

---
 shared/elusiv-utils/src/lib.rs | 46 +++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/shared/elusiv-utils/src/lib.rs b/shared/elusiv-utils/src/lib.rs
index eec2fb5..b774678 100644
--- a/shared/elusiv-utils/src/lib.rs
+++ b/shared/elusiv-utils/src/lib.rs
@@ -5,7 +5,7 @@ use elusiv_types::{
     PDAOffset,
 };
 use solana_program::{
-    account_info::AccountInfo, entrypoint::ProgramResult, program::invoke_signed,
+    account_info::AccountInfo, entrypoint::ProgramResult, program::{invoke, invoke_signed},
     program_error::ProgramError, pubkey::Pubkey, rent::Rent, system_instruction, sysvar::Sysvar,
 };
 
@@ -127,17 +127,39 @@ pub fn create_pda_account<'a>(
         ProgramError::AccountNotRentExempt
     );
 
-    invoke_signed(
-        &system_instruction::create_account(
-            payer.key,
-            pda_account.key,
-            lamports_required,
-            space,
-            program_id,
-        ),
-        &[payer.clone(), pda_account.clone()],
-        &[signers_seeds],
-    )?;
+    if pda_account.lamports() == 0 {
+        invoke_signed(
+            &system_instruction::create_account(
+                payer.key,
+                pda_account.key,
+                lamports_required,
+                space,
+                program_id,
+            ),
+            &[payer.clone(), pda_account.clone()],
+            &[signers_seeds],
+        )?;
+    } else {
+        // Anybody can send lamports to the address of a PDA, this must not prevent its creation
+        let missing_lamports = lamports_required.saturating_sub(pda_account.lamports());
+        if missing_lamports > 0 {
+            invoke(
+                &system_instruction::transfer(payer.key, pda_account.key, missing_lamports),
+                &[payer.clone(), pda_account.clone()],
+            )?;
+        }
+
+        invoke_signed(
+            &system_instruction::allocate(pda_account.key, space),
+            &[pda_account.clone()],
+            &[signers_seeds],
+        )?;
+        invoke_signed(
+            &system_instruction::assign(pda_account.key, program_id),
+            &[pda_account.clone()],
+            &[signers_seeds],
+        )?;
+    }
 
     // Assign default fields
     let mut data = &mut pda_account.data.borrow_mut()[..];
-- 
2.43.0


From ef6abf767ec6a2810a63565adaffcfe3a8b44fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 30/31] fix: open the target map of a proposal also if its
 address was sent lamports before

---
 elusiv-warden-network/src/processor/apa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index ebcb17b..a15188b 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -72,7 +72,7 @@ pub fn propose_apa_proposal<'b>(
         None,
     )?;
 
-    if target_map_account.lamports() == 0 {
+    if target_map_account.data_is_empty() {
         open_pda_account_with_associated_pubkey::<ApaTargetMapAccount>(
             &crate::id(),
             proponent,
-- 
2.43.0


From de28aeb880dd4682982c9f3dad5254bf660129c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 31/31] fix: create the recipient's associated token account
 also if its address was sent lamports before

---
 elusiv/src/processor/proof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 7a28602..19daba3 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -937,7 +937,7 @@ pub fn finalize_verification_transfer_token<'a>(
                     ElusivError::InvalidRecipient
                 );
 
-                if recipient.lamports() == 0 {
+                if recipient.data_is_empty() {
                     // Check if associated token accounts exists
                     guard!(
                         *mint_account.key == elusiv_token(token_id)?.mint,
-- 
2.43.0


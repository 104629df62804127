From 03b3ac9bdbdc3eceb38706186e0bd4070ba43236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 01/21] fix: exclude the optional fee from the lamports handed
 to the fee payer of a solana pay transfer

---
 elusiv/src/processor/proof.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 5cca361..999b225 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -736,11 +736,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
             if public_inputs.solana_pay_transfer {
                 // `pool` transfers `amount` to `original_fee_payer` (lamports)
-                transfer_lamports_from_pda_checked(
-                    pool,
-                    original_fee_payer,
-                    public_inputs.join_split.amount,
-                )?;
+                transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-- 
2.43.0


From f8389c97320c880a087667ca0d53a78bea24a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 02/21] fix: only return the token account rent of a rejected
 proof when it was reserved

---
 elusiv/src/processor/proof.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 999b225..8c5e7ce 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -880,11 +880,19 @@ pub fn finalize_verification_transfer_token<'a>(
             None,
         )?;
 
-        // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent` to `fee_collector` (lamports)
+        // `pool` transfers `commitment_hash_fee` and the reserved `associated_token_account_rent` to `fee_collector` (lamports)
+        let associated_token_account_rent = match &request {
+            ProofRequest::Send(public_inputs)
+                if public_inputs.recipient_is_associated_token_account =>
+            {
+                spl_token_account_rent()?
+            }
+            _ => Lamports(0),
+        };
         transfer_lamports_from_pda_checked(
             pool,
             fee_collector,
-            (data.commitment_hash_fee + spl_token_account_rent()?)?.0,
+            (data.commitment_hash_fee + associated_token_account_rent)?.0,
         )?;
 
         return Ok(());
-- 
2.43.0


From c471b59ddf4397ea43b5f5b930248dceac4173d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:56 +0000
Subject: [PATCH 03/21] fix: close the replaced verifying key account directly,
 the system program cannot debit a program owned account

---
 elusiv/src/processor/vkey.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/vkey.rs b/elusiv/src/processor/vkey.rs
index f73c754..fc2b19f 100644
--- a/elusiv/src/processor/vkey.rs
+++ b/elusiv/src/processor/vkey.rs
@@ -4,9 +4,7 @@ use crate::{
 };
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_types::{BorshSerDeSized, ChildAccountConfig, ElusivOption, ParentAccount};
-use elusiv_utils::{
-    guard, open_pda_account_with_offset, pda_account, transfer_with_system_program,
-};
+use elusiv_utils::{close_account, guard, open_pda_account_with_offset, pda_account};
 use solana_program::{
     account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
     pubkey::Pubkey,
@@ -106,7 +104,7 @@ pub fn update_vkey_version<'a>(
     signer: &AccountInfo<'a>,
     vkey_account: &mut VKeyAccount,
     old_vkey_binary_data_account: &AccountInfo<'a>,
-    system_program: &AccountInfo<'a>,
+    _system_program: &AccountInfo<'a>,
 
     _vkey_id: u32,
 ) -> ProgramResult {
@@ -124,12 +122,8 @@ pub fn update_vkey_version<'a>(
             ElusivError::InvalidAccount
         );
 
-        transfer_with_system_program(
-            old_vkey_binary_data_account,
-            signer,
-            system_program,
-            old_vkey_binary_data_account.lamports(),
-        )?;
+        // The child account is owned by this program, the system program cannot debit it
+        close_account(signer, old_vkey_binary_data_account)?;
     }
 
     // Swap child accounts
-- 
2.43.0


From 591e8a5b6305801255f3edd4ed398b015318314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:07 +0000
Subject: [PATCH 04/21] fix: an ignored failure of a batch insertion must not
 leave the dequeued commitments lost

---
 elusiv/src/processor/commitment.rs | 64 +++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index c1ab6c5..c51b76e 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -34,7 +34,9 @@ use ark_ff::BigInteger256;
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_computation::PartialComputation;
 use elusiv_types::UnverifiedAccountInfo;
-use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult};
+use solana_program::{
+    account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
+};
 
 #[derive(BorshDeserialize, BorshSerialize, BorshSerDeSized, PartialEq, Clone, Debug)]
 #[cfg_attr(feature = "serde", derive(serde::Deserialize, serde::Serialize))]
@@ -375,30 +377,34 @@ pub fn init_commitment_hash(
 
     insertion_can_fail: bool,
 ) -> ProgramResult {
-    match init_commitment_hash_inner(
-        commitment_queue,
-        metadata_queue,
-        hashing_account,
-        metadata_account,
-    ) {
-        Ok(()) => Ok(()),
+    let (batch, batching_rate) = match verify_next_batch(commitment_queue, hashing_account) {
+        Ok(batch) => batch,
         Err(e) => {
-            if insertion_can_fail {
+            // Only failures prior to any modification of the queues can be ignored
+            return if insertion_can_fail {
                 solana_program::msg!("Instruction failed: {:?}", e);
                 Ok(())
             } else {
                 Err(e)
-            }
+            };
         }
-    }
+    };
+
+    init_commitment_hash_inner(
+        commitment_queue,
+        metadata_queue,
+        hashing_account,
+        metadata_account,
+        &batch,
+        batching_rate,
+    )
 }
 
-fn init_commitment_hash_inner(
+/// Verifies that the next batch can be hashed, without modifying any account
+fn verify_next_batch(
     commitment_queue: &mut CommitmentQueueAccount,
-    metadata_queue: &mut MetadataQueueAccount,
-    hashing_account: &mut CommitmentHashingAccount,
-    metadata_account: &mut MetadataAccount,
-) -> ProgramResult {
+    hashing_account: &CommitmentHashingAccount,
+) -> Result<(Vec<CommitmentHashRequest>, u32), ProgramError> {
     guard!(
         !hashing_account.get_is_active(),
         ElusivError::ComputationIsNotYetFinished
@@ -408,8 +414,26 @@ fn init_commitment_hash_inner(
         ElusivError::ComputationIsNotYetFinished
     );
 
+    let (batch, batching_rate) = CommitmentQueue::new(commitment_queue).next_batch()?;
+
+    // Check for room for the commitment batch
+    guard!(
+        hashing_account.get_ordering() as usize + batch.len() <= MT_COMMITMENT_COUNT,
+        ElusivError::NoRoomForCommitment
+    );
+
+    Ok((batch, batching_rate))
+}
+
+fn init_commitment_hash_inner(
+    commitment_queue: &mut CommitmentQueueAccount,
+    metadata_queue: &mut MetadataQueueAccount,
+    hashing_account: &mut CommitmentHashingAccount,
+    metadata_account: &mut MetadataAccount,
+    batch: &[CommitmentHashRequest],
+    batching_rate: u32,
+) -> ProgramResult {
     let mut commitment_queue = CommitmentQueue::new(commitment_queue);
-    let (batch, batching_rate) = commitment_queue.next_batch()?;
     commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
 
     let mut metadata_queue = MetadataQueue::new(metadata_queue);
@@ -421,12 +445,6 @@ fn init_commitment_hash_inner(
     // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
     let fee_version = batch.first().unwrap().fee_version;
 
-    // Check for room for the commitment batch
-    guard!(
-        hashing_account.get_ordering() as usize + batch.len() <= MT_COMMITMENT_COUNT,
-        ElusivError::NoRoomForCommitment
-    );
-
     let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
     for i in 0..batch.len() {
         commitments[i] = batch[i].commitment;
-- 
2.43.0


From 6271fa281a85a9ccfe50015eb07ea8f214342dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 05/21] fix: a pending commitment batch of the closed merkle
 tree must not be inserted into the next tree

---
 elusiv/src/instruction.rs        | 1 +
 elusiv/src/processor/accounts.rs | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/elusiv/src/instruction.rs b/elusiv/src/instruction.rs
index dd83118..c95203d 100644
--- a/elusiv/src/instruction.rs
+++ b/elusiv/src/instruction.rs
@@ -239,6 +239,7 @@ pub enum ElusivInstruction {
     #[pda(storage_account, StorageAccount, { writable, include_child_accounts })]
     #[pda(commitment_hash_queue, CommitmentQueueAccount, { writable })]
     #[pda(active_nullifier_account, NullifierAccount, pda_offset = Some(active_mt_index), { writable })]
+    #[pda(commitment_hashing_account, CommitmentHashingAccount, { writable })]
     ResetActiveMerkleTree { active_mt_index: u32 },
 
     /// Archives a `NullifierAccount` into a N-SMT
diff --git a/elusiv/src/processor/accounts.rs b/elusiv/src/processor/accounts.rs
index 420faf1..97b0d89 100644
--- a/elusiv/src/processor/accounts.rs
+++ b/elusiv/src/processor/accounts.rs
@@ -165,6 +165,7 @@ pub fn reset_active_merkle_tree(
     storage_account: &mut StorageAccount,
     queue: &mut CommitmentQueueAccount,
     active_nullifier_account: &mut NullifierAccount,
+    commitment_hashing_account: &mut CommitmentHashingAccount,
 
     active_merkle_tree_index: u32,
 ) -> ProgramResult {
@@ -173,6 +174,13 @@ pub fn reset_active_merkle_tree(
         ElusivError::InvalidInstructionData
     );
 
+    // A batch (and the siblings) of the closed MT must never be inserted into the next MT
+    guard!(
+        !commitment_hashing_account.get_is_active(),
+        ElusivError::ComputationIsNotYetFinished
+    );
+    commitment_hashing_account.set_setup(&false);
+
     let queue = CommitmentQueue::new(queue);
     guard!(
         is_mt_full(storage_account, &queue)?,
-- 
2.43.0


From 13b31eaaec224044b2370e4c5baeaf099627b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:45 +0000
Subject: [PATCH 06/21] fix: reject withdrawals whose amount and fee sum wraps
 around the proven amount

---
 elusiv/src/processor/proof.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 8c5e7ce..31ce149 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1137,6 +1137,12 @@ fn check_join_split_public_inputs(
         ElusivError::InvalidRecentCommitmentIndex
     );
 
+    // Verify that the proven amount (amount + fee) does not wrap around
+    guard!(
+        public_inputs.amount.checked_add(public_inputs.fee).is_some(),
+        ElusivError::InvalidAmount
+    );
+
     // Verify the optional fee
     guard!(
         public_inputs.amount >= public_inputs.optional_fee.amount,
-- 
2.43.0


From ebff372623b789191fe6b614a14d1360f6b71463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 07/21] fix: bound subventions by the fees of the largest
 batch, too

ProgramFee::is_valid left out the largest batching rate, at which hashing a
commitment is cheapest, so a subvention larger than that fee was accepted.
---
 elusiv/src/state/fee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 7695ae0..bcd1241 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -76,7 +76,7 @@ impl ProgramFee {
 
     /// Verifies that possible subventions are not too high
     pub fn is_valid(&self) -> bool {
-        for min_batching_rate in 0..MAX_COMMITMENT_BATCHING_RATE as u32 {
+        for min_batching_rate in 0..=MAX_COMMITMENT_BATCHING_RATE as u32 {
             let commitment_fee = self.commitment_hash_computation_fee(min_batching_rate).0;
             if self.base_commitment_subvention.0 > commitment_fee {
                 return false;
-- 
2.43.0


From fb274cef9170d12f7246201d9a9ce92edfe97555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 08/21] fix: store the incremented warden statistics

---
 elusiv-warden-network/src/processor/basic_warden.rs |  2 +-
 elusiv-warden-network/src/warden.rs                 | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 442a714..6566c81 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -353,7 +353,7 @@ fn track_basic_warden_stats_inner(
             ProgramError::IncorrectProgramId
         );
 
-        stats_account.set_store(stats_account.get_store().inc(day)?);
+        stats_account.set_store(&stats_account.get_store().inc(day)?);
     } else {
         return Err(ElusivWardenNetworkError::StatsError.into());
     }
diff --git a/elusiv-warden-network/src/warden.rs b/elusiv-warden-network/src/warden.rs
index e0ed547..140d16b 100644
--- a/elusiv-warden-network/src/warden.rs
+++ b/elusiv-warden-network/src/warden.rs
@@ -197,18 +197,21 @@ pub struct WardenStatistics {
 }
 
 impl WardenStatistics {
-    pub fn inc(&self, day: u32) -> Result<&Self, ProgramError> {
+    pub fn inc(&self, day: u32) -> Result<Self, ProgramError> {
         guard!(day < 366, ElusivWardenNetworkError::StatsError);
 
-        self.total
+        let mut statistics = self.clone();
+
+        statistics.total = statistics
+            .total
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        self.activity[day as usize]
+        statistics.activity[day as usize] = statistics.activity[day as usize]
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        Ok(self)
+        Ok(statistics)
     }
 }
 
-- 
2.43.0


From 55abde0d9cdefc04330429b221581f7136b4eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 09/21] fix: credit the fee payer of a finalized transfer, not
 its recipient

---
 elusiv-warden-network/src/processor/basic_warden.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 6566c81..d6b7f69 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -282,12 +282,12 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
-        warden_index: 1,
+        warden_index: 0,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
-        warden_index: 3,
+        warden_index: 0,
     },
 ];
 
-- 
2.43.0


From 83569cfac891b34c0f6a095637d24cf41e63903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 10/21] fix: store the key of a registered warden operator

---
 elusiv-warden-network/src/processor/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/operator.rs b/elusiv-warden-network/src/processor/operator.rs
index d0e4e3e..ba07ede 100644
--- a/elusiv-warden-network/src/processor/operator.rs
+++ b/elusiv-warden-network/src/processor/operator.rs
@@ -29,6 +29,7 @@ pub fn register_warden_operator<'b>(
         WardenOperatorAccount,
         operator_account.get_safe()?
     );
+    operator_account.set_key(operator.key);
     operator_account.set_ident(&ident);
     operator_account.set_url(&url);
     operator_account.set_jurisdiction(&jurisdiction.into());
-- 
2.43.0


From b85ba8a7101cbd74cfea2297f4bfda8113f43e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 11/21] fix: store the attested metadata in the warden account

---
 elusiv-warden-network/src/processor/basic_warden.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index d6b7f69..cc920f5 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -235,6 +235,8 @@ pub fn attest_basic_warden_metadata(
     warden.config.region = region;
     warden.is_metadata_valid = Some(!warden_supplied_invalid_data).into();
 
+    warden_account.set_warden(&warden);
+
     basic_network_account.update_region(warden_id, member_index as usize, &region)?;
 
     Ok(())
-- 
2.43.0


From 6ff66b419e42157f70fdf8b00f6bc5fc2723388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 12/21] fix: complete the APA application of the seat of the
 warden

---
 elusiv-warden-network/src/network.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index c95075c..f703a3f 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -163,9 +163,9 @@ impl<'a> ApaWardenNetworkAccount<'a> {
 
         let member_index = (0..self.get_members_count() as usize)
             .map(|i| self.get_members(i))
-            .find(|member| member == &warden_id)
+            .position(|member| member == warden_id)
             .ok_or(ElusivWardenNetworkError::WardenRegistrationError)?;
-        self.set_quote_ends(member_index as usize, &Some(quote_end).into());
+        self.set_quote_ends(member_index, &Some(quote_end).into());
 
         Ok(())
     }
-- 
2.43.0


From cb137a3a9818617fe021632d650fe8e651708471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 13/21] fix: reject freezing authority proposals without a
 token

---
 elusiv-warden-network/src/processor/apa.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index ebcb17b..3df5af0 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -62,6 +62,15 @@ pub fn propose_apa_proposal<'b>(
                 }
             }
         }
+    } else {
+        // A freezing authority can only be verified for a specific token
+        guard!(
+            !matches!(
+                proposal.proponent_role,
+                ApaProponentRole::TokenFreezingAuthority
+            ),
+            ElusivWardenNetworkError::ProposalError
+        );
     }
 
     open_pda_account_with_offset::<ApaProposalAccount>(
-- 
2.43.0


From f2cd29c7cd852830136d28e2dec8c82c73c7d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 14/21] fix: reject registrations of self-appointed metadata
 attesters

---
 elusiv-warden-network/src/processor/basic_warden.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index cc920f5..83cc40e 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -31,6 +31,12 @@ pub fn register_basic_warden<'a, 'b>(
 ) -> ProgramResult {
     guard!(config.key == *warden.key, ProgramError::InvalidArgument);
 
+    // Attestation rights are only granted by `add_metadata_attester`
+    guard!(
+        !config.warden_features.attestation,
+        ProgramError::InvalidArgument
+    );
+
     basic_network_account.try_add_member(
         warden_id,
         &config.basic_warden_features,
-- 
2.43.0


From f20e89f16382b092c1110fc1b9ec92bce6e21503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 15/21] fix: assign the final two line evaluations of the
 Miller loop also when the prepared inputs are the point at infinity

---
 elusiv/src/proof/verifier.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 172ba97..5c29d35 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -600,10 +600,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
             partial v = mul_by_characteristics(storage, alt_b.get()) {
                 _ = alt_b.set(G2Affine::new(v.x, v.y.neg(), v.infinity));
@@ -613,10 +611,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
         }
         {   /// 500
-- 
2.43.0


From 3299cbd9e6c52f5ae67e9a485b744ac76363cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 16/21] fix: a full map keeps a new key that directly precedes
 its maximum

When a full map received a key between its second largest and its largest
entry, the slot of the dropped maximum was linked to itself and the max-ptr was
moved to the predecessor, so the new key (a spent nullifier) was lost and could
be inserted again.
---
 elusiv/src/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 6faaa11..bbd8735 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -221,6 +221,11 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
         self.set(&new_ptr, key, value);
 
+        // The new entry directly takes the place of the dropped maximum (the order of the ptrs does not change)
+        if is_full && index + 1 == self.len.get() {
+            return Ok(Some((max_key.unwrap(), max_value.unwrap())));
+        }
+
         if index == 0 {
             // Prepend
             let ptr = self.min_ptr.get();
-- 
2.43.0


From 722d22a30e23ca64ea9a710de64e95dd5af76c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 17/21] fix: a map lookup returns the value stored with the key

The value was read at the sorted position of the key instead of its slot.
---
 elusiv/src/map.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index bbd8735..f843077 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -178,9 +178,7 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
                     low = mid + 1;
                     low_ptr = self.get_next(&mid_ptr);
                 }
-                Ordering::Equal => {
-                    return Err(ElusivMapError::Duplicate(self.values.get(mid as usize)))
-                }
+                Ordering::Equal => return Err(ElusivMapError::Duplicate(self.value(&mid_ptr))),
             }
         }
 
-- 
2.43.0


From cfff45eb3bd9fe811c6632d73f09f7a4f286eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 18/21] fix: resetting a map clears its mid-ptrs

The mid-ptrs are only ever moved relative to their last value, so a map that
is refilled after a reset searched from stale positions and lost keys.
---
 elusiv/src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index f843077..c90da9f 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -429,6 +429,10 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
         self.len.set(0);
         self.max_ptr.set(ElusivMapPtr(0));
 
+        for i in 0..MID_PTR_COUNT {
+            self.mid_ptr.set(i, ElusivMapPtr(0));
+        }
+
         // The first ptr points to itself
         self.next.set(0, &ElusivMapPtr(0));
         self.prev.set(0, &ElusivMapPtr(0));
-- 
2.43.0


From c90d2a5156f0b317dfe272e220aff41ead7f2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 19/21] fix: declare the full size of a wrapped G2 point

A wrapped point is serialized by the point itself, which takes 129 bytes, but
its declared size was that of a G1 point.
---
 elusiv/src/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/fields.rs b/elusiv/src/fields.rs
index bff385a..acd8641 100644
--- a/elusiv/src/fields.rs
+++ b/elusiv/src/fields.rs
@@ -302,7 +302,7 @@ impl BorshDeserialize for G2A {
     }
 }
 impl BorshSerDeSized for Wrap<G2A> {
-    const SIZE: usize = 65;
+    const SIZE: usize = 129;
 }
 impl BorshSerialize for Wrap<G2A> {
     fn serialize<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
-- 
2.43.0


From 4ce6347e9671a81d7a9ef7eb37d715d75728dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 20/21] fix: an attestation only updates the region of a used
 member entry

---
 elusiv-warden-network/src/network.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index f703a3f..4867516 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -79,6 +79,10 @@ impl<'a> BasicWardenNetworkAccount<'a> {
         member_index: usize,
         region: &WardenRegion,
     ) -> ProgramResult {
+        guard!(
+            member_index < self.get_members_count() as usize,
+            ElusivWardenNetworkError::InvalidInstructionData
+        );
         guard!(
             self.get_members(member_index) == warden_id,
             ElusivWardenNetworkError::InvalidInstructionData
-- 
2.43.0


From fdd146192942c942bf9e465f609295441ea57705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 21/21] fix: keep the basic warden network account within the
 CPI creation limit

The account (6 + 512 * 20 = 10246 bytes) exceeded the 10 KiB by which an
account can grow in an inner instruction, so that Init always failed.
---
 elusiv-warden-network/src/network.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index 4867516..770951b 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -35,7 +35,8 @@ macro_rules! warden_network {
     };
 }
 
-warden_network!(ElusivBasicWardenNetwork, NetworkSize::Dynamic(0, 512));
+// 511 is the greatest size that still allows the account to be created using a CPI (limit of 10 KiB)
+warden_network!(ElusivBasicWardenNetwork, NetworkSize::Dynamic(0, 511));
 
 #[elusiv_account]
 pub struct BasicWardenNetworkAccount {
-- 
2.43.0


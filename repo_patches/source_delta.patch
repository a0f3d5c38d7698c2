From b173b493dc7269c367134a0197448fccdadf0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 01/14] fix: count only the signatures that the ed25519 program
 verifies

The ed25519 program takes the number of signatures from the first byte of its
instruction data and treats the second byte as padding. Reading both bytes as
one number let an instruction that declares one signature and a non-zero
padding byte pass as two verified signatures.
---
 program/src/sigverify.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index f6c033d..e57c03c 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -125,12 +125,13 @@ impl<'a> SignatureVerification<'a> {
         if sigverify_ix.program_id != ed25519_program::id() {
             return Err(SlashingError::MissingSignatureVerification);
         }
-        let num_signatures = u16::from_le_bytes(
-            sigverify_ix.data[0..2]
-                .try_into()
-                .map_err(|_| SlashingError::MissingSignatureVerification)?,
-        );
-        if num_signatures < NUM_VERIFICATIONS as u16 {
+        // The ed25519 program reads the number of signatures from the first byte,
+        // the second byte is padding
+        let num_signatures = *sigverify_ix
+            .data
+            .first()
+            .ok_or(SlashingError::MissingSignatureVerification)?;
+        if usize::from(num_signatures) < NUM_VERIFICATIONS {
             return Err(SlashingError::MissingSignatureVerification);
         }
         let expected_data_size = NUM_VERIFICATIONS
-- 
2.43.0


From 20f12b843ba16ade0fd9e6b5b2764ccf3c7fa610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 02/14] fix: require the verified data to be that of the
 slashing instruction

The signature offsets refer to the data of the top level instruction. When the
program is invoked by another program, its own instruction data can differ from
the data that the ed25519 program verified.
---
 program/src/sigverify.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index e57c03c..8a502db 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -8,7 +8,9 @@ use {
         instruction::Instruction,
         msg,
         pubkey::{Pubkey, PUBKEY_BYTES},
-        sysvar::instructions::{get_instruction_relative, load_current_index_checked},
+        sysvar::instructions::{
+            get_instruction_relative, load_current_index_checked, load_instruction_at_checked,
+        },
     },
     solana_signature::SIGNATURE_BYTES,
     std::mem::MaybeUninit,
@@ -120,6 +122,14 @@ impl<'a> SignatureVerification<'a> {
         // Instruction inspection to unpack successful signature verifications
         let current_index = load_current_index_checked(instructions_sysvar)
             .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        // The ed25519 program verified the data of the top level instruction. When
+        // invoked through another program that data is not necessarily ours.
+        let current_ix = load_instruction_at_checked(current_index as usize, instructions_sysvar)
+            .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        if current_ix.data != instruction_data {
+            msg!("Signature verification must be for the data of the slashing instruction");
+            return Err(SlashingError::InvalidSignatureVerification);
+        }
         let sigverify_ix = get_instruction_relative(relative_index, instructions_sysvar)
             .map_err(|_| SlashingError::MissingSignatureVerification)?;
         if sigverify_ix.program_id != ed25519_program::id() {
-- 
2.43.0


From 27d53f13cedc3831e647a2a038b759e698edcf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 03/14] fix: ignore bytes after the end of a shred

The leader does not sign what follows a shred, so two copies of one shred with
different trailing bytes are no duplicate block. As in the cluster, a shred is
exactly as long as its type says and a shorter one is not a shred.
---
 program/src/shred.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/program/src/shred.rs b/program/src/shred.rs
index 90230fe..046b51c 100644
--- a/program/src/shred.rs
+++ b/program/src/shred.rs
@@ -102,31 +102,36 @@ impl<'a> Shred<'a> {
     const SIZE_OF_DATA_HEADERS: usize = 88;
 
     pub(crate) fn new_from_payload(payload: &'a [u8]) -> Result<Self, SlashingError> {
-        match Self::get_shred_variant(payload)? {
-            ShredVariant::LegacyCode | ShredVariant::LegacyData => Err(SlashingError::LegacyShreds),
+        let (shred_type, proof_size, chained, resigned) = match Self::get_shred_variant(payload)? {
+            ShredVariant::LegacyCode | ShredVariant::LegacyData => {
+                return Err(SlashingError::LegacyShreds)
+            }
             ShredVariant::MerkleCode {
                 proof_size,
                 chained,
                 resigned,
-            } => Ok(Self {
-                shred_type: ShredType::Code,
-                proof_size,
-                chained,
-                resigned,
-                payload,
-            }),
+            } => (ShredType::Code, proof_size, chained, resigned),
             ShredVariant::MerkleData {
                 proof_size,
                 chained,
                 resigned,
-            } => Ok(Self {
-                shred_type: ShredType::Data,
-                proof_size,
-                chained,
-                resigned,
-                payload,
-            }),
-        }
+            } => (ShredType::Data, proof_size, chained, resigned),
+        };
+        // Anything past the end of the shred is not part of it
+        let payload_size = match shred_type {
+            ShredType::Code => Self::SIZE_OF_CODING_PAYLOAD,
+            ShredType::Data => Self::SIZE_OF_DATA_PAYLOAD,
+        };
+        let payload = payload
+            .get(..payload_size)
+            .ok_or(SlashingError::ShredDeserializationError)?;
+        Ok(Self {
+            shred_type,
+            proof_size,
+            chained,
+            resigned,
+            payload,
+        })
     }
 
     fn pod_from_bytes<const OFFSET: usize, const SIZE: usize, T: Pod>(
-- 
2.43.0


From aa823e3bbf27332ef3e8cf3cd72b32ab4becfbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 04/14] fix: reject a proof offset past the end of the proof
 account

Slicing past the end of the account made the program panic.
---
 program/src/processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index 4958895..581b032 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -82,7 +82,10 @@ pub fn process_instruction(
         SlashingInstruction::DuplicateBlockProof => {
             let accounts = SlashingAccounts::new(account_info_iter)?;
             let data = decode_instruction_data::<DuplicateBlockProofInstructionData>(input)?;
-            let proof_data = &accounts.proof_account.try_borrow_data()?[data.offset()?..];
+            let proof_account_data = accounts.proof_account.try_borrow_data()?;
+            let proof_data = proof_account_data
+                .get(data.offset()?..)
+                .ok_or(SlashingError::ProofBufferTooSmall)?;
             let violation_report = ViolationReport {
                 version: ViolationReport::VERSION,
                 reporter: data.reporter,
-- 
2.43.0


From 845a3cead00c3626831ebb176ac4a2e011711cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 05/14] fix: reject closing an account too short for a report

Anybody can create an account owned by the program that holds less than a
violation report; closing it made the program panic.
---
 program/src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/program/src/state.rs b/program/src/state.rs
index 12a889e..17c1eab 100644
--- a/program/src/state.rs
+++ b/program/src/state.rs
@@ -318,8 +318,11 @@ pub(crate) fn close_violation_report<'a, 'b>(
     destination_account: &'a AccountInfo<'b>,
 ) -> Result<(), ProgramError> {
     let report_data = report_account.try_borrow_data()?;
-    let report: &ViolationReport =
-        pod_from_bytes(&report_data[0..std::mem::size_of::<ViolationReport>()])?;
+    let report: &ViolationReport = pod_from_bytes(
+        report_data
+            .get(0..std::mem::size_of::<ViolationReport>())
+            .ok_or(SlashingError::InvalidViolationReportAcccount)?,
+    )?;
     let destination = report.destination;
 
     if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
-- 
2.43.0


From ba680d9f072e2f96add650c647b953c77ca7b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 06/14] fix: client skips accounts of the program that hold no
 report

Anyone can assign a blank account of any size to the slashing program. A short
one made display and close panic; a longer one made close submit a transaction
that is refused, and stop there.
---
 clients/cli/src/main.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 250e454..ea216ff 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -323,6 +323,13 @@ async fn report_duplicate_block_violation(
     Ok(true)
 }
 
+/// The violation report held by an account of the slashing program. Anyone can
+/// assign a blank account of any size to the program, these hold no report.
+fn parse_violation_report(data: &[u8]) -> Option<&ViolationReport> {
+    let report = pod_from_bytes(data.get(..std::mem::size_of::<ViolationReport>())?).ok()?;
+    (ViolationReport::version(data) > 0).then_some(report)
+}
+
 /// Close a violation report
 /// If `report_account` is specified we close the report account, otherwise we
 /// close any eligible accounts filtered by `reporter`, `destination`, or
@@ -375,8 +382,9 @@ async fn command_close(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = parse_violation_report(report_account.data()) else {
+            continue;
+        };
         if report.epoch() + 3 > epoch {
             early_reports += 1;
             continue;
@@ -455,8 +463,9 @@ async fn command_display(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some(report) = parse_violation_report(report_account.data()) else {
+            continue;
+        };
         if ignore_filter(report) {
             continue;
         }
-- 
2.43.0


From b2b11b8ef19ca98ca818717fd6cf5d6748ba9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 07/14] fix: verbose display shows reports whose shreds the
 ledger refuses

The program accepts shreds that Shred::new_from_serialized_shred refuses, for
example with a parent offset beyond the slot. One such report made the verbose
display of all reports panic.
---
 clients/cli/src/output.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/clients/cli/src/output.rs b/clients/cli/src/output.rs
index 4823b78..e6cb132 100644
--- a/clients/cli/src/output.rs
+++ b/clients/cli/src/output.rs
@@ -185,10 +185,20 @@ impl ViolationReportOutput {
     }
 
     fn display_duplicate_block_proof(w: &mut dyn Write, proof: DuplicateSlotProof) -> Result {
-        let shred1 = Shred::new_from_serialized_shred(proof.shred1).unwrap();
-        let shred2 = Shred::new_from_serialized_shred(proof.shred2).unwrap();
-
-        for (i, shred) in [&shred1, &shred2].iter().enumerate() {
+        // The program accepts shreds that the ledger refuses to parse
+        let shreds = [proof.shred1, proof.shred2].map(|payload| {
+            Shred::new_from_serialized_shred(payload.clone()).map_err(|err| (err, payload))
+        });
+
+        for (i, shred) in shreds.iter().enumerate() {
+            let shred = match shred {
+                Ok(shred) => shred,
+                Err((err, payload)) => {
+                    writeln!(w, "    Shred{}: {}", i + 1, err)?;
+                    writeln!(w, "       payload: {:?}", payload)?;
+                    continue;
+                }
+            };
             writeln!(
                 w,
                 "    Shred{}: fec_set_index {}, index {}, shred_type {:?}\n       \
@@ -205,12 +215,14 @@ impl ViolationReportOutput {
             writeln!(w, "       payload: {:?}", shred.payload())?;
         }
 
-        if shred1.shred_type() == ShredType::Code && shred2.shred_type() == ShredType::Code {
-            writeln!(
-                w,
-                "    Erasure consistency {}",
-                ErasureMeta::check_erasure_consistency(&shred1, &shred2)
-            )?;
+        if let [Ok(shred1), Ok(shred2)] = &shreds {
+            if shred1.shred_type() == ShredType::Code && shred2.shred_type() == ShredType::Code {
+                writeln!(
+                    w,
+                    "    Erasure consistency {}",
+                    ErasureMeta::check_erasure_consistency(shred1, shred2)
+                )?;
+            }
         }
 
         Ok(())
-- 
2.43.0


From ccb63ca4803d5ceb83ec75ab39adffb95c123029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 08/14] fix: attach closes every proof account even when
 closing one fails

A proof account whose creation had failed cannot be closed. The error ended the
command and left the rent of every other proof account locked.
---
 clients/cli/src/main.rs | 45 +++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index ea216ff..1444031 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -196,19 +196,15 @@ async fn command_attach(
 
         // Close any proof accounts, regardless of whether the report was successful
         for proof_account in closable_proof_accounts {
-            let close_ix = spl_record::instruction::close_account(
-                &proof_account.pubkey(),
-                &payer.pubkey(),
-                &payer.pubkey(),
-            );
-            let transaction = Transaction::new_signed_with_payer(
-                &[close_ix],
-                Some(&payer.pubkey()),
-                &[payer.as_ref()],
-                config.rpc_client.get_latest_blockhash().await?,
-            );
-            if process_transaction(config, transaction).await?.is_some() {
-                println_display(config, "Closed proof account".to_string());
+            if let Err(e) = close_proof_account(config, payer.as_ref(), &proof_account).await {
+                eprintln_display(
+                    config,
+                    format!(
+                        "Failed to close proof account {}: {:?}",
+                        proof_account.pubkey(),
+                        e
+                    ),
+                );
             }
         }
 
@@ -550,6 +546,29 @@ async fn initialize_and_write_proof(
     Ok(())
 }
 
+async fn close_proof_account(
+    config: &Config,
+    payer: &dyn Signer,
+    proof_account: &Keypair,
+) -> Result<(), Error> {
+    let close_ix = spl_record::instruction::close_account(
+        &proof_account.pubkey(),
+        &payer.pubkey(),
+        &payer.pubkey(),
+    );
+    let transaction = Transaction::new_signed_with_payer(
+        &[close_ix],
+        Some(&payer.pubkey()),
+        &[payer],
+        config.rpc_client.get_latest_blockhash().await?,
+    );
+    if process_transaction(config, transaction).await?.is_some() {
+        println_display(config, "Closed proof account".to_string());
+    }
+
+    Ok(())
+}
+
 async fn process_transaction(
     config: &Config,
     transaction: Transaction,
-- 
2.43.0


From 7aaed774ca4f8bce6802296e9daf243f199aac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 09/14] fix: attach survives duplicate proofs without a merkle
 root

A duplicate proof of legacy shreds made attach panic, leaving the remaining
slots unreported and the proof accounts open.
---
 clients/cli/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 1444031..9e325d6 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -278,8 +278,10 @@ async fn report_duplicate_block_violation(
 
     // Submit the violation to the slashing program
     let payer = config.fee_payer()?;
-    let shred_1_merkle_root = layout::get_merkle_root(proof.shred1.as_ref()).unwrap();
-    let shred_2_merkle_root = layout::get_merkle_root(proof.shred2.as_ref()).unwrap();
+    let shred_1_merkle_root = layout::get_merkle_root(proof.shred1.as_ref())
+        .ok_or(Error::from("Shred 1 of the duplicate proof has no merkle root"))?;
+    let shred_2_merkle_root = layout::get_merkle_root(proof.shred2.as_ref())
+        .ok_or(Error::from("Shred 2 of the duplicate proof has no merkle root"))?;
     let shred_1_signature = proof.shred1.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
     let shred_2_signature = proof.shred2.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
 
-- 
2.43.0


From e592ec68f52090f276d567daf84806279c815941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 10/14] fix: close continues past a report that cannot be
 closed

Anyone may report with a destination that can never be credited. The close of
such a report is always refused, and close stopped there: every report listed
after it stayed open.
---
 clients/cli/src/main.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 9e325d6..ad96c70 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -399,7 +399,17 @@ async fn command_close(
             &[payer.as_ref()],
             config.rpc_client.get_latest_blockhash().await?,
         );
-        let signature = process_transaction(config, transaction).await?;
+        // A report that cannot be closed does not keep the others open
+        let signature = match process_transaction(config, transaction).await {
+            Ok(signature) => signature,
+            Err(e) => {
+                eprintln_display(
+                    config,
+                    format!("Failed to close report account {}: {:?}", pubkey, e),
+                );
+                continue;
+            }
+        };
 
         displays.push(CloseReportOutput {
             report_account: pubkey,
-- 
2.43.0


From 60c7b798f35b5f0fb5b1e270a88275d1301e0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 11/14] fix: a dry run says which simulations failed

It said "Simulation succeeded" whatever the outcome of the simulation.
---
 clients/cli/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index ad96c70..d25e8b0 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -587,6 +587,10 @@ async fn process_transaction(
 ) -> Result<Option<Signature>, Error> {
     if config.dry_run {
         let simulation_data = config.rpc_client.simulate_transaction(&transaction).await?;
+        let outcome = match simulation_data.value.err {
+            Some(err) => format!("Simulation failed: {}", err),
+            None => "Simulation succeeded".to_string(),
+        };
 
         if config.verbose() {
             if let Some(logs) = simulation_data.value.logs {
@@ -596,11 +600,12 @@ async fn process_transaction(
             }
 
             println!(
-                "\nSimulation succeeded, consumed {} compute units",
+                "\n{}, consumed {} compute units",
+                outcome,
                 simulation_data.value.units_consumed.unwrap()
             );
         } else {
-            println_display(config, "Simulation succeeded".to_string());
+            println_display(config, outcome);
         }
 
         Ok(None)
-- 
2.43.0


From b3ded7d5fc1c52153a3149b98a31de75038914c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 12/14] fix: the command for trying a slot again lacked a space

---
 clients/cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index d25e8b0..cc62e9d 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -188,7 +188,7 @@ async fn command_attach(
                 Ok(true) => reported_violations += 1,
                 Err(e) => eprintln_display(config, format!("
                 Failed to submit duplicate block report for slot {slot}: {:?}, please run the following command to reattempt the report submission:
-                  spl-slashing attach -l <LEDGER> --start-slot {slot}--end-slot {slot}", e)),
+                  spl-slashing attach -l <LEDGER> --start-slot {slot} --end-slot {slot}", e)),
                 _ => (),
             }
             starting_slot = slot + 1;
-- 
2.43.0


From 3e89532b2c66604c7961b08a4046e3da1498372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 13/14] fix: never pay with the default signer in place of the
 specified fee payer

A fee payer that could be parsed but not used (a file without a keypair, a
public key without its signer) was silently replaced by the default signer.
---
 clients/cli/src/config.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/clients/cli/src/config.rs b/clients/cli/src/config.rs
index 22f9c6b..0306d06 100644
--- a/clients/cli/src/config.rs
+++ b/clients/cli/src/config.rs
@@ -66,14 +66,14 @@ impl Config {
             .ok()
             .map(Arc::from);
 
-        // resolve fee-payer
-        let fee_payer = cli
-            .fee_payer
-            .and_then(|source| {
-                signer_from_source(&matches, &source, "fee_payer", wallet_manager).ok()
-            })
-            .map(Arc::from)
-            .or(default_signer.clone());
+        // resolve fee-payer, the default signer does not stand in for one that was
+        // specified but cannot be used
+        let fee_payer = match cli.fee_payer {
+            Some(source) => signer_from_source(&matches, &source, "fee_payer", wallet_manager)
+                .ok()
+                .map(Arc::from),
+            None => default_signer.clone(),
+        };
 
         // determine output format
         let output_format = match (cli.output_format, cli.verbose) {
-- 
2.43.0


From c8f34faae8b117e7280c99f6d2fb1ccb69a641ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 14/14] fix: a report that cannot be read back was accepted all
 the same

---
 clients/cli/src/main.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index cc62e9d..8df98e1 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -309,13 +309,21 @@ async fn report_duplicate_block_violation(
         config.rpc_client.get_latest_blockhash().await?,
     );
     if let Some(_signature) = process_transaction(config, transaction).await? {
-        let report_account = config.rpc_client.get_account(&pda).await?;
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
-        println_display(
-            config,
-            ViolationReportOutput::from_report(pda, report, vec![]).to_string(),
-        );
+        // The report was accepted, even if it cannot be read back
+        match config.rpc_client.get_account(&pda).await {
+            Ok(report_account) => {
+                if let Some(report) = parse_violation_report(report_account.data()) {
+                    println_display(
+                        config,
+                        ViolationReportOutput::from_report(pda, report, vec![]).to_string(),
+                    );
+                }
+            }
+            Err(e) => eprintln_display(
+                config,
+                format!("Failed to fetch the report account {}: {:?}", pda, e),
+            ),
+        }
     }
 
     Ok(true)
-- 
2.43.0


From e8145a4ecefaa698ff7cf18ac2347e1b56503be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 1/6] fix: reject wrapping out of the escrow itself

A Token-2022 mint's permanent delegate could pass the escrow as the source
of a wrap. The self-transfer succeeds without moving anything, and wrapped
tokens were minted without backing.
---
 program/src/processor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index c0a41c8..e8a00a3 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -240,6 +240,13 @@ pub fn process_wrap(accounts: &[AccountInfo], amount: u64) -> ProgramResult {
         Err(TokenWrapError::EscrowMismatch)?
     }
 
+    // The escrow cannot be the source of a wrap: tokens moved from the escrow to
+    // itself (as a mint's permanent delegate could) add nothing to back the newly
+    // minted wrapped tokens
+    if *unwrapped_token_account.key == expected_escrow {
+        Err(ProgramError::InvalidArgument)?
+    }
+
     {
         let escrow_data = unwrapped_escrow.try_borrow_data()?;
         let escrow_account = PodStateWithExtensions::<PodAccount>::unpack(&escrow_data)?;
-- 
2.43.0


From 0716f78fc412a06fe674d33fa7a90fdd8fb3ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 2/6] fix: sync metadata of verified collection members to SPL
 Token

Metaplex only accepts unverified collections in the metadata it is given, so
SyncMetadataToSplToken always failed for a source with a verified collection.
Sync the collection as unverified, as already done for creators.
---
 program/src/metaplex.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/program/src/metaplex.rs b/program/src/metaplex.rs
index 60d3dd4..c69f4e9 100644
--- a/program/src/metaplex.rs
+++ b/program/src/metaplex.rs
@@ -140,9 +140,12 @@ pub fn token_2022_metadata_to_metaplex(
                     .map_err(|_| ProgramError::InvalidAccountData)?;
             }
             "collection" => {
-                collection = Some(
-                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?,
-                );
+                let mut deserialized_collection: MetaplexCollection =
+                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?;
+                // Metaplex rejects metadata that arrives with a verified collection: only the
+                // collection's authority can verify it.
+                deserialized_collection.verified = false;
+                collection = Some(deserialized_collection);
             }
             "uses" => {
                 uses = Some(
-- 
2.43.0


From c3e3b7dd9300081eb40094cdbddadf62b6cb4479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 3/6] fix: report a failed simulation as an error in CLI dry
 runs

---
 clients/cli/src/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clients/cli/src/common.rs b/clients/cli/src/common.rs
index bdf2524..98ffcb8 100644
--- a/clients/cli/src/common.rs
+++ b/clients/cli/src/common.rs
@@ -58,7 +58,13 @@ pub async fn process_transaction(
                     println!("    {}", log);
                 }
             }
+        }
+
+        if let Some(err) = simulation_data.value.err {
+            return Err(format!("Simulation failed: {}", err).into());
+        }
 
+        if config.verbose() {
             println!(
                 "\nSimulation succeeded, consumed {} compute units",
                 simulation_data.value.units_consumed.unwrap()
-- 
2.43.0


From 934579310281e887d9267d3fa62ab9ad9ba458e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 4/6] fix: do not fund the accounts of a new mint without
 knowing what they hold

---
 clients/cli/src/create_mint.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/clients/cli/src/create_mint.rs b/clients/cli/src/create_mint.rs
index 3c02fae..eb828cd 100644
--- a/clients/cli/src/create_mint.rs
+++ b/clients/cli/src/create_mint.rs
@@ -115,11 +115,7 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     let mut instructions: Vec<Instruction> = Vec::new();
 
     // Fund the wrapped mint account if it doesn't exist or is insufficiently funded
-    let wrapped_mint_account = rpc_client.get_account(&wrapped_mint_address).await;
-    let wrapped_mint_lamports = match wrapped_mint_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let wrapped_mint_lamports = rpc_client.get_balance(&wrapped_mint_address).await?;
 
     let mint_size = if args.wrapped_token_program == spl_token_2022_interface::id() {
         DefaultToken2022Customizer::get_token_2022_mint_space()?
@@ -147,11 +143,7 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     }
 
     // Fund the backpointer account if it doesn't exist or is insufficiently funded
-    let backpointer_account = rpc_client.get_account(&wrapped_backpointer_address).await;
-    let backpointer_lamports = match backpointer_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let backpointer_lamports = rpc_client.get_balance(&wrapped_backpointer_address).await?;
 
     let backpointer_rent = rpc_client
         .get_minimum_balance_for_rent_exemption(std::mem::size_of::<
-- 
2.43.0


From b4ac6a09d3baaaf71b6584ac09cae027e4f2d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 5/6] fix: create the CLI's escrow account when its address
 merely holds lamports

---
 clients/cli/src/create_escrow_account.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/create_escrow_account.rs b/clients/cli/src/create_escrow_account.rs
index 7ba2a2e..7d94fd9 100644
--- a/clients/cli/src/create_escrow_account.rs
+++ b/clients/cli/src/create_escrow_account.rs
@@ -119,8 +119,14 @@ pub async fn command_create_escrow_account(
         &args.wrapped_token_program,
     );
 
-    match rpc_client.get_account(&escrow_account_address).await {
-        Ok(_) => {
+    let escrow_account = rpc_client
+        .get_account_with_commitment(&escrow_account_address, rpc_client.commitment())
+        .await?
+        .value;
+
+    match escrow_account {
+        // An address that merely holds lamports is yet to be created
+        Some(account) if account.owner != solana_system_interface::program::ID => {
             if args.idempotent {
                 println_display(
                     config,
@@ -135,7 +141,7 @@ pub async fn command_create_escrow_account(
                 );
             }
         }
-        Err(_) => {
+        _ => {
             instructions.push(create_associated_token_account(
                 &payer.pubkey(),
                 &wrapped_mint_authority,
-- 
2.43.0


From 82da033ead7a5321c9af81051e39fb66bc6f2313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 6/6] fix: create the JS client's escrow account when its
 address merely holds lamports

---
 clients/js/src/utilities.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clients/js/src/utilities.ts b/clients/js/src/utilities.ts
index 6ac5e32..e9a024c 100644
--- a/clients/js/src/utilities.ts
+++ b/clients/js/src/utilities.ts
@@ -1,7 +1,7 @@
 import { getCreateAccountInstruction } from '@solana-program/system';
 import { getInitializeAccountInstruction as initializeToken, TOKEN_PROGRAM_ADDRESS } from '@solana-program/token';
 import {
-    fetchMaybeToken,
+    decodeToken,
     findAssociatedTokenPda,
     getCreateAssociatedTokenInstruction,
     getTokenDecoder,
@@ -107,9 +107,11 @@ export async function createEscrowAccount({
         tokenProgram: unwrappedTokenProgram,
     });
 
-    const escrowResult = await fetchMaybeToken(rpc, escrowAta);
-    if (escrowResult.exists) {
-        return { kind: 'already_exists', account: escrowResult };
+    // The address may hold lamports without the escrow having been created. Only
+    // an account owned by the token program counts as existing.
+    const escrowResult = await fetchEncodedAccount(rpc, escrowAta);
+    if (escrowResult.exists && escrowResult.programAddress === unwrappedTokenProgram) {
+        return { kind: 'already_exists', account: decodeToken(escrowResult) };
     }
 
     const ix = getCreateAssociatedTokenInstruction({
-- 
2.43.0


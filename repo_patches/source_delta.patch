From e4cbe863a478933e1258979565203040823f3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 01/16] fix: report an empty bech32m data part as a wrong
 payload length instead of panicking

---
 silentpayments/src/encoding/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index acdebb6..e19a0d4 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -326,7 +326,10 @@ impl TryFrom<&str> for SilentPaymentCode {
         let hrp = checked_hrpstring.hrp();
         let mut payload = checked_hrpstring.fe32_iter::<&mut dyn Iterator<Item = u8>>();
 
-        let version = payload.nth(0).into_iter().collect::<Vec<_>>()[0].to_u8();
+        let version = match payload.next() {
+            Some(fe) => fe.to_u8(),
+            None => return Err(VersionError::WrongPayloadLength)?,
+        };
         let data = payload.fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-- 
2.43.0


From 60025594c225f7473938a6e93242360fb08b35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 02/16] fix: do not panic on a taproot control block shorter
 than an internal key

---
 silentpayments/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 8df3a80..5fbeebc 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -52,7 +52,7 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
                     .then(|| {
                         txin.witness
                             .taproot_control_block()
-                            .filter(|control_block| control_block[1..33] == NUMS_H)
+                            .filter(|control_block| control_block.get(1..33) == Some(&NUMS_H[..]))
                             // if P2TR has no internal key return None
                             .map_or(Some(Tr), |_| None)
                     })
-- 
2.43.0


From f1cf1214079c5e2bd41ab46decdf0190757ad09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 03/16] fix: sum sender keys even when a partial sum cancels
 out

---
 silentpayments/src/send/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index fc4e345..71432e2 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -45,12 +45,16 @@ pub fn create_silentpayment_partial_secret(
         return Err(SpSendError::MissingInputsForSharedSecretDerivation);
     }
 
-    // Use first derived_secret key to initialize a_sum
-    let mut a_sum = available_keys[0];
-    // Then skip first element to avoid reuse
-    for sk in available_keys.iter().skip(1) {
-        a_sum = a_sum.add_tweak(&Scalar::from(*sk))?;
+    // A partial sum can be zero even if the sum of all the keys is not: in that case the sum restarts
+    // from the next key
+    let mut maybe_a_sum = None::<SecretKey>;
+    for sk in available_keys {
+        maybe_a_sum = match maybe_a_sum {
+            Some(partial_sum) => partial_sum.add_tweak(&Scalar::from(sk)).ok(),
+            None => Some(sk),
+        };
     }
+    let a_sum = maybe_a_sum.ok_or(bitcoin::secp256k1::Error::InvalidTweak)?;
 
     #[allow(non_snake_case)]
     let A_sum = a_sum.public_key(&secp);
-- 
2.43.0


From 185318e56f152ac3bf296cd2034afa4b1919d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 04/16] fix: keep the final script_sig of nested segwit PSBT
 inputs

P2SH-P2WPKH inputs carry both final fields. Dropping the script_sig made
derive_sp treat them as ineligible, so the derived outputs could not be
found by the recipient.
---
 silentpayments/src/send/psbt/mod.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 56c8a34..c1c8da7 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -327,19 +327,16 @@ fn get_prevout_script(psbt_input: &psbt::Input, txin: &TxIn) -> Result<ScriptBuf
 /// Returns a complete [`TxIn`] with witness or script_sig populated, or a [`SpSendError`] if
 /// neither final witness nor script_sig is available.
 fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSendError> {
-    if let Some(ref witness) = psbt_input.final_script_witness {
-        Ok(TxIn {
-            witness: witness.clone(),
-            ..txin.clone()
-        })
-    } else if let Some(ref script_sig) = psbt_input.final_script_sig {
-        Ok(TxIn {
-            script_sig: script_sig.clone(),
-            ..txin.clone()
-        })
-    } else {
-        Err(SpSendError::MissingWitness)
+    if psbt_input.final_script_witness.is_none() && psbt_input.final_script_sig.is_none() {
+        return Err(SpSendError::MissingWitness);
     }
+
+    // NOTE: Nested segwit inputs have both
+    Ok(TxIn {
+        script_sig: psbt_input.final_script_sig.clone().unwrap_or_default(),
+        witness: psbt_input.final_script_witness.clone().unwrap_or_default(),
+        ..txin.clone()
+    })
 }
 
 #[cfg(not(feature = "psbt_sp_spend"))]
-- 
2.43.0


From 7ce25d90ee01d818727eeb9d87a068e1e41c625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 05/16] fix: reject non taproot PSBT keys that do not match the
 input

The key returned by the provider was compared with the input only for
taproot inputs. For the other input types a wrong key silently produced
outputs that nobody can spend.
---
 silentpayments/src/send/psbt/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index c1c8da7..344969b 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -257,8 +257,13 @@ where
                             Err(_) => Err(SpSendError::KeyError),
                         }
                     }
-                    _ => get_non_taproot_secret(psbt_input, k, secp)
-                        .map_err(|_| SpSendError::KeyError),
+                    (_, input_key) => match get_non_taproot_secret(psbt_input, k, secp) {
+                        Ok(Some(secret)) if secret.public_key(secp) == input_key => {
+                            Ok(Some(secret))
+                        }
+                        Ok(None) => Ok(None),
+                        Ok(Some(_)) | Err(_) => Err(SpSendError::KeyError),
+                    },
                 })
                 .transpose()?
                 .flatten()
-- 
2.43.0


From 26520395fbc154c3570e09d2ec83a5e7fe10b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 06/16] fix: fail PSBT derivation when the key of an eligible
 input is missing

An eligible input whose key the provider does not know was left out of
the sum as long as the key of another input was found, so the recipient
could not find the derived outputs.
---
 silentpayments/src/send/psbt/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 344969b..dfc394e 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -233,6 +233,7 @@ where
 {
     let mut data_for_partial_secret = DataForPartialSecret::default();
     let mut lex_min = LexMin::default();
+    let mut missing_key = false;
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
@@ -241,7 +242,7 @@ where
             Some(secret)
         } else {
             let full_txin = build_full_txin(txin, psbt_input)?;
-            extract_pubkey(full_txin.clone(), &prevout)
+            let secret = extract_pubkey(full_txin.clone(), &prevout)
                 .map(|pubkey_data| match pubkey_data {
                     (SpInputs::Tr, even_tr_output_key) => {
                         match get_taproot_secret(psbt_input, k, secp) {
@@ -265,8 +266,9 @@ where
                         Ok(Some(_)) | Err(_) => Err(SpSendError::KeyError),
                     },
                 })
-                .transpose()?
-                .flatten()
+                .transpose()?;
+            missing_key |= matches!(secret, Some(None));
+            secret.flatten()
         };
 
         if let Some(secret_key) = maybe_secret_key {
@@ -280,6 +282,9 @@ where
 
     if data_for_partial_secret.scripts_with_secrets.is_empty() {
         Err(SpSendError::MissingInputsForSharedSecretDerivation)
+    } else if missing_key {
+        // The sum of the input keys would be incomplete
+        Err(SpSendError::KeyError)
     } else {
         data_for_partial_secret.lex_min_outpoint = lex_min
             .bytes()
-- 
2.43.0


From 1552ff86a6d38dccae08a63a281ec49c866accdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 07/16] fix: leave the PSBT untouched when derivation fails

update_outputs replaced the placeholders of some recipients before it
noticed that the counts of another one do not match.
---
 silentpayments/src/send/psbt/mod.rs | 33 +++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index dfc394e..13617ba 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -540,24 +540,29 @@ fn update_outputs(
         map
     };
 
+    // Check all the recipients first, so the psbt is not partially updated on error
     for (sp_code, x_only_pks) in silent_payments.iter() {
-        let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
-
-        if let Some(indexes) = placeholder_spk_to_idx.get(&placeholder_spk) {
+        if let Some(indexes) = placeholder_spk_to_idx.get(&sp_code.get_placeholder_p2tr_spk()) {
             match indexes.len().cmp(&x_only_pks.len()) {
                 Ordering::Greater => return Err(SpSendError::MissingDerivations),
                 Ordering::Less => return Err(SpSendError::MissingOutputs),
-                Ordering::Equal => {
-                    for (idx, xonly_pk) in indexes.iter().zip(x_only_pks) {
-                        let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(*xonly_pk);
-                        let value = psbt.unsigned_tx.output[*idx].value;
-
-                        psbt.unsigned_tx.output[*idx] = TxOut {
-                            script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
-                            value,
-                        };
-                    }
-                }
+                Ordering::Equal => {}
+            }
+        }
+    }
+
+    for (sp_code, x_only_pks) in silent_payments.iter() {
+        let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
+
+        if let Some(indexes) = placeholder_spk_to_idx.get(&placeholder_spk) {
+            for (idx, xonly_pk) in indexes.iter().zip(x_only_pks) {
+                let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(*xonly_pk);
+                let value = psbt.unsigned_tx.output[*idx].value;
+
+                psbt.unsigned_tx.output[*idx] = TxOut {
+                    script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
+                    value,
+                };
             }
         }
     }
-- 
2.43.0


From 5aaf25402d96b7e420329ba63831a1a99bdc4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 08/16] fix: don't panic on silent payment spend data that
 can't be used

Signing and PSBT derivation panicked when the spend data of an input was
malformed, belonged to an output that is not taproot, or when any input
had no witness_utxo. Skip such data, and read the spent outputs from the
previous transactions too.
---
 silentpayments/src/send/psbt/mod.rs  | 52 +++++++++++++++++-------
 silentpayments/src/send/psbt/sign.rs | 60 ++++++++++++++++++++--------
 2 files changed, 80 insertions(+), 32 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 13617ba..9bf9660 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -238,7 +238,8 @@ where
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
 
-        let maybe_secret_key = if let Ok(Some(secret)) = get_sp_secret(psbt_input, k, secp) {
+        let sp_secret = get_sp_secret(psbt_input, &prevout, k, secp);
+        let maybe_secret_key = if let Ok(Some(secret)) = sp_secret {
             Some(secret)
         } else {
             let full_txin = build_full_txin(txin, psbt_input)?;
@@ -350,7 +351,12 @@ fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSend
 }
 
 #[cfg(not(feature = "psbt_sp_spend"))]
-fn get_sp_secret<C, K, E>(_: &psbt::Input, _: &K, _: &Secp256k1<C>) -> Result<Option<SecretKey>, E>
+fn get_sp_secret<C, K, E>(
+    _: &psbt::Input,
+    _: &ScriptBuf,
+    _: &K,
+    _: &Secp256k1<C>,
+) -> Result<Option<SecretKey>, E>
 where
     C: Signing + Verification,
     K: GetKey<Error = E>,
@@ -361,6 +367,7 @@ where
 #[cfg(feature = "psbt_sp_spend")]
 fn get_sp_secret<C, K, E>(
     psbt_input: &psbt::Input,
+    prevout: &ScriptBuf,
     k: &K,
     secp: &Secp256k1<C>,
 ) -> Result<Option<SecretKey>, E>
@@ -370,20 +377,34 @@ where
 {
     for (key, value) in psbt_input.proprietary.clone() {
         if key.prefix == b"bip352".to_vec() && key.subtype == sign::SPEND_PK_SUBTYPE {
-            let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-            let mut scalar = [0u8; 32];
-            scalar.clone_from_slice(value.as_slice());
-
-            let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-            let output_key = if let Some(txout) = &psbt_input.witness_utxo {
-                XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                    .expect("p2tr script")
+            let spend_pk = if let Ok(pk) = PublicKey::from_slice(&key.key) {
+                pk
+            } else {
+                continue;
+            };
+            let scalar = if let Ok(scalar) = <[u8; 32]>::try_from(value.as_slice()) {
+                scalar
+            } else {
+                continue;
+            };
+            let tweak = if let Ok(tweak) = Scalar::from_be_bytes(scalar) {
+                tweak
+            } else {
+                continue;
+            };
+            if !prevout.is_p2tr() {
+                continue;
+            }
+            let output_key = if let Ok(key) = XOnlyPublicKey::from_slice(&prevout.as_bytes()[2..]) {
+                key
+            } else {
+                continue;
+            };
+            let tweaked_spend_pk = if let Ok(pk) = spend_pk.add_exp_tweak(secp, &tweak) {
+                pk
             } else {
                 continue;
             };
-            let tweaked_spend_pk = spend_pk
-                .add_exp_tweak(secp, &tweak)
-                .expect("will fix later");
             let spend_sk = if let Ok(Some(sk)) =
                 k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
             {
@@ -392,8 +413,9 @@ where
                 continue;
             };
             if tweaked_spend_pk.x_only_public_key().0 == output_key {
-                let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
-                return Ok(Some(sk));
+                if let Ok(sk) = spend_sk.inner.add_tweak(&tweak) {
+                    return Ok(Some(sk));
+                }
             }
         }
     }
diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index a209e61..508b0c2 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -37,23 +37,50 @@ where
     let tx = psbt.unsigned_tx.clone(); // clone because we need to mutably borrow when signing.
     let mut cache = SighashCache::new(&tx);
 
+    // The signatures commit to all the spent outputs, so nothing can be signed if one is missing.
+    let prevouts = psbt
+        .iter_funding_utxos()
+        .map(|txout| txout.cloned())
+        .collect::<Result<Vec<TxOut>, _>>();
+    let prevouts = if let Ok(prevouts) = prevouts {
+        prevouts
+    } else {
+        return;
+    };
+
     for i in 0..psbt.inputs.len() {
         for (key, value) in psbt.inputs[i].proprietary.clone() {
             if key.prefix == b"bip352".to_vec() && key.subtype == self::SPEND_PK_SUBTYPE {
-                let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-                let mut scalar = [0u8; 32];
-                scalar.clone_from_slice(value.as_slice());
-
-                let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-                let output_key = if let Some(txout) = &psbt.inputs[i].witness_utxo {
-                    XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                        .expect("p2tr script")
+                let spend_pk = if let Ok(pk) = PublicKey::from_slice(&key.key) {
+                    pk
+                } else {
+                    continue;
+                };
+                let scalar = if let Ok(scalar) = <[u8; 32]>::try_from(value.as_slice()) {
+                    scalar
+                } else {
+                    continue;
+                };
+                let tweak = if let Ok(tweak) = Scalar::from_be_bytes(scalar) {
+                    tweak
+                } else {
+                    continue;
+                };
+                let script_pubkey = &prevouts[i].script_pubkey;
+                if !script_pubkey.is_p2tr() {
+                    continue;
+                }
+                let output_key =
+                    if let Ok(key) = XOnlyPublicKey::from_slice(&script_pubkey.as_bytes()[2..]) {
+                        key
+                    } else {
+                        continue;
+                    };
+                let tweaked_spend_pk = if let Ok(pk) = spend_pk.add_exp_tweak(secp, &tweak) {
+                    pk
                 } else {
                     continue;
                 };
-                let tweaked_spend_pk = spend_pk
-                    .add_exp_tweak(secp, &tweak)
-                    .expect("will fix later");
                 let spend_sk = if let Ok(Some(sk)) =
                     k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
                 {
@@ -65,11 +92,6 @@ where
                     && tweaked_spend_pk.x_only_public_key().0 == output_key
                 {
                     let sighash_type = TapSighashType::Default;
-                    let prevouts = psbt
-                        .inputs
-                        .iter()
-                        .map(|x| x.witness_utxo.clone().unwrap())
-                        .collect::<Vec<TxOut>>();
                     let prevouts = Prevouts::All(&prevouts);
 
                     let sighash = cache
@@ -79,7 +101,11 @@ where
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
 
-                    let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
+                    let sk = if let Ok(sk) = spend_sk.inner.add_tweak(&tweak) {
+                        sk
+                    } else {
+                        continue;
+                    };
                     let keypair = Keypair::from_secret_key(secp, &sk);
 
                     let signature = secp.sign_schnorr_no_aux_rand(&msg, &keypair);
-- 
2.43.0


From dbb999395dd2f10970b9e59f4c503bc16ce176f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 09/16] fix: use the untweaked key for non taproot inputs of
 the xpriv sender

Applying the BIP86 tweak to keys of other script types made the sender
sum keys that don't own the inputs, so nobody could find the outputs.
---
 silentpayments/src/send/bip32.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index bb00940..cd2d48a 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -35,6 +35,12 @@ impl XprivSilentPaymentSender {
             lex_min.update(outpoint);
 
             let bip32_privkey = self.xpriv.derive_priv(&secp, &derivation_path)?;
+            if !spk.is_p2tr() {
+                // Only taproot outputs are owned by the tweaked key
+                spks_with_keys.push((spk.clone(), bip32_privkey.private_key));
+                continue;
+            }
+
             let mut internal_privkey = bip32_privkey.private_key;
             let (x_only_internal, parity) = internal_privkey.x_only_public_key(&secp);
 
-- 
2.43.0


From d97a3b56dbc76847cca7f8b52e37765a8dbbaf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 10/16] fix: don't panic when indexing a transaction without a
 shared secret

---
 indexer/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 85d735e..8b9f111 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -179,10 +179,12 @@ impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
     pub fn index_tx(&mut self, tx: &Transaction) -> Result<tx_graph::ChangeSet<A>, SpReceiveError> {
         let prevouts = self.prevout_source.get_tx_prevouts(tx);
         let txid = tx.compute_txid();
-        let ecdh_shared_secret = self
-            .scanner
-            .get_shared_secret(tx, &prevouts)
-            .expect("infallible");
+        // Without eligible inputs, or if their keys cancel each other, there is no shared secret, so
+        // the transaction can't contain any silent payment
+        let ecdh_shared_secret = match self.scanner.get_shared_secret(tx, &prevouts) {
+            Ok(ecdh_shared_secret) => ecdh_shared_secret,
+            Err(_) => return Ok(tx_graph::ChangeSet::default()),
+        };
 
         let spouts = self.scanner.scan_txouts(tx, ecdh_shared_secret)?;
 
-- 
2.43.0


From fc2ec293597409b22f3f37d6c80ef78beb7b5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 11/16] fix: index payments to a label registered after the
 transaction

---
 indexer/src/v2/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 46681a6..36fda91 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -57,6 +57,16 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
         let label = self.sp_pub.create_label(num);
         self.index.index_label(&label);
         changeset.label_lookup.insert(label);
+        // Transactions which are already indexed may also pay to the new label
+        let indexed_txs = self
+            .index
+            .txid_to_partial_secret
+            .iter()
+            .filter_map(|(txid, partial_secret)| Some((self.graph.get_tx(*txid)?, *partial_secret)))
+            .collect::<Vec<_>>();
+        for (tx, partial_secret) in &indexed_txs {
+            let _ = self.index_tx(tx, partial_secret);
+        }
         changeset
     }
 
-- 
2.43.0


From a23c1658d9060d3c6b585993e514f8ebe3724fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 12/16] fix: don't report a change set with keys as empty

---
 indexer/src/v2/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 36fda91..9ba8747 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -447,7 +447,9 @@ impl<A: Ord> Merge for ChangeSet<A> {
     }
 
     fn is_empty(&self) -> bool {
-        self.txid_to_partial_secret.is_empty()
+        self.scan_sk.is_none()
+            && self.spend_pk.is_none()
+            && self.txid_to_partial_secret.is_empty()
             && self.label_lookup.is_empty()
             && self.graph.is_empty()
     }
-- 
2.43.0


From d97f00559028ce04b5b0773433c58a6072db0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 13/16] fix: read label scalars back from text formats

---
 indexer/src/v2/indexes.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/indexer/src/v2/indexes.rs b/indexer/src/v2/indexes.rs
index e6c4c8d..d4bf9a0 100644
--- a/indexer/src/v2/indexes.rs
+++ b/indexer/src/v2/indexes.rs
@@ -123,7 +123,7 @@ impl<'de> Deserialize<'de> for ScalarBytes {
 mod scalar_serde {
     use super::Scalar;
     use core::fmt;
-    use serde::de::Visitor;
+    use serde::de::{SeqAccess, Visitor};
     use serde::{de, Deserializer, Serializer};
 
     pub fn serialize<S>(s: &Scalar, ser: S) -> Result<S::Ok, S::Error>
@@ -157,6 +157,23 @@ mod scalar_serde {
                 arr.copy_from_slice(v);
                 Ok(arr)
             }
+
+            // Text formats represent bytes as a sequence of numbers
+            fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+            where
+                A: SeqAccess<'de>,
+            {
+                let mut arr = [0u8; 32];
+                for (i, byte) in arr.iter_mut().enumerate() {
+                    *byte = seq
+                        .next_element()?
+                        .ok_or_else(|| de::Error::invalid_length(i, &self))?;
+                }
+                if seq.next_element::<u8>()?.is_some() {
+                    return Err(de::Error::invalid_length(33, &self));
+                }
+                Ok(arr)
+            }
         }
 
         let bytes = de.deserialize_bytes(Bytes32Visitor)?;
-- 
2.43.0


From a570a0f8f927247b6b02a7ea841e025ccb2404c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 14/16] fix: don't treat transactions that spend future segwit
 outputs as silent payments

---
 silentpayments/src/lib.rs           | 10 +++++++++-
 silentpayments/src/receive/mod.rs   |  7 ++++++-
 silentpayments/src/send/mod.rs      |  6 ++++++
 silentpayments/src/send/psbt/mod.rs |  8 +++++++-
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 5fbeebc..21d1951 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -2,7 +2,7 @@
 use bitcoin::{
     hashes::Hash,
     secp256k1::{ecdh::shared_secret_point, PublicKey, SecretKey},
-    OutPoint, ScriptBuf, TxIn,
+    OutPoint, Script, ScriptBuf, TxIn, WitnessVersion,
 };
 
 pub mod encoding;
@@ -29,6 +29,14 @@ pub enum SpInputs {
     Pkh,
 }
 
+/// A transaction spending an output with a segwit version greater than one is not a silent payment
+/// transaction, as BIP 352 reserves them for future upgrades
+pub(crate) fn is_future_segwit(script_pubkey: &Script) -> bool {
+    script_pubkey
+        .witness_version()
+        .map_or(false, |version| version > WitnessVersion::V1)
+}
+
 pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
     use SpInputs::*;
 
diff --git a/silentpayments/src/receive/mod.rs b/silentpayments/src/receive/mod.rs
index eb03d89..c7854c7 100644
--- a/silentpayments/src/receive/mod.rs
+++ b/silentpayments/src/receive/mod.rs
@@ -1,7 +1,7 @@
 pub use self::error::SpReceiveError;
 use crate::{
     hashes::{get_input_hash, get_shared_secret},
-    tag_txin, LexMin, SpInputs,
+    is_future_segwit, tag_txin, LexMin, SpInputs,
 };
 
 use bitcoin::{
@@ -247,6 +247,11 @@ pub fn compute_tweak_data(
     let mut input_pubkeys = <Vec<PublicKey>>::new();
     let mut lex_min = LexMin::default();
     for (txin, prevout) in tx.input.iter().zip(prevouts) {
+        if is_future_segwit(&prevout.script_pubkey) {
+            return Err(SpReceiveError::PubKeyExtractionError(
+                "spent outputs with segwit version greater than 1 are not supported",
+            ));
+        }
         lex_min.update(&txin.previous_output);
         // NOTE: Public keys which couldn't be extracted will be ignored
         if let Some((_, key)) = extract_pubkey(txin.clone(), &prevout.script_pubkey) {
diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index 71432e2..5ee52b2 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -2,6 +2,7 @@ use crate::{
     compute_shared_secret,
     encoding::SilentPaymentCode,
     hashes::{get_input_hash, get_shared_secret},
+    is_future_segwit,
     send::error::SpSendError,
 };
 use bitcoin::{
@@ -22,6 +23,11 @@ pub fn create_silentpayment_partial_secret(
 ) -> Result<SecretKey, SpSendError> {
     let secp = Secp256k1::new();
 
+    if spks_with_keys.iter().any(|(spk, _)| is_future_segwit(spk)) {
+        // The recipients will ignore the transaction
+        return Err(SpSendError::MissingInputsForSharedSecretDerivation);
+    }
+
     let available_keys = spks_with_keys
         .iter()
         .cloned()
diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 9bf9660..bdbfaea 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -7,7 +7,9 @@
 use super::{
     create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys, error::SpSendError,
 };
-use crate::{encoding::SilentPaymentCode, receive::extract_pubkey, LexMin, SpInputs};
+use crate::{
+    encoding::SilentPaymentCode, is_future_segwit, receive::extract_pubkey, LexMin, SpInputs,
+};
 use bitcoin::{
     bip32::KeySource,
     key::{Parity, Secp256k1, TweakedPublicKey, Verification},
@@ -237,6 +239,10 @@ where
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
+        if is_future_segwit(&prevout) {
+            // The recipients will ignore the transaction
+            return Err(SpSendError::MissingInputsForSharedSecretDerivation);
+        }
 
         let sp_secret = get_sp_secret(psbt_input, &prevout, k, secp);
         let maybe_secret_key = if let Ok(Some(secret)) = sp_secret {
-- 
2.43.0


From 640a3d58e0978955bfa9a8c577c57037bba5d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 15/16] fix: store the last filter of a height when the chain
 is reorganized

---
 oracles/src/filters/kyoto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index f48ff40..8e91f8f 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -48,7 +48,8 @@ impl DatabaseBuffer {
     }
 
     pub fn push_filter(&mut self, filter: IndexedFilter) -> Option<WriteRange> {
-        self.queue.insert(filter);
+        // After a reorganization the filter of the same height, of another block, may still be queued
+        self.queue.replace(filter);
         if self.queue.len() > QUEUE_SIZE {
             return Some(self.write_queue());
         }
-- 
2.43.0


From e390c76f56923b9e1b508693d9ada5f247f934fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 16/16] fix: report blocks that spend an unspent output but
 have no tweaks

The unspent scripts were only matched when the block also had tweaks of
its own, so spending an output in such a block was never noticed.
---
 oracles/src/tweaks/blindbit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 0b77150..325613b 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -215,11 +215,11 @@ impl BlindbitSubscriber {
                 .collect::<HashMap<[u8; 34], PublicKey>>();
 
             let mut only_spks: Vec<[u8; 34]> = all_spks.clone().into_keys().collect();
-            // unspent script pubkeys can only be present in blocks with tweaks, because they are
-            // by themselves inputs available for shared secret derivation
+            // a block can spend an unspent script pubkey without having any tweak, the server has none
+            // for transactions without taproot outputs
             only_spks.extend_from_slice(&self.unspent_script_pubkeys);
 
-            if !all_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
+            if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
-- 
2.43.0


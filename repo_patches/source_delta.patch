From 46d38805f5d91ecd6f5111dd98fd1fbff362b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 01/65] fix: reject malformed or oversized hex integers in
 axon-tools instead of panicking or truncating

---
 devtools/axon-tools/src/types.rs | 40 ++++++++++++++------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 11e6fc7..3e7a363 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -636,6 +636,10 @@ mod decode {
     use serde::de::{Deserialize, Deserializer};
 
     pub fn from_hex(hex: &str) -> Result<Vec<u8>, &'static str> {
+        if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err("Failed to parse hex string");
+        }
+
         let mut bytes = Vec::with_capacity((hex.len() + 1) / 2);
 
         let mut start_i = 0;
@@ -656,22 +660,22 @@ mod decode {
         Ok(bytes)
     }
 
+    fn hex_to_uint(s: &str) -> Result<U256, &'static str> {
+        let bytes = from_hex(s.strip_prefix("0x").ok_or("Invalid format")?)?;
+        if bytes.len() > 32 {
+            return Err("Integer overflow");
+        }
+        Ok(U256::from_big_endian(&bytes))
+    }
+
     pub fn deserialize_hex_u32<'de, D>(deserializer: D) -> Result<u32, D::Error>
     where
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u32())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        hex_to_uint(&s)
+            .and_then(|val| val.try_into().map_err(|_| "Integer overflow"))
+            .map_err(serde::de::Error::custom)
     }
 
     pub fn deserialize_hex_u64<'de, D>(deserializer: D) -> Result<u64, D::Error>
@@ -679,17 +683,9 @@ mod decode {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        if s == "0x0" {
-            return Ok(0);
-        }
-
-        if s.len() >= 2 && &s[0..2] == "0x" {
-            let bytes = from_hex(&s[2..]).map_err(serde::de::Error::custom)?;
-            let val = U256::from_big_endian(&bytes);
-            Ok(val.low_u64())
-        } else {
-            Err(serde::de::Error::custom("Invalid format"))
-        }
+        hex_to_uint(&s)
+            .and_then(|val| val.try_into().map_err(|_| "Integer overflow"))
+            .map_err(serde::de::Error::custom)
     }
 
     #[cfg(test)]
-- 
2.43.0


From d5a4bd097b810123635faa3dd8f5e0cad522e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 02/65] fix: the RLP form of TxResp has eight fields

---
 protocol/src/codec/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/codec/executor.rs b/protocol/src/codec/executor.rs
index 24621f2..c698fac 100644
--- a/protocol/src/codec/executor.rs
+++ b/protocol/src/codec/executor.rs
@@ -4,7 +4,7 @@ use crate::types::TxResp;
 
 impl Encodable for TxResp {
     fn rlp_append(&self, s: &mut RlpStream) {
-        s.begin_list(7)
+        s.begin_list(8)
             .append(&bincode::serialize(&self.exit_reason).unwrap())
             .append(&self.ret)
             .append(&self.gas_used)
@@ -19,7 +19,7 @@ impl Encodable for TxResp {
 impl Decodable for TxResp {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         match r.prototype()? {
-            Prototype::List(7) => Ok(TxResp {
+            Prototype::List(8) => Ok(TxResp {
                 exit_reason:  {
                     let tmp: Vec<u8> = r.val_at(0)?;
                     bincode::deserialize(&tmp)
-- 
2.43.0


From b4744511dc25928f35c5fd3af42bd42a72517235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 03/65] fix: decoding an empty transaction or an interoperation
 signature with empty r must fail, not panic

---
 protocol/src/codec/transaction.rs | 2 +-
 protocol/src/types/transaction.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 513a841..2bc310c 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -312,7 +312,7 @@ impl Encodable for UnverifiedTransaction {
 impl Decodable for UnverifiedTransaction {
     fn decode(r: &Rlp) -> Result<Self, DecoderError> {
         let raw = r.as_raw();
-        let header = raw[0];
+        let header = *raw.first().ok_or(DecoderError::RlpIsTooShort)?;
 
         if (header & 0x80) != 0x00 {
             return LegacyTransaction::rlp_decode(r);
diff --git a/protocol/src/types/transaction.rs b/protocol/src/types/transaction.rs
index 20d2c06..668a1d0 100644
--- a/protocol/src/types/transaction.rs
+++ b/protocol/src/types/transaction.rs
@@ -406,7 +406,7 @@ impl SignatureComponents {
 
     pub(crate) fn extract_interoperation_tx_sender(&self) -> ProtocolResult<H160> {
         // Only call CKB-VM mode is supported now
-        if self.r[0] == 0 {
+        if self.r.first() == Some(&0) {
             let r = rlp::decode::<CellDepWithPubKey>(&self.r[1..])
                 .map_err(TypesError::DecodeInteroperationSigR)?;
 
-- 
2.43.0


From 2c528d407466c1ec6f7eb172a35a1a4c946b5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 04/65] fix: parsing an address from an over-long or non-ASCII
 string must fail, not panic

---
 protocol/src/types/primitive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index 085bb81..bf666e2 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -264,11 +264,12 @@ impl FromStr for Address {
     type Err = ProtocolError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        let address = Address::from_hex(&s.to_lowercase())?;
         if checksum(s) != s {
             return Err(TypesError::InvalidCheckSum.into());
         }
 
-        Address::from_hex(&s.to_lowercase())
+        Ok(address)
     }
 }
 
-- 
2.43.0


From 116dcf52d88cd5145182634c3a64ffb631e65b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 05/65] fix: axon-tools verify_proof must require the quorum by
 vote weight, as the chain does

---
 devtools/axon-tools/src/proof.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/devtools/axon-tools/src/proof.rs b/devtools/axon-tools/src/proof.rs
index 2c7d796..24774df 100644
--- a/devtools/axon-tools/src/proof.rs
+++ b/devtools/axon-tools/src/proof.rs
@@ -83,7 +83,8 @@ fn extract_pks(
 
     let bit_map = BitVec::from_bytes(&proof.bitmap);
     let mut pks = Vec::with_capacity(validator_list.len());
-    let mut count = 0usize;
+    let mut voted_weight = 0u64;
+    let total_weight: u64 = validator_list.iter().map(|v| v.vote_weight as u64).sum();
 
     for (v, bit) in validator_list.iter().zip(bit_map.iter()) {
         if !bit {
@@ -91,10 +92,10 @@ fn extract_pks(
         }
 
         pks.push(PublicKey::from_bytes(&v.bls_pub_key.as_bytes())?);
-        count += 1;
+        voted_weight += v.vote_weight as u64;
     }
 
-    if count * 3 <= validator_list.len() * 2 {
+    if voted_weight * 3 <= total_weight * 2 {
         return Err(Error::NotEnoughSignatures);
     }
 
-- 
2.43.0


From 0758b4a75ccb0142224e8eafe360a3be531e10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 06/65] fix: axon-tools ConsensusConfig lacks the
 max_contract_limit field the chain encodes

---
 devtools/axon-tools/src/types.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 3e7a363..05b2be1 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -492,6 +492,20 @@ pub struct ConsensusConfig {
         serde(deserialize_with = "decode::deserialize_hex_u64")
     )]
     pub max_tx_size: u64,
+
+    #[cfg_attr(
+        all(feature = "impl-serde", feature = "std"),
+        serde(
+            default = "default_max_contract_limit",
+            deserialize_with = "decode::deserialize_hex_u64"
+        )
+    )]
+    pub max_contract_limit: u64,
+}
+
+#[cfg(all(feature = "impl-serde", feature = "std"))]
+fn default_max_contract_limit() -> u64 {
+    0x6000
 }
 
 #[derive(Clone, Debug, PartialEq, Eq)]
-- 
2.43.0


From c23a433a8d75fd439afa590b83be3aa65dddc5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 07/65] fix: axon-tools verify_proof must reject a proof for
 another height, as the chain does

---
 devtools/axon-tools/src/proof.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/devtools/axon-tools/src/proof.rs b/devtools/axon-tools/src/proof.rs
index 24774df..b6f4018 100644
--- a/devtools/axon-tools/src/proof.rs
+++ b/devtools/axon-tools/src/proof.rs
@@ -31,6 +31,10 @@ pub fn verify_proof(
     validator_list: &mut [ValidatorExtend],
     proof: Proof,
 ) -> Result<(), Error> {
+    if block.header.number != proof.number {
+        return Err(Error::InvalidProofBlockHash);
+    }
+
     let raw_proposal = Proposal {
         version:                  block.header.version,
         prev_hash:                block.header.prev_hash,
-- 
2.43.0


From 5bdf0f3c71dd75922da36cb2b86ee00a07e1d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 08/65] fix: a doubled 0x prefix is not a well-formed hex
 string or address

---
 devtools/axon-tools/src/types.rs | 2 +-
 protocol/src/types/primitive.rs  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/devtools/axon-tools/src/types.rs b/devtools/axon-tools/src/types.rs
index 05b2be1..e641c8b 100644
--- a/devtools/axon-tools/src/types.rs
+++ b/devtools/axon-tools/src/types.rs
@@ -99,7 +99,7 @@ impl FromStr for Hex {
             return Err(crate::Error::HexPrefix);
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
diff --git a/protocol/src/types/primitive.rs b/protocol/src/types/primitive.rs
index bf666e2..e363c81 100644
--- a/protocol/src/types/primitive.rs
+++ b/protocol/src/types/primitive.rs
@@ -144,7 +144,7 @@ impl FromStr for Hex {
             return Err(TypesError::HexPrefix.into());
         }
 
-        Ok(Hex(hex_decode(&s[2..])?.into()))
+        Ok(Hex(hex_decode(s)?.into()))
     }
 }
 
@@ -251,6 +251,9 @@ impl Address {
 
     pub fn from_hex(s: &str) -> ProtocolResult<Self> {
         let s = clean_0x(s)?;
+        if Hex::is_prefixed(s) {
+            return Err(TypesError::HexPrefix.into());
+        }
         let bytes = Bytes::from(hex_decode(s)?);
         Self::from_bytes(bytes)
     }
-- 
2.43.0


From 2fcde627daf792ec17aed509828ddc666d7ae912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 09/65] fix: gas_to_cycle must saturate instead of overflowing

---
 core/interoperation/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/interoperation/src/lib.rs b/core/interoperation/src/lib.rs
index 8267268..c0ee7c4 100644
--- a/core/interoperation/src/lib.rs
+++ b/core/interoperation/src/lib.rs
@@ -13,7 +13,7 @@ const ISA: u8 = ISA_IMC | ISA_B | ISA_MOP;
 const GAS_TO_CYCLE_COEF: u64 = 6_000;
 
 pub const fn gas_to_cycle(gas: u64) -> u64 {
-    gas * GAS_TO_CYCLE_COEF
+    gas.saturating_mul(GAS_TO_CYCLE_COEF)
 }
 
 pub const fn cycle_to_gas(cycle: u64) -> u64 {
-- 
2.43.0


From d3abdb63ffb08a67817f5e8e7bc41081e699bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 10/65] fix: an interoperation signature is only valid if its
 verifier exits with zero

---
 core/mempool/src/adapter/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/adapter/mod.rs b/core/mempool/src/adapter/mod.rs
index 01745c1..3cb40fd 100644
--- a/core/mempool/src/adapter/mod.rs
+++ b/core/mempool/src/adapter/mod.rs
@@ -308,7 +308,7 @@ where
 
         // Verify interoperation signature call CKB-VM mode
         let r = rlp::decode::<CellDepWithPubKey>(&signature.r[1..]).map_err(AdapterError::Rlp)?;
-        InteroperationImpl::call_ckb_vm(
+        let resp = InteroperationImpl::call_ckb_vm(
             Default::default(),
             &DataProvider::new(root),
             r.cell_dep,
@@ -317,6 +317,14 @@ where
         )
         .map_err(|e| AdapterError::VerifySignature(e.to_string()))?;
 
+        if resp.exit_code != 0 {
+            return Err(AdapterError::VerifySignature(format!(
+                "CKB-VM exit code {}",
+                resp.exit_code
+            ))
+            .into());
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 3e37fcb84e23b9e635bf097dbfcd2771cef0f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 11/65] fix: sharing fees must not overflow or divide by zero
 on the validators' weights

---
 core/executor/src/utils.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/utils.rs b/core/executor/src/utils.rs
index cd5c0b9..42551c2 100644
--- a/core/executor/src/utils.rs
+++ b/core/executor/src/utils.rs
@@ -29,7 +29,16 @@ impl FeeAllocate for DefaultFeeAllocator {
             return Vec::new();
         }
 
-        let weight_sum = U256::from(validators.iter().map(|v| v.vote_weight).sum::<u32>());
+        let weight_sum = U256::from(
+            validators
+                .iter()
+                .map(|v| u64::from(v.vote_weight))
+                .sum::<u64>(),
+        );
+
+        if weight_sum.is_zero() {
+            return Vec::new();
+        }
 
         validators
             .iter()
-- 
2.43.0


From d312b4f5715e91527faf3da23f6407b01492c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 12/65] fix: a reverted system contract transaction with gas
 limit zero must not panic

---
 core/executor/src/system_contract/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/executor/src/system_contract/utils.rs b/core/executor/src/system_contract/utils.rs
index 48d89bd..f752e40 100644
--- a/core/executor/src/system_contract/utils.rs
+++ b/core/executor/src/system_contract/utils.rs
@@ -14,7 +14,7 @@ pub fn revert_resp(gas_limit: U64) -> TxResp {
     TxResp {
         exit_reason:  ExitReason::Revert(ExitRevert::Reverted),
         ret:          vec![],
-        gas_used:     (gas_limit - 1).low_u64(),
+        gas_used:     gas_limit.low_u64().saturating_sub(1),
         remain_gas:   1u64,
         fee_cost:     U256::one(),
         logs:         vec![],
-- 
2.43.0


From d5ffa2303a0ba932abcbe6a5330b4cf6218c086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 13/65] fix: a native token issue that overflows the balance
 must revert, not panic

---
 core/executor/src/system_contract/native_token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/system_contract/native_token.rs b/core/executor/src/system_contract/native_token.rs
index 3e8dd07..d724bff 100644
--- a/core/executor/src/system_contract/native_token.rs
+++ b/core/executor/src/system_contract/native_token.rs
@@ -29,7 +29,10 @@ impl<Adapter: ExecutorAdapter + ApplyBackend> SystemContract<Adapter>
         let mut account = backend.basic(l2_addr);
 
         if direction {
-            account.balance += tx_value;
+            account.balance = match account.balance.checked_add(tx_value) {
+                Some(balance) => balance,
+                None => return revert_resp(gas_limit),
+            };
         } else {
             if account.balance < tx_value {
                 return revert_resp(gas_limit);
-- 
2.43.0


From 67a12521a991e38363e27631dc684c2f9f9fb507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 14/65] fix: decoding a revert message with an oversized length
 must not panic

---
 core/executor/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/executor/src/utils.rs b/core/executor/src/utils.rs
index 42551c2..a18c4f9 100644
--- a/core/executor/src/utils.rs
+++ b/core/executor/src/utils.rs
@@ -71,14 +71,14 @@ pub fn decode_revert_msg(input: &[u8]) -> String {
         return decode_reason(input);
     }
 
-    let end_offset = REVERT_EFFECT_MSG_OFFSET
-        + U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]).as_usize();
+    let msg_len = U256::from_big_endian(&input[REVERT_MSG_LEN_OFFSET..REVERT_EFFECT_MSG_OFFSET]);
+    let effect_msg = &input[REVERT_EFFECT_MSG_OFFSET..];
 
-    if input.len() < end_offset {
+    if U256::from(effect_msg.len()) < msg_len {
         return decode_reason(input);
     }
 
-    decode_reason(&input[REVERT_EFFECT_MSG_OFFSET..end_offset])
+    decode_reason(&effect_msg[..msg_len.as_usize()])
 }
 
 #[cfg(test)]
-- 
2.43.0


From efcee1cb8bdebe174eef37f784798daf409bd0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 15/65] fix: the iteration count of modexp must saturate
 instead of overflowing

---
 core/executor/src/precompiles/modexp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/executor/src/precompiles/modexp.rs b/core/executor/src/precompiles/modexp.rs
index 814e51b..8622693 100644
--- a/core/executor/src/precompiles/modexp.rs
+++ b/core/executor/src/precompiles/modexp.rs
@@ -200,10 +200,11 @@ fn iterator_count(e_size: Integer, exponent: Integer) -> u64 {
         let bytes: [u8; 32] = [0xFF; 32];
         let max_256_bit_uint = Integer::from_digits(&bytes, Order::MsfBe);
         let a: Integer = 8 * (e_size - 32);
-        a.saturating_as::<usize>()
-            + ((exponent.bitand(max_256_bit_uint))
+        a.saturating_as::<usize>().saturating_add(
+            (exponent.bitand(max_256_bit_uint))
                 .significant_bits()
-                .saturating_sub(1)) as usize
+                .saturating_sub(1) as usize,
+        )
     };
 
     iter_count.max(1) as u64
-- 
2.43.0


From b709585448dd3191b9beba45087e6debc527c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 16/65] fix: a block must be counted for its proposer, not for
 its last sender

---
 core/executor/src/system_contract/metadata/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/executor/src/system_contract/metadata/mod.rs b/core/executor/src/system_contract/metadata/mod.rs
index f62e38b..bc88034 100644
--- a/core/executor/src/system_contract/metadata/mod.rs
+++ b/core/executor/src/system_contract/metadata/mod.rs
@@ -128,7 +128,8 @@ impl<Adapter: ExecutorAdapter + ApplyBackend> SystemContract<Adapter>
 
         HARDFORK_INFO.swap(Arc::new(hardfork));
 
-        if let Err(e) = store.update_propose_count(block_number.as_u64(), &adapter.origin()) {
+        let proposer = adapter.block_coinbase();
+        if let Err(e) = store.update_propose_count(block_number.as_u64(), &proposer) {
             panic!("Update propose count at {:?} failed: {:?}", block_number, e)
         }
 
-- 
2.43.0


From 4e733368a82bd3a420820b6837dcd749aecfccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 17/65] fix: full transactions must be returned in the order
 they were asked for

---
 core/mempool/src/lib.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 97165c2..35dc007 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -250,25 +250,29 @@ where
         let mut full_txs = Vec::with_capacity(len);
 
         for tx_hash in tx_hashes.iter() {
-            if let Some(tx) = self.pool.get_by_hash(tx_hash) {
-                full_txs.push(tx);
-            } else {
+            let tx = self.pool.get_by_hash(tx_hash);
+            if tx.is_none() {
                 missing_hashes.push(*tx_hash);
             }
+            full_txs.push(tx);
         }
 
         // for push txs when local mempool is flushed, but the remote node still fetch
         // full block
         if !missing_hashes.is_empty() {
-            full_txs.extend(
-                self.adapter
-                    .get_transactions_from_storage(ctx, height, &missing_hashes)
-                    .await?
-                    .into_iter()
-                    .flatten(),
-            );
+            let stored_txs = self
+                .adapter
+                .get_transactions_from_storage(ctx, height, &missing_hashes)
+                .await?;
+
+            // keep the order of the request
+            for (tx, stored_tx) in full_txs.iter_mut().filter(|tx| tx.is_none()).zip(stored_txs) {
+                *tx = stored_tx;
+            }
         }
 
+        let full_txs = full_txs.into_iter().flatten().collect::<Vec<_>>();
+
         if full_txs.len() != len {
             Err(MemPoolError::MisMatch {
                 require:  len,
-- 
2.43.0


From af9a30514cfd63ea1d186e27b9407c619f09efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 18/65] fix: transactions other than those asked for must not
 complete a proposal

---
 core/mempool/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 35dc007..b7f7476 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -297,11 +297,17 @@ where
             let unknown_len = unknown_hashes.len();
             let txs = self
                 .adapter
-                .pull_txs(ctx.clone(), height, unknown_hashes)
+                .pull_txs(ctx.clone(), height, unknown_hashes.clone())
                 .await?;
 
-            // Make sure response signed_txs is the same size of request hashes.
-            if txs.len() != unknown_len {
+            // Make sure response signed_txs are exactly those of the request hashes.
+            let pulled_hashes = txs
+                .iter()
+                .map(|tx| tx.transaction.hash)
+                .collect::<HashSet<_>>();
+            if txs.len() != unknown_len
+                || unknown_hashes.iter().any(|h| !pulled_hashes.contains(h))
+            {
                 return Err(MemPoolError::EnsureBreak {
                     require:  unknown_len,
                     response: txs.len(),
-- 
2.43.0


From d0d302c0b404ef13cb810722286a01b692d9309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 19/65] fix: flushed system transactions must free all the
 places they took in the mempool

---
 core/mempool/src/pool.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 69606d8..7c16673 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -364,9 +364,12 @@ impl BuiltInContractTxBucket {
 
     pub fn flush(&self, hashes: &[Hash], reduce_len: &mut usize) {
         for hash in hashes.iter() {
-            if let Some(data) = self.hash_data_map.remove(hash) {
-                if self.tx_buckets.remove(&data.1).is_some() {
-                    *reduce_len += 1;
+            if let Some((_, data)) = self.hash_data_map.remove(hash) {
+                if let Some((_, txs)) = self.tx_buckets.remove(&data) {
+                    txs.keys().for_each(|hash| {
+                        self.hash_data_map.remove(hash);
+                    });
+                    *reduce_len += txs.len();
                 }
             }
         }
-- 
2.43.0


From d33b95d90f28695645c6b112056ef9bbfe9c17a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 20/65] fix: packaged transactions must keep the nonce order of
 their sender and go by gas price

---
 core/mempool/src/pool.rs       | 35 ++++++++++++++++++++++------------
 core/mempool/src/tx_wrapper.rs |  7 +++----
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 7c16673..ae26c46 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -1,4 +1,4 @@
-use std::collections::{hash_map::Entry, BTreeMap, HashMap, HashSet};
+use std::collections::{hash_map::Entry, BTreeMap, BinaryHeap, HashMap, HashSet, VecDeque};
 use std::sync::{
     atomic::{AtomicUsize, Ordering},
     Arc,
@@ -165,17 +165,28 @@ impl PriorityPool {
 
         q.sort_unstable();
 
-        hashes.extend(
-            q.iter()
-                .filter_map(|ptr| {
-                    if ptr.is_dropped() {
-                        None
-                    } else {
-                        Some(ptr.hash())
-                    }
-                })
-                .take(limit),
-        );
+        // The transactions of a sender keep their nonce order, the next ones of the
+        // senders compete by gas price.
+        let mut sender_txs: HashMap<H160, VecDeque<&TxPtr>> = HashMap::new();
+        for ptr in q.iter().filter(|ptr| !ptr.is_dropped()) {
+            sender_txs.entry(ptr.sender()).or_default().push_back(ptr);
+        }
+
+        let mut heads = sender_txs
+            .iter()
+            .filter_map(|(sender, txs)| txs.front().map(|tx| (tx.gas_price(), *sender)))
+            .collect::<BinaryHeap<_>>();
+
+        for _ in 0..limit {
+            let Some((_, sender)) = heads.pop() else {
+                break;
+            };
+            let Some(txs) = sender_txs.get_mut(&sender) else {
+                continue;
+            };
+            hashes.extend(txs.pop_front().map(|tx| tx.hash()));
+            heads.extend(txs.front().map(|tx| (tx.gas_price(), sender)));
+        }
 
         PackedTxHashes {
             hashes,
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 08c358c..422fa53 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -28,10 +28,9 @@ impl From<SignedTransaction> for TxWrapper {
 
 impl Ord for TxWrapper {
     fn cmp(&self, other: &Self) -> Ordering {
-        if self.sender() != other.sender() {
-            return self.gas_price().cmp(&other.gas_price());
-        }
-        self.nonce().cmp(other.nonce())
+        self.sender()
+            .cmp(&other.sender())
+            .then_with(|| self.nonce().cmp(other.nonce()))
     }
 }
 
-- 
2.43.0


From 21abcebeae30ba39fd9a1e4d6f638e127626b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 21/65] fix: a transaction with the greatest nonce must not
 make the mempool panic

---
 core/mempool/src/tx_wrapper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index 422fa53..d61eaf5 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -134,7 +134,7 @@ impl PendingQueue {
         let mut current = self.pop_tip_nonce;
         for (k, v) in self.queue.range((Included(current), Unbounded)) {
             if k == &current {
-                current = current + 1;
+                current = current.saturating_add(1.into());
                 if v.is_package() {
                     continue;
                 }
@@ -158,7 +158,7 @@ impl PendingQueue {
         for (_, v) in self.queue.range((Included(0.into()), Included(nonce))) {
             v.set_dropped();
         }
-        self.pop_tip_nonce = nonce + 1;
+        self.pop_tip_nonce = nonce.saturating_add(1.into());
         self.current_tip_nonce = self.pop_tip_nonce;
     }
 
-- 
2.43.0


From a4ba5100d2bf3b5f5567aac2f4302c4c1dfe3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 22/65] fix: a transaction dropped from the mempool must not
 leave a nonce gap in the packages

---
 core/mempool/src/pool.rs       |  5 ++++-
 core/mempool/src/tx_wrapper.rs | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index ae26c46..3c0ac4c 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -307,10 +307,13 @@ impl PriorityPool {
 
         timeout_gap.entry(number).or_default().extend(retain_keys);
 
-        q.retain(|ptr| !ptr.is_dropped());
+        // What was dropped may have left a gap in the nonces of its sender, so the list
+        // is made anew.
+        q.clear();
 
         self.pending_queue.retain(|_, v| {
             v.clear_droped();
+            v.reset_package_list(&mut q);
             !v.need_remove()
         })
     }
diff --git a/core/mempool/src/tx_wrapper.rs b/core/mempool/src/tx_wrapper.rs
index d61eaf5..69da897 100644
--- a/core/mempool/src/tx_wrapper.rs
+++ b/core/mempool/src/tx_wrapper.rs
@@ -81,6 +81,10 @@ impl TxWrapper {
         self.state.fetch_or(0x01, AtomicOrdering::AcqRel);
     }
 
+    fn unset_package(&self) {
+        self.state.fetch_and(!0x01, AtomicOrdering::AcqRel);
+    }
+
     fn is_package(&self) -> bool {
         self.state.load(AtomicOrdering::Acquire) & 0x01 == 0x01
     }
@@ -147,6 +151,12 @@ impl PendingQueue {
         self.pop_tip_nonce = current;
     }
 
+    pub fn reset_package_list(&mut self, list: &mut Vec<TxPtr>) {
+        self.queue.values().for_each(|v| v.unset_package());
+        self.pop_tip_nonce = self.current_tip_nonce;
+        self.try_search_package_list(list);
+    }
+
     pub fn clear_droped(&mut self) {
         if self.queue.is_empty() {
             self.need_remove = true
-- 
2.43.0


From ee52dc01b5d26644913785cb743c54a0dd5c1be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 23/65] fix: transactions recovered at start must enter the
 mempool as they would when sent

---
 core/mempool/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index b7f7476..b4ad850 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -86,10 +86,16 @@ where
     }
 
     async fn initial_insert(&self, ctx: Context, stx: SignedTransaction) -> ProtocolResult<()> {
+        let check_nonce = self.adapter.check_authorization(ctx.clone(), &stx).await?;
         self.adapter
             .check_storage_exist(ctx.clone(), &stx.transaction.hash)
             .await?;
-        self.pool.insert(stx, true, U64::zero())
+
+        if is_call_system_script(stx.transaction.unsigned.action())? {
+            self.pool.insert_system_script_tx(stx)
+        } else {
+            self.pool.insert(stx, true, check_nonce)
+        }
     }
 
     async fn insert_tx(
-- 
2.43.0


From 2e30801cea45af1ddeb65afd30b13da8687f550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 24/65] fix: check a transaction again when the pool was
 flushed during its checks

A block committed between the checks of a transaction and its insertion left the
pool with a committed transaction (or one with a nonce distance that no longer
holds), which was then packaged a second time or never.
---
 core/mempool/src/lib.rs  | 51 ++++++++++++++++++++++-------------
 core/mempool/src/pool.rs | 57 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 84 insertions(+), 24 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index b4ad850..e919fe5 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -112,16 +112,24 @@ where
         if self.pool.contains(tx_hash) {
             return Ok(());
         } else {
-            let check_nonce = self.adapter.check_authorization(ctx.clone(), &tx).await?;
-            self.adapter.check_transaction(ctx.clone(), &tx).await?;
-            self.adapter
-                .check_storage_exist(ctx.clone(), tx_hash)
-                .await?;
+            // The checks only hold as long as no block is committed meanwhile.
+            loop {
+                let flush_count = self.pool.flush_count();
+                let check_nonce = self.adapter.check_authorization(ctx.clone(), &tx).await?;
+                self.adapter.check_transaction(ctx.clone(), &tx).await?;
+                self.adapter
+                    .check_storage_exist(ctx.clone(), tx_hash)
+                    .await?;
 
-            if is_system_script {
-                self.pool.insert_system_script_tx(tx.clone())?;
-            } else {
-                self.pool.insert(tx.clone(), true, check_nonce)?;
+                if self.pool.insert_checked(
+                    tx.clone(),
+                    is_system_script,
+                    true,
+                    check_nonce,
+                    flush_count,
+                )? {
+                    break;
+                }
             }
 
             if !ctx.is_network_origin_txs() {
@@ -321,16 +329,23 @@ where
                 .into());
             }
 
-            let check_nonces = self.verify_tx_in_parallel(ctx.clone(), txs.clone()).await?;
-
-            for (signed_tx, check_nonce) in txs.into_iter().zip(check_nonces.into_iter()) {
-                let is_call_system_script =
-                    is_call_system_script(signed_tx.transaction.unsigned.action())?;
-                if is_call_system_script {
-                    self.pool.insert_system_script_tx(signed_tx)?;
-                } else {
-                    self.pool.insert(signed_tx, false, check_nonce)?;
+            // The checks only hold as long as no block is committed meanwhile.
+            'verify: loop {
+                let flush_count = self.pool.flush_count();
+                let check_nonces = self.verify_tx_in_parallel(ctx.clone(), txs.clone()).await?;
+
+                for (signed_tx, check_nonce) in txs.iter().zip(check_nonces.into_iter()) {
+                    if !self.pool.insert_checked(
+                        signed_tx.clone(),
+                        is_call_system_script(signed_tx.transaction.unsigned.action())?,
+                        false,
+                        check_nonce,
+                        flush_count,
+                    )? {
+                        continue 'verify;
+                    }
                 }
+                break;
             }
 
             self.adapter.report_good(ctx);
diff --git a/core/mempool/src/pool.rs b/core/mempool/src/pool.rs
index 3c0ac4c..c585a3e 100644
--- a/core/mempool/src/pool.rs
+++ b/core/mempool/src/pool.rs
@@ -38,7 +38,9 @@ pub struct PriorityPool {
     // in the transaction pool, the transaction will be discarded.
     timeout_config:         u64,
 
-    flush_lock: Arc<RwLock<()>>,
+    flush_lock:  Arc<RwLock<()>>,
+    // The number of times the pool has been flushed.
+    flush_count: AtomicUsize,
 }
 
 impl PriorityPool {
@@ -53,6 +55,7 @@ impl PriorityPool {
             timeout_gap: Mutex::new(BTreeMap::new()),
             timeout_config,
             flush_lock: Arc::new(RwLock::new(())),
+            flush_count: AtomicUsize::new(0),
         };
 
         let co_queue = Arc::clone(&pool.co_queue);
@@ -102,10 +105,43 @@ impl PriorityPool {
 
     pub fn insert_system_script_tx(&self, stx: SignedTransaction) -> ProtocolResult<()> {
         let _flushing = self.flush_lock.read();
+        self.insert_system_script_tx_inner(stx);
+        Ok(())
+    }
+
+    fn insert_system_script_tx_inner(&self, stx: SignedTransaction) {
         if self.sys_tx_bucket.insert(stx) {
             self.stock_len.fetch_add(1, Ordering::AcqRel);
         }
-        Ok(())
+    }
+
+    pub fn flush_count(&self) -> usize {
+        self.flush_count.load(Ordering::Acquire)
+    }
+
+    /// Insert a transaction that was checked after `flush_count` flushes. If
+    /// the pool has been flushed since, the checks are out of date, so nothing
+    /// is inserted and false is returned.
+    pub fn insert_checked(
+        &self,
+        stx: SignedTransaction,
+        is_system_script: bool,
+        check_limit: bool,
+        check_nonce: U64,
+        flush_count: usize,
+    ) -> ProtocolResult<bool> {
+        let _flushing = self.flush_lock.read();
+        if self.flush_count() != flush_count {
+            return Ok(false);
+        }
+
+        if is_system_script {
+            self.insert_system_script_tx_inner(stx);
+        } else {
+            self.insert_inner(stx, check_limit, check_nonce)?;
+        }
+
+        Ok(true)
     }
 
     pub fn insert(
@@ -113,6 +149,18 @@ impl PriorityPool {
         stx: SignedTransaction,
         check_limit: bool,
         check_nonce: U64,
+    ) -> ProtocolResult<()> {
+        // This lock is necessary to avoid mismatch error triggered by the concurrent
+        // operation of tx insertion and flush.
+        let _flushing = self.flush_lock.read();
+        self.insert_inner(stx, check_limit, check_nonce)
+    }
+
+    fn insert_inner(
+        &self,
+        stx: SignedTransaction,
+        check_limit: bool,
+        check_nonce: U64,
     ) -> ProtocolResult<()> {
         if let Err(n) = self
             .stock_len
@@ -127,10 +175,6 @@ impl PriorityPool {
             return Err(MemPoolError::ReachLimit(n).into());
         }
 
-        // This lock is necessary to avoid mismatch error triggered by the concurrent
-        // operation of tx insertion and flush.
-        let _flushing = self.flush_lock.read();
-
         // Must flush co_queue here when it's full, otherwise, this tx may can't package
         // by self, because it will never insert to real_queue
         if !check_limit && self.co_queue.is_full() {
@@ -248,6 +292,7 @@ impl PriorityPool {
 
     pub fn flush(&self, hashes: &[Hash], number: BlockNumber) {
         let _flushing = self.flush_lock.write();
+        self.flush_count.fetch_add(1, Ordering::AcqRel);
         self.flush_to_pending_queue();
         let mut reduce_len = 0;
         self.flush_inner(hashes, &mut reduce_len, number);
-- 
2.43.0


From b3151053fb9e0b0a049df99a1d241c39b2a218d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 25/65] fix: what was read before the nonce cache was cleared
 is not cached

A check that read the account before a block was committed put the old nonce into
the cache after it was cleared, so used nonces passed the following checks.
---
 core/mempool/src/adapter/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/core/mempool/src/adapter/mod.rs b/core/mempool/src/adapter/mod.rs
index 3cb40fd..412e7c2 100644
--- a/core/mempool/src/adapter/mod.rs
+++ b/core/mempool/src/adapter/mod.rs
@@ -122,7 +122,10 @@ pub struct DefaultMemPoolAdapter<C, N, S, DB, I> {
     storage: Arc<S>,
     trie_db: Arc<DB>,
 
-    addr_nonce:  DashMap<H160, (U64, U256)>,
+    addr_nonce:  DashMap<H160, (U64, U256, usize)>,
+    // How many times the nonce cache has been cleared. What was read before the last
+    // time is out of date.
+    nonce_epoch: AtomicUsize,
     max_tx_size: AtomicUsize,
     chain_id:    u64,
 
@@ -167,6 +170,7 @@ where
             trie_db,
 
             addr_nonce: DashMap::new(),
+            nonce_epoch: AtomicUsize::new(0),
             max_tx_size: AtomicUsize::new(max_tx_size),
             chain_id,
 
@@ -402,7 +406,8 @@ where
         }
 
         let addr = &tx.sender;
-        if let Some(res) = self.addr_nonce.get(addr) {
+        let epoch = self.nonce_epoch.load(Ordering::Acquire);
+        if let Some(res) = self.addr_nonce.get(addr).filter(|res| res.2 == epoch) {
             if tx.transaction.unsigned.nonce() < &res.value().0 {
                 return Err(MemPoolError::InvalidNonce {
                     current:  res.value().0.low_u64(),
@@ -423,8 +428,10 @@ where
 
         let backend = self.executor_backend(ctx).await?;
         let account = backend.basic(*addr);
-        self.addr_nonce
-            .insert(*addr, (account.nonce.low_u64().into(), account.balance));
+        self.addr_nonce.insert(
+            *addr,
+            (account.nonce.low_u64().into(), account.balance, epoch),
+        );
 
         if account.nonce.low_u64() > tx.transaction.unsigned.nonce().low_u64() {
             return Err(MemPoolError::InvalidNonce {
@@ -503,10 +510,11 @@ where
     ) {
         self.max_tx_size
             .store(max_tx_size as usize, Ordering::Release);
-        self.addr_nonce.clear();
+        self.clear_nonce_cache();
     }
 
     fn clear_nonce_cache(&self) {
+        self.nonce_epoch.fetch_add(1, Ordering::AcqRel);
         self.addr_nonce.clear()
     }
 
-- 
2.43.0


From b96c67f8200527adf0f8e5275ba56132fe2c08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 26/65] fix: name transaction WAL files by the whole hash, not
 its abbreviation

---
 core/consensus/src/wal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index ed533d9..4420598 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -37,7 +37,7 @@ impl SignedTxsWAL {
             fs::create_dir(&wal_path).map_err(ConsensusError::WALErr)?;
         }
 
-        wal_path.push(ordered_signed_transactions_hash.to_string());
+        wal_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         wal_path.set_extension("txt");
 
         let mut wal_file = match fs::OpenOptions::new()
@@ -89,7 +89,7 @@ impl SignedTxsWAL {
     ) -> ProtocolResult<Vec<SignedTransaction>> {
         let mut file_path = self.path.clone();
         file_path.push(number.to_string());
-        file_path.push(ordered_signed_transactions_hash.to_string());
+        file_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         file_path.set_extension("txt");
 
         self.recover_stxs(file_path)
-- 
2.43.0


From ee2a848a7ed5e95ef0e03cd75290628e185c51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 27/65] fix: a transaction WAL file is replaced atomically, so
 a torn write is never read as a shorter list

---
 core/consensus/src/wal.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index 4420598..f84325b 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -40,25 +40,15 @@ impl SignedTxsWAL {
         wal_path.push(format!("{:#x}", ordered_signed_transactions_hash));
         wal_path.set_extension("txt");
 
-        let mut wal_file = match fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(wal_path)
-        {
-            Ok(file) => file,
-            Err(err) => {
-                if err.kind() == ErrorKind::AlreadyExists {
-                    return Ok(());
-                } else {
-                    return Err(ConsensusError::WALErr(err).into());
-                }
-            }
-        };
-
+        // Write to a temporary file first, so that a file under the final name is
+        // always a complete one.
+        let tmp_path = wal_path.with_extension("tmp");
+        let mut wal_file = fs::File::create(&tmp_path).map_err(ConsensusError::WALErr)?;
         wal_file
             .write_all(BatchSignedTxs(txs).encode_msg()?.as_ref())
             .map_err(ConsensusError::WALErr)?;
+        wal_file.sync_data().map_err(ConsensusError::WALErr)?;
+        fs::rename(tmp_path, wal_path).map_err(ConsensusError::WALErr)?;
         Ok(())
     }
 
@@ -106,6 +96,9 @@ impl SignedTxsWAL {
 
         let mut ret = Vec::new();
         for entry in dir.flatten() {
+            if entry.path().extension().map_or(true, |ext| ext != "txt") {
+                continue;
+            }
             if let Ok(mut stxs) = self.recover_stxs(entry.path()) {
                 ret.append(&mut stxs);
             }
-- 
2.43.0


From 66a3a8df95edf05ceaae91ce065c814d265e3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 28/65] fix: skip unreadable and short consensus WAL files
 instead of retrying them forever

---
 core/consensus/src/wal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index f84325b..c795c05 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -270,12 +270,14 @@ impl ConsensusWal {
             let mut file = fs::File::open(&log_path).map_err(ConsensusError::WALErr)?;
             let res = file.read_to_end(&mut read_buf);
             if res.is_err() {
+                index += 1;
                 continue;
             }
 
             let mut info = Bytes::from(read_buf);
 
             if info.len() < Hash::default().as_bytes().len() {
+                index += 1;
                 continue;
             }
 
-- 
2.43.0


From 2a31f18f56a631d89415bebefe505cee09e9692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 29/65] fix: the newest consensus WAL record has the greatest
 timestamp, also after the clock was set back

---
 core/consensus/src/wal.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/core/consensus/src/wal.rs b/core/consensus/src/wal.rs
index c795c05..3f29e3f 100644
--- a/core/consensus/src/wal.rs
+++ b/core/consensus/src/wal.rs
@@ -170,23 +170,18 @@ impl ConsensusWal {
         content.put(check_sum.as_bytes());
         content.put(info);
 
-        let (data_path, timestamp) = {
-            loop {
-                let timestamp = SystemTime::now()
-                    .duration_since(SystemTime::UNIX_EPOCH)
-                    .map_err(ConsensusError::SystemTime)?;
-
-                let timestamp = timestamp.as_millis();
-
-                let mut data_path = dir_path.clone();
-
-                data_path.push(timestamp.to_string());
-
-                if !data_path.exists() {
-                    break (data_path, timestamp);
-                }
-            }
-        };
+        // The newest record has the greatest timestamp, also after the system clock
+        // was set back.
+        let newest = fs::read_dir(&dir_path)
+            .map_err(ConsensusError::WALErr)?
+            .filter_map(|item| u128::from_str(item.ok()?.file_name().to_str()?).ok())
+            .max();
+        let now = SystemTime::now()
+            .duration_since(SystemTime::UNIX_EPOCH)
+            .map_err(ConsensusError::SystemTime)?
+            .as_millis();
+        let timestamp = newest.map_or(now, |newest| now.max(newest.saturating_add(1)));
+        let data_path = dir_path.join(timestamp.to_string());
 
         let mut data_file = match fs::OpenOptions::new()
             .read(true)
-- 
2.43.0


From 4a83808d2cc1e20be4c6c15ed5f541bb4f6f3640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 30/65] fix: a proposal whose hash is not the one voted for, or
 with the greatest proof height, is refused

---
 core/consensus/src/engine.rs | 15 ++++++++++++---
 core/consensus/src/lib.rs    |  3 +++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 37c7a28..0f705f5 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -36,7 +36,7 @@ use crate::status::{CurrentStatus, StatusAgent};
 use crate::stop_signal::StopSignal;
 use crate::util::{digest_signed_transactions, time_now, OverlordCrypto};
 use crate::wal::{ConsensusWal, SignedTxsWAL};
-use crate::ConsensusError;
+use crate::{BlockHeaderField, ConsensusError};
 
 /// validator is for create new block, and authority is for build overlord
 /// status.
@@ -159,9 +159,18 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
     ) -> Result<(), Box<dyn Error + Send>> {
         let time = Instant::now();
 
-        if proposal.number != proposal.proof.number + 1 {
+        // The votes are for the hash, so it has to be the hash of this proposal.
+        if hash.as_ref() != proposal.hash().as_bytes() {
+            return Err(ProtocolError::from(ConsensusError::VerifyBlockHeader(
+                next_number,
+                BlockHeaderField::Hash,
+            ))
+            .into());
+        }
+
+        if proposal.proof.number.checked_add(1) != Some(proposal.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
-                expect: proposal.number - 1,
+                expect: proposal.number.saturating_sub(1),
                 actual: proposal.proof.number,
             })
             .into());
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index 429b4fc..c8d5157 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -220,6 +220,9 @@ pub enum BlockHeaderField {
 
     #[display(fmt = "The block version")]
     Version,
+
+    #[display(fmt = "The proposal mismatch the hash it is voted by")]
+    Hash,
 }
 
 #[derive(Debug, Display)]
-- 
2.43.0


From 15f696d5f7c6155e57d5e2c787a5884802c7e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 31/65] fix: a proposal for another height than the one being
 decided is refused

---
 core/consensus/src/engine.rs | 8 ++++++++
 core/consensus/src/lib.rs    | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 0f705f5..4ee2e83 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -168,6 +168,14 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<Proposal> for ConsensusEngine<A
             .into());
         }
 
+        if proposal.number != next_number {
+            return Err(ProtocolError::from(ConsensusError::VerifyBlockHeader(
+                next_number,
+                BlockHeaderField::Number,
+            ))
+            .into());
+        }
+
         if proposal.proof.number.checked_add(1) != Some(proposal.number) {
             return Err(ProtocolError::from(ConsensusError::InvalidProof {
                 expect: proposal.number.saturating_sub(1),
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index c8d5157..bd9ffdc 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -221,6 +221,9 @@ pub enum BlockHeaderField {
     #[display(fmt = "The block version")]
     Version,
 
+    #[display(fmt = "The number mismatch the height being decided")]
+    Number,
+
     #[display(fmt = "The proposal mismatch the hash it is voted by")]
     Hash,
 }
-- 
2.43.0


From 5953742d0a53716e95b2ba8f0102bc441e15f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 32/65] fix: a proposal's previous state root, gas limit,
 proposer and system script count are checked before voting

---
 core/consensus/src/engine.rs | 44 ++++++++++++++++++++++++++++++++++--
 core/consensus/src/lib.rs    | 12 ++++++++++
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 4ee2e83..c22bbfb 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -16,7 +16,7 @@ use common_apm_derive::trace_span;
 use common_crypto::BlsPublicKey;
 use common_logger::{json, log};
 use common_merkle::TrieMerkle;
-use core_executor::MetadataHandle;
+use core_executor::{is_call_system_script, MetadataHandle};
 use protocol::constants::endpoints::{
     END_GOSSIP_AGGREGATED_VOTE, END_GOSSIP_SIGNED_CHOKE, END_GOSSIP_SIGNED_PROPOSAL,
     END_GOSSIP_SIGNED_VOTE,
@@ -24,7 +24,7 @@ use protocol::constants::endpoints::{
 use protocol::constants::{BASE_FEE_PER_GAS, MAX_BLOCK_GAS_LIMIT};
 use protocol::traits::{ConsensusAdapter, Context, MessageTarget, NodeInfo};
 use protocol::types::{
-    Block, BlockVersion, Bytes, ExecResp, ExtraData, Hash, Hex, Metadata, Proof, Proposal,
+    Address, Block, BlockVersion, Bytes, ExecResp, ExtraData, Hash, Hex, Metadata, Proof, Proposal,
     SignedTransaction, ValidatorExtend, VecDisplayHelper, RLP_NULL,
 };
 use protocol::{
@@ -580,6 +580,35 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .get_block_by_number(ctx.clone(), proposal.number - 1)
             .await?;
 
+        let refuse = |field: BlockHeaderField| -> ProtocolResult<()> {
+            Err(ConsensusError::VerifyBlockHeader(proposal.number, field).into())
+        };
+
+        if proposal.prev_state_root != previous_block.header.state_root {
+            return refuse(BlockHeaderField::PreviousStateRoot);
+        }
+
+        if proposal.gas_limit != MAX_BLOCK_GAS_LIMIT.into() {
+            return refuse(BlockHeaderField::GasLimit);
+        }
+
+        if proposal.extra_data.len() > 1 {
+            return refuse(BlockHeaderField::ExtraData);
+        }
+
+        let metadata = self
+            .adapter
+            .get_metadata_by_block_number(proposal.number)
+            .await?;
+        let in_committee = metadata.verifier_list.iter().any(|v| {
+            Address::from_pubkey_bytes(v.pub_key.as_bytes())
+                .map(|addr| addr.0 == proposal.proposer)
+                .unwrap_or(false)
+        });
+        if !in_committee {
+            return refuse(BlockHeaderField::Proposer);
+        }
+
         // verify block timestamp.
         if !validate_timestamp(
             current_timestamp,
@@ -617,6 +646,17 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .adapter
             .get_full_txs(ctx.clone(), &proposal.tx_hashes)
             .await?;
+
+        let mut call_system_script_count = 0u32;
+        for stx in signed_txs.iter() {
+            if is_call_system_script(stx.transaction.unsigned.action())? {
+                call_system_script_count += 1;
+            }
+        }
+        if proposal.call_system_script_count != call_system_script_count {
+            return refuse(BlockHeaderField::CallSystemScriptCount);
+        }
+
         self.check_order_transactions(ctx.clone(), proposal, &signed_txs)
     }
 
diff --git a/core/consensus/src/lib.rs b/core/consensus/src/lib.rs
index bd9ffdc..d77fd7e 100644
--- a/core/consensus/src/lib.rs
+++ b/core/consensus/src/lib.rs
@@ -221,6 +221,18 @@ pub enum BlockHeaderField {
     #[display(fmt = "The block version")]
     Version,
 
+    #[display(fmt = "The prev_state_root mismatch the previous block")]
+    PreviousStateRoot,
+
+    #[display(fmt = "The gas limit of the block")]
+    GasLimit,
+
+    #[display(fmt = "The extra data is more than a hardfork proposal")]
+    ExtraData,
+
+    #[display(fmt = "The count of transactions that call system scripts")]
+    CallSystemScriptCount,
+
     #[display(fmt = "The number mismatch the height being decided")]
     Number,
 
-- 
2.43.0


From a65c60b6374ba050505dd2fd1b7234c08a25def5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 33/65] fix: the latest proof after synchronization is the one
 of the latest block

---
 core/consensus/src/synchronization.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 6ad31ea..933ca77 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -360,6 +360,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             rich_block.txs.clone(),
             receipts,
             rich_block.block.clone(),
+            proof,
         )
         .await?;
 
@@ -455,6 +456,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
         txs: Vec<SignedTransaction>,
         receipts: Vec<Receipt>,
         block: Block,
+        proof: Proof,
     ) -> ProtocolResult<()> {
         self.adapter
             .save_signed_txs(ctx.clone(), block.header.number, txs)
@@ -463,7 +465,7 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .save_receipts(ctx.clone(), block.header.number, receipts)
             .await?;
         self.adapter
-            .save_proof(ctx.clone(), block.header.proof.clone())
+            .save_proof(ctx.clone(), proof)
             .await?;
         self.adapter.save_block(ctx.clone(), block).await?;
         Ok(())
-- 
2.43.0


From e0bb2ac38f649714cb63b95e8cc523647e30abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 34/65] fix: synchronization stores a block only if its whole
 header is what executing it gives

---
 core/consensus/src/synchronization.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 933ca77..14e55ad 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -5,6 +5,7 @@ use parking_lot::RwLock;
 
 use common_apm::Instant;
 use common_apm_derive::trace_span;
+use protocol::constants::BASE_FEE_PER_GAS;
 use protocol::tokio::{sync::Mutex, time::sleep};
 use protocol::traits::{Context, Synchronization, SynchronizationAdapter};
 use protocol::types::{Block, Proof, Proposal, Receipt, RichBlock, SignedTransaction, U256};
@@ -340,6 +341,31 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .into());
         }
 
+        // Neither the proof nor the roots cover these, but the hash of the block does.
+        let mut header = Block::new(
+            Proposal::new_with_state_root(
+                &block.header,
+                self.status.inner().last_state_root,
+                block.tx_hashes.clone(),
+            ),
+            resp.clone(),
+        )
+        .header;
+        header.base_fee_per_gas = BASE_FEE_PER_GAS.into();
+        header.chain_id = self
+            .adapter
+            .get_block_by_number(ctx.clone(), block.header.number - 1)
+            .await?
+            .header
+            .chain_id;
+        if header != block.header {
+            return Err(ConsensusError::Other(format!(
+                "[synchronization]: the header of block {} mismatch what is executed",
+                block.header.number
+            ))
+            .into());
+        }
+
         let (receipts, _logs) = rich_block.generate_receipts_and_logs(&resp);
 
         let metadata = self
-- 
2.43.0


From f00f4a99a0f847a9ad6f441431729d1c7c31d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 35/65] fix: after synchronization the node uses the keys of
 the validators of the next block

---
 core/consensus/src/adapter.rs         | 12 ++++++++++++
 core/consensus/src/synchronization.rs |  4 ++++
 protocol/src/traits/consensus.rs      |  5 +++++
 3 files changed, 21 insertions(+)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index 4b87158..4df931a 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -25,6 +25,7 @@ use protocol::types::{
 use protocol::{async_trait, tokio::task, trie, ProtocolResult};
 
 use crate::consensus::gen_overlord_status;
+use crate::engine::generate_new_crypto_map;
 use crate::util::{convert_hex_to_bls_pubkeys, OverlordCrypto};
 use crate::BlockHeaderField::{PreviousBlockHash, Version};
 use crate::BlockProofField::{BitMap, HashMismatch, HeightMismatch, Signature, WeightNotFound};
@@ -162,6 +163,17 @@ where
         Ok(())
     }
 
+    fn update_validators(&self, ctx: Context, metadata: Metadata) -> ProtocolResult<()> {
+        let pub_keys = metadata
+            .verifier_list
+            .iter()
+            .map(|v| v.pub_key.as_bytes())
+            .collect();
+        self.tag_consensus(ctx, pub_keys)?;
+        self.crypto.update(generate_new_crypto_map(metadata)?);
+        Ok(())
+    }
+
     /// Pull some blocks from other nodes from `begin` to `end`.
     #[trace_span(kind = "consensus.adapter")]
     async fn get_block_from_remote(&self, ctx: Context, number: u64) -> ProtocolResult<Block> {
diff --git a/core/consensus/src/synchronization.rs b/core/consensus/src/synchronization.rs
index 14e55ad..f09b23f 100644
--- a/core/consensus/src/synchronization.rs
+++ b/core/consensus/src/synchronization.rs
@@ -538,6 +538,10 @@ impl<Adapter: SynchronizationAdapter> OverlordSynchronization<Adapter> {
             .get_metadata_by_block_number(sync_status.last_number + 1)
             .await?;
 
+        // The synchronized blocks may have ended an epoch.
+        self.adapter
+            .update_validators(ctx.clone(), metadata.clone())?;
+
         self.adapter.update_status(
             ctx,
             sync_status.last_number,
diff --git a/protocol/src/traits/consensus.rs b/protocol/src/traits/consensus.rs
index 2783434..d34b335 100644
--- a/protocol/src/traits/consensus.rs
+++ b/protocol/src/traits/consensus.rs
@@ -76,6 +76,11 @@ pub trait SynchronizationAdapter: CommonConsensusAdapter + Send + Sync {
         validators: Vec<ConsensusValidator>,
     ) -> ProtocolResult<()>;
 
+    /// Use the keys of the given metadata's validators from now on.
+    fn update_validators(&self, _ctx: Context, _metadata: Metadata) -> ProtocolResult<()> {
+        Ok(())
+    }
+
     /// Pull some blocks from other nodes from `begin` to `end`.
     async fn get_block_from_remote(
         &self,
-- 
2.43.0


From 2c88b49315901625523729669cf82fad9f215c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 36/65] fix: a node restarted at the end of an epoch starts
 with the validators of the next block

---
 core/run/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/run/src/lib.rs b/core/run/src/lib.rs
index 0c5763e..34036f6 100644
--- a/core/run/src/lib.rs
+++ b/core/run/src/lib.rs
@@ -200,7 +200,7 @@ async fn start<K: KeyProvider>(
     )
     .await;
 
-    // Get the validator list from current metadata for consensus initialization
+    // Get the validator list of the next block for consensus initialization
     let metadata_root = AxonExecutorReadOnlyAdapter::from_root(
         current_state_root,
         Arc::clone(&trie_db),
@@ -212,7 +212,8 @@ async fn start<K: KeyProvider>(
     let metadata_handle = MetadataHandle::new(metadata_root);
     metadata_handle.init_hardfork(current_block.header.number)?;
 
-    let metadata = metadata_handle.get_metadata_by_block_number(current_block.header.number)?;
+    let metadata =
+        metadata_handle.get_metadata_by_block_number(current_block.header.number + 1)?;
     let validators: Vec<ConsensusValidator> =
         metadata.verifier_list.iter().map(Into::into).collect();
 
-- 
2.43.0


From 8c2f47edcaf72104f6ef3801519ba860c6693c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 37/65] fix: consensus messages that would panic inside
 Overlord are refused

---
 core/consensus/src/consensus.rs | 60 ++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index b37dacb..6c1ec8e 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use overlord::types::{
-    AggregatedVote, Node, OverlordMsg, SignedChoke, SignedProposal, SignedVote, Status,
+    AggregatedVote, Node, OverlordMsg, SignedChoke, SignedProposal, SignedVote, Status, UpdateFrom,
 };
 use overlord::{DurationConfig, Overlord, OverlordHandler};
 
@@ -22,6 +22,12 @@ use crate::{
     ConsensusType,
 };
 
+/// The last tag of `UpdateFrom`; Overlord panics on others.
+const LAST_UPDATE_FROM_TAG: u8 = 2;
+/// Overlord calculates with the height and the round of a message before it
+/// verifies the message, so they must be far from overflow.
+const MAX_HEIGHT_OR_ROUND: u64 = u32::MAX as u64;
+
 /// Provide consensus
 pub struct OverlordConsensus<Adapter: ConsensusAdapter + 'static> {
     /// Overlord consensus protocol instance.
@@ -37,6 +43,19 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
     async fn set_proposal(&self, ctx: Context, proposal: Vec<u8>) -> ProtocolResult<()> {
         let signed_proposal = SignedProposal::<Proposal>::decode(proposal)
             .map_err(|_| ConsensusError::DecodeErr(ConsensusType::SignedProposal))?;
+        let proposal = &signed_proposal.proposal;
+        check_height_and_round(
+            proposal.height,
+            proposal.round,
+            ConsensusType::SignedProposal,
+        )?;
+        if let Some(ref lock) = proposal.lock {
+            check_height_and_round(
+                lock.lock_votes.height,
+                lock.lock_votes.round.max(lock.lock_round),
+                ConsensusType::SignedProposal,
+            )?;
+        }
 
         let msg = OverlordMsg::SignedProposal(signed_proposal);
         tracing_overlord_message(ctx.clone(), &msg);
@@ -62,6 +81,11 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
 
         let signed_vote = SignedVote::decode(vote)
             .map_err(|_| ConsensusError::DecodeErr(ConsensusType::SignedVote))?;
+        check_height_and_round(
+            signed_vote.get_height(),
+            signed_vote.get_round(),
+            ConsensusType::SignedVote,
+        )?;
 
         let msg = OverlordMsg::SignedVote(signed_vote);
         tracing_overlord_message(ctx.clone(), &msg);
@@ -76,6 +100,11 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
     async fn set_qc(&self, ctx: Context, qc: Vec<u8>) -> ProtocolResult<()> {
         let aggregated_vote = AggregatedVote::decode(qc)
             .map_err(|_| ConsensusError::DecodeErr(ConsensusType::AggregateVote))?;
+        check_height_and_round(
+            aggregated_vote.get_height(),
+            aggregated_vote.get_round(),
+            ConsensusType::AggregateVote,
+        )?;
 
         let msg = OverlordMsg::AggregatedVote(aggregated_vote);
         tracing_overlord_message(ctx.clone(), &msg);
@@ -88,8 +117,19 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
 
     #[trace_span(kind = "consensus")]
     async fn set_choke(&self, ctx: Context, choke: Vec<u8>) -> ProtocolResult<()> {
+        check_choke_source(&choke)
+            .map_err(|_| ConsensusError::DecodeErr(ConsensusType::SignedChoke))?;
         let signed_choke = SignedChoke::decode(choke)
             .map_err(|_| ConsensusError::DecodeErr(ConsensusType::SignedChoke))?;
+        let choke = &signed_choke.choke;
+        check_height_and_round(choke.height, choke.round, ConsensusType::SignedChoke)?;
+        let (height, round) = match choke.from {
+            UpdateFrom::PrevoteQC(ref qc) | UpdateFrom::PrecommitQC(ref qc) => {
+                (qc.height, qc.round)
+            }
+            UpdateFrom::ChokeQC(ref qc) => (qc.height, qc.round),
+        };
+        check_height_and_round(height, round, ConsensusType::SignedChoke)?;
 
         let msg = OverlordMsg::SignedChoke(signed_choke);
         tracing_overlord_message(ctx.clone(), &msg);
@@ -189,6 +229,24 @@ impl<Adapter: ConsensusAdapter + 'static> OverlordConsensus<Adapter> {
     }
 }
 
+fn check_height_and_round(height: u64, round: u64, msg_type: ConsensusType) -> ProtocolResult<()> {
+    if height > MAX_HEIGHT_OR_ROUND || round > MAX_HEIGHT_OR_ROUND {
+        return Err(ConsensusError::DecodeErr(msg_type).into());
+    }
+
+    Ok(())
+}
+
+/// A signed choke is `[signature, [height, round, [tag, qc]], address]`.
+fn check_choke_source(raw: &[u8]) -> Result<(), rlp::DecoderError> {
+    let tag: u8 = rlp::Rlp::new(raw).at(1)?.at(2)?.val_at(0)?;
+    if tag > LAST_UPDATE_FROM_TAG {
+        return Err(rlp::DecoderError::Custom("unknown source of choke"));
+    }
+
+    Ok(())
+}
+
 pub fn gen_overlord_status(
     height: u64,
     interval: u64,
-- 
2.43.0


From aa23836022a331e62cbb1905c7a2c2701264a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 38/65] fix: tracing headers of a received network message must
 not panic the node

---
 core/network/src/message/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/network/src/message/mod.rs b/core/network/src/message/mod.rs
index 43647f7..3f2b753 100644
--- a/core/network/src/message/mod.rs
+++ b/core/network/src/message/mod.rs
@@ -53,15 +53,15 @@ impl NetworkMessage {
         self.headers.get("trace_id").and_then(|id| {
             String::from_utf8(id.to_owned())
                 .ok()
-                .map(|s| AxonTracer::str_to_trace(&s).unwrap())
+                .and_then(|s| AxonTracer::str_to_trace(&s).ok())
         })
     }
 
     pub fn span_id(&self) -> Option<u64> {
-        self.headers.get("span_id").map(|id| {
+        self.headers.get("span_id").and_then(|id| {
             let mut buf = [0u8; 8];
-            buf.copy_from_slice(&id[..8]);
-            u64::from_be_bytes(buf)
+            buf.copy_from_slice(id.get(..8)?);
+            Some(u64::from_be_bytes(buf))
         })
     }
 
-- 
2.43.0


From 1a8845f4db315c808fc9cd9945d1c96cf89d6935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 39/65] fix: removing an address unlinks it from the peer it is
 recorded under

---
 .../src/peer_manager/peer_store/addr_manager.rs     | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/network/src/peer_manager/peer_store/addr_manager.rs b/core/network/src/peer_manager/peer_store/addr_manager.rs
index e87e120..a93723c 100644
--- a/core/network/src/peer_manager/peer_store/addr_manager.rs
+++ b/core/network/src/peer_manager/peer_store/addr_manager.rs
@@ -107,13 +107,16 @@ impl Manager {
                 self.swap_random_id(random_id_pos, self.random_ids.len() - 1);
                 self.random_ids.pop();
 
-                if let Some(peer_id) = extract_peer_id(multiaddr) {
-                    self.peer_id_to_id
-                        .get_mut(&peer_id)
-                        .map(|set| set.remove(&id));
+                let info = self.id_to_info.remove(&id);
+                // the address may be recorded under another peer id than the one in the
+                // argument
+                if let Some(peer_id) = info.as_ref().and_then(|info| extract_peer_id(&info.addr)) {
+                    if let Some(set) = self.peer_id_to_id.get_mut(&peer_id) {
+                        set.remove(&id);
+                    }
                 }
 
-                self.id_to_info.remove(&id)
+                info
             })
         })
     }
-- 
2.43.0


From 377f46952fa39f5ce670f9ba779b39fd9fa3b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 40/65] fix: banning a connected peer names its session, so
 that it gets disconnected

---
 core/network/src/peer_manager/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 82f5fdc..7acd644 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -249,12 +249,12 @@ impl PeerManager {
     }
 
     pub fn ban_id(&self, peer_id: &PeerId, timeout: u64, ban_reason: String) -> Option<SessionId> {
-        if let Some(info) = self.online.read().peers.get(peer_id) {
+        self.online.read().peers.get(peer_id).map(|info| {
             self.peer_store
                 .write()
-                .ban_addr(&info.addr, timeout, ban_reason)
-        }
-        None
+                .ban_addr(&info.addr, timeout, ban_reason);
+            info.session_id
+        })
     }
 
     pub fn ban_session_id(&self, session_id: SessionId, timeout: u64, ban_reason: String) {
-- 
2.43.0


From 63128854ab208d4cae75193d1c8e1c698d3255d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 41/65] fix: no banned address is handed out for dialing or
 discovery

---
 .../src/peer_manager/peer_store/peer_store_impl.rs   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/network/src/peer_manager/peer_store/peer_store_impl.rs b/core/network/src/peer_manager/peer_store/peer_store_impl.rs
index 4640b94..aee3049 100644
--- a/core/network/src/peer_manager/peer_store/peer_store_impl.rs
+++ b/core/network/src/peer_manager/peer_store/peer_store_impl.rs
@@ -131,9 +131,11 @@ impl PeerStore {
         // Get info:
         // 1. Not already connected
         // 2. Connected within 3 days
+        // 3. Not banned
 
         let now_ms = faketime::unix_time_as_millis();
         let peers = &self.peers;
+        let ban_list = &self.ban_list;
         let addr_expired_ms = now_ms.saturating_sub(ADDR_TRY_TIMEOUT_MS);
         // get addrs that can attempt.
         self.addr_manager
@@ -144,6 +146,7 @@ impl PeerStore {
                     && peer_addr.connected(|t| {
                         t > addr_expired_ms && t <= now_ms.saturating_sub(DIAL_INTERVAL)
                     })
+                    && !ban_list.is_addr_banned(&peer_addr.addr)
             })
     }
 
@@ -158,6 +161,7 @@ impl PeerStore {
         let now_ms = faketime::unix_time_as_millis();
         let addr_expired_ms = now_ms.saturating_sub(ADDR_TRY_TIMEOUT_MS);
         let peers = &self.peers;
+        let ban_list = &self.ban_list;
         self.addr_manager
             .fetch_random(count, |peer_addr: &AddrInfo| {
                 extract_peer_id(&peer_addr.addr)
@@ -165,6 +169,7 @@ impl PeerStore {
                     .unwrap_or_default()
                     && !peer_addr.tried_in_last_minute(now_ms)
                     && !peer_addr.connected(|t| t > addr_expired_ms)
+                    && !ban_list.is_addr_banned(&peer_addr.addr)
             })
     }
 
@@ -176,13 +181,15 @@ impl PeerStore {
         let now_ms = faketime::unix_time_as_millis();
         let addr_expired_ms = now_ms.saturating_sub(ADDR_TIMEOUT_MS);
         let peers = &self.peers;
+        let ban_list = &self.ban_list;
         // get success connected addrs.
         self.addr_manager
             .fetch_random(count, |peer_addr: &AddrInfo| {
-                extract_peer_id(&peer_addr.addr)
+                (extract_peer_id(&peer_addr.addr)
                     .map(|peer_id| peers.contains_key(&peer_id))
                     .unwrap_or_default()
-                    || peer_addr.connected(|t| t > addr_expired_ms)
+                    || peer_addr.connected(|t| t > addr_expired_ms))
+                    && !ban_list.is_addr_banned(&peer_addr.addr)
             })
     }
 
@@ -193,6 +200,7 @@ impl PeerStore {
         self.addr_manager.get_by_peer_id(peer_id, |peer_addr| {
             peer_addr
                 .connected(|t| t > addr_expired_ms && t <= now_ms.saturating_sub(DIAL_INTERVAL))
+                && !self.ban_list.is_addr_banned(&peer_addr.addr)
         })
     }
 
-- 
2.43.0


From e2704f996f1803c8e854a888164c3b3387682016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 42/65] fix: connection limits hold for all peers but
 bootstraps and validators, and banned ones stay out

---
 core/network/src/peer_manager/mod.rs | 1 -
 core/network/src/service.rs          | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 7acd644..585aabe 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -232,7 +232,6 @@ impl PeerManager {
         let peer_id = extract_peer_id(addr).unwrap();
         self.bootstraps.contains_key(&peer_id)
             || self.consensus_list.read().contains(&peer_id)
-            || self.with_peer_store(|peer_store| !peer_store.is_addr_banned(addr))
     }
 
     pub fn local_listen_addrs(&self) -> Vec<Multiaddr> {
diff --git a/core/network/src/service.rs b/core/network/src/service.rs
index ac8c027..377edd2 100644
--- a/core/network/src/service.rs
+++ b/core/network/src/service.rs
@@ -666,7 +666,11 @@ impl ServiceHandle for ServiceHandler {
                         }
                     };
 
-                if disable && !self.peer_store.always_allow(&session_context.address) {
+                let banned = self.peer_store.with_peer_store(|peer_store| {
+                    peer_store.is_addr_banned(&session_context.address)
+                });
+
+                if (disable || banned) && !self.peer_store.always_allow(&session_context.address) {
                     let _ignore = control.disconnect(session_context.id).await;
                 } else {
                     self.peer_store.register(PeerInfo::new(session_context))
-- 
2.43.0


From 3d9410c8e9d62db89758f829a5766aa153302652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 43/65] fix: outbound dialing counts outbound connections, not
 inbound ones

---
 core/network/src/service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/src/service.rs b/core/network/src/service.rs
index 377edd2..0b88213 100644
--- a/core/network/src/service.rs
+++ b/core/network/src/service.rs
@@ -430,7 +430,7 @@ where
             .peer_mgr_handle
             .with_registry(|reg| reg.connection_status());
         let count = (self.config.max_connections - self.config.inbound_conn_limit)
-            .saturating_sub(status.inbound);
+            .saturating_sub(status.outbound);
         if count == 0 {
             self.try_identify_count = 0;
             return;
-- 
2.43.0


From 2be9b0c93c88c45e43841a3f407aa6e62977de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 44/65] fix: addresses observed by peers are dialed to verify
 them

---
 core/network/src/protocols/identify/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/network/src/protocols/identify/mod.rs b/core/network/src/protocols/identify/mod.rs
index 7206f17..25014db 100644
--- a/core/network/src/protocols/identify/mod.rs
+++ b/core/network/src/protocols/identify/mod.rs
@@ -186,9 +186,9 @@ impl IdentifyProtocol {
         }
     }
 
-    fn process_observed(
+    async fn process_observed(
         &mut self,
-        context: &mut ProtocolContextMutRef,
+        context: &mut ProtocolContextMutRef<'_>,
         observed: Option<Multiaddr>,
     ) -> MisbehaveResult {
         if observed.is_none() {
@@ -241,10 +241,14 @@ impl IdentifyProtocol {
             .chain(::std::iter::once(source_addr));
 
         for addr in observed_addrs_iter {
-            let _ignore = context.dial(
-                addr,
-                TargetProtocol::Single(crate::protocols::SupportProtocols::Identify.protocol_id()),
-            );
+            let _ignore = context
+                .dial(
+                    addr,
+                    TargetProtocol::Single(
+                        crate::protocols::SupportProtocols::Identify.protocol_id(),
+                    ),
+                )
+                .await;
         }
 
         MisbehaveResult::Continue
@@ -351,6 +355,7 @@ impl ServiceProtocol for IdentifyProtocol {
                             .is_disconnect()
                         || self
                             .process_observed(&mut context, addr_info.observed_addr())
+                            .await
                             .is_disconnect()
                     {
                         let _ = context.disconnect(session.id).await;
-- 
2.43.0


From b182df53ae0d40036a227995f49623f1f73c54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:09 +0000
Subject: [PATCH 45/65] fix: asking for an unknown filter with a large id does
 not panic

---
 core/api/src/jsonrpc/impl/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index bd9e727..3393184 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -246,7 +246,7 @@ where
             sender.send(res).unwrap()
         } else {
             sender
-                .send(Err(RpcError::CannotFindFilterId(id.as_u64()).into()))
+                .send(Err(RpcError::CannotFindFilterId(id.low_u64()).into()))
                 .unwrap()
         }
     }
-- 
2.43.0


From e66a058fa4cd1b2645e82b603727be3055f82791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:09 +0000
Subject: [PATCH 46/65] fix: asking for a transaction at a huge position does
 not panic

---
 core/api/src/jsonrpc/impl/web3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 79361f8..d7785c2 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -910,7 +910,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position.low_u64()).into());
         }
 
         let mut raw = [0u8; 32];
@@ -941,7 +941,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
         if position > U256::from(usize::MAX) {
-            return Err(RpcError::InvalidPosition(position.as_u64()).into());
+            return Err(RpcError::InvalidPosition(position.low_u64()).into());
         }
 
         let mut raw = [0u8; 32];
-- 
2.43.0


From 4d5c4347e3354345b71d2014a2dccbf1969a2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:09 +0000
Subject: [PATCH 47/65] fix: a client that hangs up while its filter request is
 served does not panic the node

---
 core/api/src/jsonrpc/impl/filter.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index 3393184..19b945f 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -212,7 +212,8 @@ where
                 }
 
                 self.logs_hub.insert(id, (filter, Instant::now()));
-                sender.send(id).unwrap()
+                // the requester may have gone away
+                let _ignore = sender.send(id);
             }
             Command::NewBlocks(sender) => {
                 let id = random_id();
@@ -223,13 +224,14 @@ where
                     .unwrap()
                     .unwrap();
                 self.blocks_hub.insert(id, (header.number, Instant::now()));
-                sender.send(id).unwrap()
+                // the requester may have gone away
+                let _ignore = sender.send(id);
             }
             Command::FilterRequest((id, sender)) => self.impl_filter(id, sender).await,
             Command::Uninstall((id, sender)) => {
                 let removed =
                     self.blocks_hub.remove(&id).is_some() || self.logs_hub.remove(&id).is_some();
-                sender.send(removed).unwrap()
+                let _ignore = sender.send(removed);
             }
         }
     }
@@ -237,17 +239,15 @@ where
     async fn impl_filter(&mut self, id: U256, sender: oneshot::Sender<RpcResult<FilterChanges>>) {
         if self.blocks_hub.contains_key(&id) {
             let res = Ok(FilterChanges::Blocks(self.filter_block(&id).await));
-            sender.send(res).unwrap()
+            let _ignore = sender.send(res);
         } else if self.logs_hub.contains_key(&id) {
             let res = self.filter_logs(&id).await.map(FilterChanges::Logs);
             if res.is_err() {
                 self.logs_hub.remove(&id);
             }
-            sender.send(res).unwrap()
+            let _ignore = sender.send(res);
         } else {
-            sender
-                .send(Err(RpcError::CannotFindFilterId(id.low_u64()).into()))
-                .unwrap()
+            let _ignore = sender.send(Err(RpcError::CannotFindFilterId(id.low_u64()).into()));
         }
     }
 
-- 
2.43.0


From 9c7f670829434c5308651cc5cfc5f6ffd01fac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 48/65] fix: a block named by an unknown hash is an error, not
 the latest block

---
 core/api/src/jsonrpc/impl/web3.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index d7785c2..bdda8fd 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -47,11 +47,13 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
         block_id: Option<BlockId>,
     ) -> Result<Option<BlockNumber>, RpcError> {
         match block_id {
-            Some(BlockId::Hash(ref hash)) => Ok(self
+            Some(BlockId::Hash(ref hash)) => self
                 .adapter
                 .get_block_number_by_hash(Context::new(), *hash)
                 .await
-                .map_err(|e| RpcError::Internal(e.to_string()))?),
+                .map_err(|e| RpcError::Internal(e.to_string()))?
+                .map(Some)
+                .ok_or(RpcError::CannotFindBlock),
             _ => Ok(block_id.unwrap_or_default().into()),
         }
     }
@@ -371,12 +373,8 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                     .map(|account| account.nonce + pending_tx_count)
                     .unwrap_or_default())
             }
-            BlockId::Hash(ref hash) => {
-                let number = self
-                    .adapter
-                    .get_block_number_by_hash(Context::new(), *hash)
-                    .await
-                    .map_err(|e| RpcError::Internal(e.to_string()))?;
+            id @ BlockId::Hash(_) => {
+                let number = self.get_block_number_by_id(Some(id)).await?;
                 Ok(self
                     .adapter
                     .get_account(Context::new(), address, number)
-- 
2.43.0


From d77a02d38259782d338c502a525eac7594d756a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 49/65] fix: methods that read a block by its number do not
 take a block's hash for the latest block

---
 core/api/src/jsonrpc/impl/web3.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index bdda8fd..9dd4f63 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -269,6 +269,10 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         number: BlockId,
         show_rich_tx: bool,
     ) -> RpcResult<Option<Web3Block>> {
+        if let BlockId::Hash(hash) = number {
+            return self.get_block_by_hash(hash, show_rich_tx).await;
+        }
+
         let block = self
             .adapter
             .get_block_by_number(Context::new(), number.into())
@@ -515,6 +519,10 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
 
     #[metrics_rpc("eth_getBlockTransactionCountByNumber")]
     async fn get_block_transaction_count_by_number(&self, number: BlockId) -> RpcResult<U256> {
+        if let BlockId::Hash(hash) = number {
+            return self.get_block_transaction_count_by_hash(hash).await;
+        }
+
         let block = self
             .adapter
             .get_block_by_number(Context::new(), number.into())
@@ -938,6 +946,12 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
         number: BlockId,
         position: U256,
     ) -> RpcResult<Option<Web3Transaction>> {
+        if let BlockId::Hash(hash) = number {
+            return self
+                .get_transaction_by_block_hash_and_index(hash, position)
+                .await;
+        }
+
         if position > U256::from(usize::MAX) {
             return Err(RpcError::InvalidPosition(position.low_u64()).into());
         }
-- 
2.43.0


From a2b7d8f939a350dbbf42398722c8b6320b1d79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 50/65] fix: eth_estimateGas runs at the block asked for,
 however it is named

---
 core/api/src/jsonrpc/impl/web3.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 9dd4f63..168441f 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -474,10 +474,7 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
             }
         }
 
-        let num = match number {
-            Some(BlockId::Num(n)) => Some(n.low_u64()),
-            _ => None,
-        };
+        let num = self.get_block_number_by_id(number).await?;
         let data_bytes = req
             .data
             .as_ref()
-- 
2.43.0


From a70817d7fa78687fd4e5dc420129effdf3f03866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 51/65] fix: logs are numbered within their block, and carry
 the index of their transaction

---
 core/api/src/jsonrpc/impl/filter.rs     | 3 +--
 core/api/src/jsonrpc/impl/web3.rs       | 8 +++-----
 core/api/src/jsonrpc/web3_types.rs      | 2 +-
 core/api/src/jsonrpc/ws_subscription.rs | 4 ----
 4 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index 19b945f..35e7dd4 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -334,9 +334,8 @@ where
             );
         }
         let extend_logs = |logs: &mut Vec<Web3Log>, receipts: Vec<Option<Receipt>>| {
-            for (index, receipt) in receipts.into_iter().flatten().enumerate() {
+            for receipt in receipts.into_iter().flatten() {
                 from_receipt_to_web3_log(
-                    index,
                     topics,
                     filter.address.as_ref().unwrap_or(&Vec::new()),
                     &receipt,
diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 168441f..0b3a5c0 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -597,9 +597,8 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
             let extend_logs = |logs: &mut Vec<Web3Log>,
                                receipts: Vec<Option<Receipt>>,
                                early_return: &mut bool| {
-                for (index, receipt) in receipts.into_iter().flatten().enumerate() {
+                for receipt in receipts.into_iter().flatten() {
                     from_receipt_to_web3_log(
-                        index,
                         topics,
                         address.as_ref().unwrap_or(&&Vec::new()),
                         &receipt,
@@ -1138,7 +1137,6 @@ fn mock_header_by_call_req(latest_header: Header, call_req: &Web3CallRequest) ->
 }
 
 pub fn from_receipt_to_web3_log(
-    index: usize,
     topics: &[Option<Vec<Option<Hash>>>],
     address: &[H160],
     receipt: &Receipt,
@@ -1172,8 +1170,8 @@ pub fn from_receipt_to_web3_log(
                 block_hash:        Some(receipt.block_hash),
                 block_number:      Some(receipt.block_number.into()),
                 transaction_hash:  Some(receipt.tx_hash),
-                transaction_index: Some(index.into()),
-                log_index:         Some(log_idex.into()),
+                transaction_index: Some(receipt.tx_index.into()),
+                log_index:         Some((receipt.log_index as usize + log_idex).into()),
                 removed:           false,
             };
             logs.push(web3_log);
diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 07ed454..88c7a40 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -206,7 +206,7 @@ impl Web3Receipt {
                 block_hash:        receipt.block_hash,
                 transaction_hash:  receipt.tx_hash,
                 transaction_index: Some(receipt.tx_index.into()),
-                log_index:         idx.into(),
+                log_index:         (receipt.log_index as usize + idx).into(),
                 removed:           false,
             })
             .collect::<Vec<_>>();
diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index 46b197a..f9c15ca 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -182,13 +182,10 @@ where
                     .await
                     .unwrap();
 
-                let mut index = 0;
                 let mut logs = Vec::new();
                 for receipt in receipts.into_iter().flatten() {
-                    let log_len = receipt.logs.len();
                     for hub in self.log_hubs.iter_mut() {
                         from_receipt_to_web3_log(
-                            index,
                             hub.filter.topics.as_slice(),
                             hub.filter.address.as_ref().unwrap_or(&Vec::new()),
                             &receipt,
@@ -201,7 +198,6 @@ where
                             let _ignore = hub.sink.send(msg);
                         }
                     }
-                    index += log_len;
                 }
             }
         }
-- 
2.43.0


From 431d2890ff229e55f803b56f494023f7c7ca8cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 52/65] fix: eth_submitWork answers to its name

---
 core/api/src/jsonrpc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/api/src/jsonrpc/mod.rs b/core/api/src/jsonrpc/mod.rs
index d1b9585..e2e879d 100644
--- a/core/api/src/jsonrpc/mod.rs
+++ b/core/api/src/jsonrpc/mod.rs
@@ -200,7 +200,7 @@ pub trait AxonNodeRpc {
     #[method(name = "eth_hashrate")]
     fn hashrate(&self) -> RpcResult<U256>;
 
-    #[method(name = "eth_submitWork ")]
+    #[method(name = "eth_submitWork")]
     fn submit_work(&self, _nc: U256, _hash: H256, _summary: Hex) -> RpcResult<bool>;
 
     #[method(name = "eth_submitHashrate")]
-- 
2.43.0


From 32bc306358465beec4688f57f35ff45e2a6c539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 53/65] fix: receipts report the gas price paid and the gas
 used in the block so far

---
 core/api/src/jsonrpc/impl/web3.rs  | 24 +++++++++++++++++++++++-
 core/api/src/jsonrpc/web3_types.rs | 10 +++++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 0b3a5c0..e197871 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -93,6 +93,27 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             .await
     }
 
+    /// The gas used in the block up to and including the transaction.
+    async fn cumulative_gas_used(&self, receipt: &Receipt) -> Result<U64, RpcError> {
+        let block = self
+            .adapter
+            .get_block_by_number(Context::new(), Some(receipt.block_number))
+            .await
+            .map_err(|e| RpcError::Internal(e.to_string()))?
+            .ok_or(RpcError::CannotFindBlock)?;
+        let before = &block.tx_hashes[..(receipt.tx_index as usize).min(block.tx_hashes.len())];
+        let used = self
+            .adapter
+            .get_receipts_by_hashes(Context::new(), receipt.block_number, before)
+            .await
+            .map_err(|e| RpcError::Internal(e.to_string()))?
+            .into_iter()
+            .flatten()
+            .fold(U64::zero(), |sum, r| sum + r.used_gas);
+
+        Ok(used + receipt.used_gas)
+    }
+
     async fn calculate_rewards(
         &self,
         block_number: u64,
@@ -548,7 +569,8 @@ impl<Adapter: APIAdapter + 'static> Web3RpcServer for Web3RpcImpl<Adapter> {
                 .await
                 .map_err(|e| RpcError::Internal(e.to_string()))?
             {
-                return Ok(Some(Web3Receipt::new(receipt, stx)));
+                let cumulative_gas_used = self.cumulative_gas_used(&receipt).await?;
+                return Ok(Some(Web3Receipt::new(receipt, stx, cumulative_gas_used)));
             }
         }
 
diff --git a/core/api/src/jsonrpc/web3_types.rs b/core/api/src/jsonrpc/web3_types.rs
index 88c7a40..47ed7d3 100644
--- a/core/api/src/jsonrpc/web3_types.rs
+++ b/core/api/src/jsonrpc/web3_types.rs
@@ -193,7 +193,11 @@ pub struct Web3ReceiptLog {
 }
 
 impl Web3Receipt {
-    pub fn new(receipt: Receipt, stx: SignedTransaction) -> Web3Receipt {
+    pub fn new(
+        receipt: Receipt,
+        stx: SignedTransaction,
+        cumulative_gas_used: U64,
+    ) -> Web3Receipt {
         let logs_list = receipt
             .logs
             .iter()
@@ -215,8 +219,8 @@ impl Web3Receipt {
             block_number:        receipt.block_number.into(),
             block_hash:          receipt.block_hash,
             contract_address:    receipt.code_address.map(Into::into),
-            cumulative_gas_used: receipt.used_gas,
-            effective_gas_price: receipt.used_gas,
+            cumulative_gas_used,
+            effective_gas_price: stx.transaction.unsigned.gas_price(),
             from:                receipt.sender,
             status:              receipt.status(),
             gas_used:            receipt.used_gas,
-- 
2.43.0


From 217e68fb7d268b72c43ece09e229d736caaf9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 54/65] fix: eth_feeHistory covers the blocks asked for, with
 one base fee each and one for the next

---
 core/api/src/jsonrpc/impl/web3.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index e197871..2fb0003 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -170,8 +170,8 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
 
         let latest_block_number = latest_block.header.number;
         let oldest_block_number = latest_block_number
-            .saturating_sub(block_count.as_u64())
-            .saturating_add(1);
+            .saturating_add(1)
+            .saturating_sub(block_count.low_u64());
 
         let mut bash_fee_per_gases: Vec<U64> = Vec::new();
         let mut gas_used_ratios: Vec<f64> = Vec::new();
@@ -190,7 +190,6 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             let gas_used_ratio = calculate_gas_used_ratio(&block);
             gas_used_ratios.push(gas_used_ratio);
             bash_fee_per_gases.push(block.header.base_fee_per_gas);
-            bash_fee_per_gases.push(next_block_base_fee_per_gas());
 
             if let Some(reward_percentiles) = reward_percentiles.clone() {
                 let txs = block.tx_hashes;
@@ -205,6 +204,8 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             }
         }
 
+        bash_fee_per_gases.push(next_block_base_fee_per_gas());
+
         Ok((
             oldest_block_number,
             bash_fee_per_gases,
-- 
2.43.0


From b32bf60f5908a6e73f5a4472af4761e6096ccb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 55/65] fix: eth_feeHistory gives the gas used as a ratio of
 the limit

---
 core/api/src/jsonrpc/impl/web3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 2fb0003..2c4dd03 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -1105,7 +1105,7 @@ fn check_reward_percentiles(reward_percentiles: &Option<Vec<f64>>) -> RpcResult<
 fn calculate_gas_used_ratio(block: &Block) -> f64 {
     (block.header.gas_limit != U64::zero())
         .then(|| {
-            block.header.gas_used.low_u64() as f64 / block.header.gas_limit.as_u64() as f64 * 100f64
+            block.header.gas_used.low_u64() as f64 / block.header.gas_limit.as_u64() as f64
         })
         .unwrap_or(0f64)
 }
-- 
2.43.0


From 67235fdcb4f2eb988aea3f805e54ac5d82a8aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 56/65] fix: eth_feeHistory refuses every percentile outside of
 0 to 100

---
 core/api/src/jsonrpc/impl/web3.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 2c4dd03..0dcf9a0 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -1093,11 +1093,16 @@ fn check_reward_percentiles(reward_percentiles: &Option<Vec<f64>>) -> RpcResult<
         .and_then(|percentiles| {
             percentiles
                 .windows(2)
-                .enumerate()
-                .find(|(_, window)| window[0] >= window[1] || window[0] < 0.0 || window[0] > 100.0)
-                .map(|(_, vec)| vec)
+                .find(|window| window[0] >= window[1])
+                .map(|window| (window[0], window[1]))
+                .or_else(|| {
+                    percentiles
+                        .iter()
+                        .find(|p| !(0.0..=100.0).contains(*p))
+                        .map(|p| (*p, *p))
+                })
         })
-        .map(|vec| Err(RpcError::InvalidRewardPercentiles(vec[0], vec[1]).into()))
+        .map(|(a, b)| Err(RpcError::InvalidRewardPercentiles(a, b).into()))
         .unwrap_or(Ok(()))
 }
 
-- 
2.43.0


From e28a5349733cdfa76b373f09acbf7301d1ff7ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 57/65] fix: eth_feeHistory gives priority fees, weighted by
 the gas used, as rewards

---
 core/api/src/jsonrpc/impl/web3.rs | 58 ++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/web3.rs b/core/api/src/jsonrpc/impl/web3.rs
index 0dcf9a0..24987cc 100644
--- a/core/api/src/jsonrpc/impl/web3.rs
+++ b/core/api/src/jsonrpc/impl/web3.rs
@@ -128,26 +128,24 @@ impl<Adapter: APIAdapter> Web3RpcImpl<Adapter> {
             .await
             .map_err(|e| RpcError::Internal(e.to_string()))?;
 
-        let effective_priority_fees: Vec<U64> = receipts
-            .iter()
-            .map(|receipt| {
-                receipt
-                    .as_ref()
-                    .map(|r| r.used_gas.saturating_sub(base_fee_par_gas))
-                    .unwrap_or(U64::zero())
-            })
-            .collect();
+        // the priority fee per gas and the gas used of each transaction
+        let mut priority_fees: Vec<(U64, U64)> = Vec::with_capacity(receipts.len());
+        for receipt in receipts.into_iter().flatten() {
+            if let Some(stx) = self
+                .adapter
+                .get_transaction_by_hash(Context::new(), receipt.tx_hash)
+                .await
+                .map_err(|e| RpcError::Internal(e.to_string()))?
+            {
+                let gas_price = stx.transaction.unsigned.gas_price();
+                priority_fees.push((gas_price.saturating_sub(base_fee_par_gas), receipt.used_gas));
+            }
+        }
+        priority_fees.sort();
 
         let reward_vec: Vec<U64> = reward_percentiles
             .iter()
-            .map(|percentile| {
-                let index =
-                    calculate_effective_priority_fees_index(percentile, &effective_priority_fees);
-                effective_priority_fees
-                    .get(index)
-                    .cloned()
-                    .unwrap_or(U64::zero())
-            })
+            .map(|percentile| calculate_priority_fee_at(*percentile, &priority_fees))
             .collect();
 
         reward.push(reward_vec);
@@ -1115,14 +1113,24 @@ fn calculate_gas_used_ratio(block: &Block) -> f64 {
         .unwrap_or(0f64)
 }
 
-// Calculates the effective priority fees index in the effective priority fees
-// vector.
-fn calculate_effective_priority_fees_index(
-    percentile: &f64,
-    effective_priority_fees: &Vec<U64>,
-) -> usize {
-    ((percentile * effective_priority_fees.len() as f64 / 100f64).floor() as usize)
-        .saturating_sub(1)
+// The priority fee at the percentile of the gas used, in the transactions'
+// priority fees and gas used sorted in ascending order.
+fn calculate_priority_fee_at(percentile: f64, priority_fees: &[(U64, U64)]) -> U64 {
+    let total_gas: u64 = priority_fees.iter().map(|(_, gas)| gas.low_u64()).sum();
+    let threshold = (total_gas as f64 * percentile / 100f64) as u64;
+
+    let mut gas = 0;
+    for (fee, used) in priority_fees {
+        gas += used.low_u64();
+        if gas >= threshold {
+            return *fee;
+        }
+    }
+
+    priority_fees
+        .last()
+        .map(|(fee, _)| *fee)
+        .unwrap_or_default()
 }
 
 // Get the base fee per gas for the next block.
-- 
2.43.0


From 600fd06d0f6e9cd48cc3917dd6690b5abb83cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 58/65] fix: a filter that is polled stays alive, also when
 there is nothing new

---
 core/api/src/jsonrpc/impl/filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/api/src/jsonrpc/impl/filter.rs b/core/api/src/jsonrpc/impl/filter.rs
index 35e7dd4..5015b41 100644
--- a/core/api/src/jsonrpc/impl/filter.rs
+++ b/core/api/src/jsonrpc/impl/filter.rs
@@ -253,6 +253,7 @@ where
 
     async fn filter_block(&mut self, id: &U256) -> Vec<H256> {
         let (start, time) = self.blocks_hub.get_mut(id).unwrap();
+        *time = Instant::now();
         let latest = self
             .adapter
             .get_block_by_number(Context::new(), None)
@@ -279,13 +280,13 @@ where
         block_hashes.push(latest.hash());
 
         *start = latest.header.number;
-        *time = Instant::now();
 
         block_hashes
     }
 
     async fn filter_logs(&mut self, id: &U256) -> RpcResult<Vec<Web3Log>> {
         let (filter, time) = self.logs_hub.get_mut(id).unwrap();
+        *time = Instant::now();
 
         let topics = filter.topics.as_slice();
 
@@ -382,7 +383,6 @@ where
         if let Some(BlockId::Num(ref mut n)) = filter.from_block {
             *n = U64::from(end + 1)
         }
-        *time = Instant::now();
         Ok(all_logs)
     }
 }
-- 
2.43.0


From 8364fca797e5e04c6aa397b091b3a0f71d048001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 59/65] fix: websocket subscribers are sent what they
 subscribed to

---
 core/api/src/jsonrpc/ws_subscription.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/api/src/jsonrpc/ws_subscription.rs b/core/api/src/jsonrpc/ws_subscription.rs
index f9c15ca..b52b6e9 100644
--- a/core/api/src/jsonrpc/ws_subscription.rs
+++ b/core/api/src/jsonrpc/ws_subscription.rs
@@ -134,7 +134,7 @@ where
                 let msg = SubscriptionMessage::from_json(&web3_header).unwrap();
 
                 for hub in self.header_hubs.iter_mut() {
-                    let _ignore = hub.sink.send(msg.clone());
+                    let _ignore = hub.sink.try_send(msg.clone());
                 }
             }
 
@@ -142,7 +142,7 @@ where
             let msg = SubscriptionMessage::from_json(&latest_web3_header).unwrap();
 
             for hub in self.header_hubs.iter_mut() {
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.try_send(msg.clone());
             }
         }
 
@@ -152,8 +152,7 @@ where
             let msg = SubscriptionMessage::from_json(&web3_sync_state).unwrap();
 
             for hub in self.sync_hubs.iter_mut() {
-                // unbound sender can ignore it's return
-                let _ignore = hub.sink.send(msg.clone());
+                let _ignore = hub.sink.try_send(msg.clone());
             }
         }
 
@@ -194,8 +193,7 @@ where
 
                         for log in logs.drain(..) {
                             let msg = SubscriptionMessage::from_json(&log).unwrap();
-                            // unbound sender can ignore it's return
-                            let _ignore = hub.sink.send(msg);
+                            let _ignore = hub.sink.try_send(msg);
                         }
                     }
                 }
-- 
2.43.0


From 7f0ffc1d47b248aabef72e51276de928c513c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 60/65] fix: log rotation twice in a second overwrites the
 first archive

---
 common/logger/src/date_fixed_roller.rs | 33 ++++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/common/logger/src/date_fixed_roller.rs b/common/logger/src/date_fixed_roller.rs
index e4ccc91..7a2c427 100644
--- a/common/logger/src/date_fixed_roller.rs
+++ b/common/logger/src/date_fixed_roller.rs
@@ -49,12 +49,27 @@ impl DateFixedWindowRoller {
         DateFixedWindowRollerBuilder
     }
 
+    fn archived_log(&self, date: &str, timestamp: &str) -> String {
+        let partial_log = self.pattern.replace("{date}", date);
+        partial_log.replace("{timestamp}", timestamp)
+    }
+
+    /// The timestamp to archive under: more than one roll may happen within
+    /// one second, and an earlier archive must not be overwritten.
+    fn unused_timestamp(&self, date: &str, timestamp: i64) -> String {
+        let mut ret = timestamp.to_string();
+        let mut count = 0;
+        while self.pattern.contains("{timestamp}")
+            && Path::new(&self.archived_log(date, &ret)).exists()
+        {
+            count += 1;
+            ret = format!("{}.{}", timestamp, count);
+        }
+        ret
+    }
+
     fn roll_file(&self, cur_log: &Path, date: &str, timestamp: &str) -> Result<(), anyhow::Error> {
-        let archived_log = {
-            let pattern = self.pattern.clone();
-            let partial_log = pattern.replace("{date}", date);
-            partial_log.replace("{timestamp}", timestamp)
-        };
+        let archived_log = self.archived_log(date, timestamp);
 
         if let Some(parent) = Path::new(&archived_log).parent() {
             fs::create_dir_all(parent)?;
@@ -75,11 +90,9 @@ impl DateFixedWindowRoller {
 impl Roll for DateFixedWindowRoller {
     fn roll(&self, cur_log: &Path) -> Result<(), anyhow::Error> {
         let now = Utc::now();
-        self.roll_file(
-            cur_log,
-            &now.format("%Y-%m-%d").to_string(),
-            &now.timestamp().to_string(),
-        )
+        let date = now.format("%Y-%m-%d").to_string();
+        let timestamp = self.unused_timestamp(&date, now.timestamp());
+        self.roll_file(cur_log, &date, &timestamp)
     }
 }
 
-- 
2.43.0


From 6d31ad205cb039466b1bd1126e539de94b699879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 61/65] fix: loggers of modules_level ignore log_to_console and
 log_to_file

---
 common/logger/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/common/logger/src/lib.rs b/common/logger/src/lib.rs
index 99aea9e..ae0f8fd 100644
--- a/common/logger/src/lib.rs
+++ b/common/logger/src/lib.rs
@@ -126,11 +126,14 @@ pub fn init<S: ::std::hash::BuildHasher>(
         .logger(cli_logger);
 
     for (module, level) in &modules_level {
-        let module_logger = Logger::builder()
-            .additive(false)
-            .appender("console")
-            .appender("file")
-            .build(module, convert_level(level));
+        let mut logger_builder = Logger::builder().additive(false);
+        if log_to_console {
+            logger_builder = logger_builder.appender("console");
+        }
+        if log_to_file {
+            logger_builder = logger_builder.appender("file");
+        }
+        let module_logger = logger_builder.build(module, convert_level(level));
         config_builder = config_builder.logger(module_logger);
     }
     let config = config_builder.build(root).unwrap();
-- 
2.43.0


From af918756b32de29a0e44a39d7aee234b75c45509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 62/65] fix: an answer of an unexpected shape panics the ckb
 rpc client

---
 core/rpc-client/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/rpc-client/src/client.rs b/core/rpc-client/src/client.rs
index 4c31647..17f9cb9 100644
--- a/core/rpc-client/src/client.rs
+++ b/core/rpc-client/src/client.rs
@@ -60,7 +60,8 @@ macro_rules! jsonrpc {
 
             match output {
                 jsonrpc_core::response::Output::Success(success) => {
-                    Ok(serde_json::from_value::<$return>(success.result).unwrap())
+                    serde_json::from_value::<$return>(success.result)
+                        .map_err(|e| ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(e)))
                 }
                 jsonrpc_core::response::Output::Failure(e) => {
                     Err(ProtocolError::new(ProtocolErrorKind::CkbClient, Box::new(io::Error::new(io::ErrorKind::InvalidData, format!("{:?}", e)))))
-- 
2.43.0


From 373f3e97fcfc4c3ab610a499a90c2a515ea1f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 63/65] fix: concurrent ckb rpc calls share an id

---
 core/rpc-client/src/client.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/rpc-client/src/client.rs b/core/rpc-client/src/client.rs
index 17f9cb9..d1ad5fc 100644
--- a/core/rpc-client/src/client.rs
+++ b/core/rpc-client/src/client.rs
@@ -34,11 +34,10 @@ macro_rules! jsonrpc {
     ($method:expr, $id:expr, $self:ident, $return:ty$(, $params:ident$(,)?)*) => {{
         let data = format!(
             r#"{{"id": {}, "jsonrpc": "2.0", "method": "{}", "params": {}}}"#,
-            $self.id.load(Ordering::Relaxed),
+            $self.id.fetch_add(1, Ordering::Relaxed),
             $method,
             serde_json::to_value(($($params,)*)).unwrap()
         );
-        $self.id.fetch_add(1, Ordering::Relaxed);
 
         let req_json: serde_json::Value = serde_json::from_str(&data).unwrap();
 
-- 
2.43.0


From 611dea69b1a76003a86ad50c11be1220c445c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:00 +0000
Subject: [PATCH 64/65] fix: init with an invalid validator public key leaves
 an uninitialised database behind

---
 core/run/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/run/src/lib.rs b/core/run/src/lib.rs
index 34036f6..c2fedea 100644
--- a/core/run/src/lib.rs
+++ b/core/run/src/lib.rs
@@ -14,8 +14,8 @@ use protocol::traits::{
     Context, Executor, Gossip, MemPool, Network, NodeInfo, PeerTrust, ReadOnlyStorage, Rpc, Storage,
 };
 use protocol::types::{
-    Block, Bloom, BloomInput, ConsensusValidator, ExecResp, HardforkInfoInner, Header, Metadata,
-    Proposal, RichBlock, SignedTransaction, ValidatorExtend, H256,
+    Address, Block, Bloom, BloomInput, ConsensusValidator, ExecResp, HardforkInfoInner, Header,
+    Metadata, Proposal, RichBlock, SignedTransaction, ValidatorExtend, H256,
 };
 use protocol::{lazy::CHAIN_ID, trie::DB as TrieDB, ProtocolResult};
 
@@ -51,6 +51,9 @@ use key_provider::KeyP;
 
 pub fn init(config: Config, spec: ChainSpec) -> ProtocolResult<()> {
     let genesis = spec.generate_genesis_block();
+    for verifier in spec.params.verifier_list.iter() {
+        Address::from_pubkey_bytes(verifier.pub_key.as_bytes())?;
+    }
 
     let path_rocksdb = config.data_path_for_rocksdb();
     if path_rocksdb.exists() {
-- 
2.43.0


From 879d16235786d61eeddb1cc888587b2a46624b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 65/65] fix: the span of a traced function that cannot fail
 ends before it runs

---
 common/apm-derive/src/trace_expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/apm-derive/src/trace_expand.rs b/common/apm-derive/src/trace_expand.rs
index cf9fbdf..5435697 100644
--- a/common/apm-derive/src/trace_expand.rs
+++ b/common/apm-derive/src/trace_expand.rs
@@ -67,7 +67,7 @@ pub fn expand_trace_span(attr: TokenStream, func: TokenStream) -> TokenStream {
     } else if func_return.is_ret_pin_box_fut() && !func_return.is_fut_ret_result() {
         quote! {
             Box::pin(async move {
-                let _ = span;
+                let _span = span;
                 #func_block.await
             })
         }
-- 
2.43.0


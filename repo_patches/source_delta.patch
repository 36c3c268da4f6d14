From bc2db1313556ac80d228e359e92bb36af621f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 01/12] fix: merge carried node in merkle accumulator add_leaf

---
 sia/src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/merkle.rs b/sia/src/merkle.rs
index 1b1d4f5..3dc8d90 100644
--- a/sia/src/merkle.rs
+++ b/sia/src/merkle.rs
@@ -31,7 +31,7 @@ impl Accumulator {
         let mut i = 0;
         let mut node = *h;
         while self.has_tree_at_height(i) {
-            node = sum_node(&self.params, &self.trees[i], h);
+            node = sum_node(&self.params, &self.trees[i], &node);
             i += 1;
         }
         self.trees[i] = node;
-- 
2.43.0


From 72d5c5dec0dc48340ad6e4acaf554e466652f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 02/12] fix: hash every segment in sector_root

---
 sia/src/rhp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index bfaf2bd..81101e2 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -22,8 +22,8 @@ pub fn sector_root(sector: &[u8]) -> Hash256 {
             let mut inputs = [[0u8; SEGMENT_SIZE + 1]; 4];
             for (j, input) in inputs.iter_mut().enumerate() {
                 input[0] = LEAF_HASH_PREFIX[0];
-                input[1..]
-                    .copy_from_slice(&sector[SEGMENT_SIZE * (i + j)..SEGMENT_SIZE * (i + j + 1)]);
+                let leaf = 4 * i + j;
+                input[1..].copy_from_slice(&sector[SEGMENT_SIZE * leaf..SEGMENT_SIZE * (leaf + 1)]);
             }
 
             // hash them
-- 
2.43.0


From d13660efd7a37ea14ab5f6dc294dac8dece455df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 03/12] fix: do not preallocate from an untrusted length when
 decoding a Vec

---
 sia/src/encoding/v1.rs | 4 +++-
 sia/src/encoding/v2.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index 59ece0d..f8caf20 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -1,3 +1,4 @@
+use crate::encoding::v2::MAX_INITIAL_CAPACITY;
 use crate::encoding::{Error, Result};
 use std::io::{Read, Write};
 
@@ -116,7 +117,8 @@ where
 {
     fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode_v1(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // the length is not trusted, it must not size the initial allocation
+        let mut vec = Vec::with_capacity(len.min(MAX_INITIAL_CAPACITY));
         for _ in 0..len {
             vec.push(T::decode_v1(r)?);
         }
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index db53b28..a804d0f 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -16,6 +16,10 @@ pub enum Error {
     Custom(String),
 }
 
+/// The maximum number of elements to allocate space for before any of them has
+/// been decoded.
+pub(crate) const MAX_INITIAL_CAPACITY: usize = 1024;
+
 pub type Result<T> = std::result::Result<T, Error>;
 
 pub trait SiaEncodable {
@@ -162,7 +166,8 @@ where
 {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // the length is not trusted, it must not size the initial allocation
+        let mut vec = Vec::with_capacity(len.min(MAX_INITIAL_CAPACITY));
         for _ in 0..len {
             vec.push(T::decode(r)?);
         }
-- 
2.43.0


From 9cc7ef18a5972f74fe869117edfe978d5ad6e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 04/12] fix: return an error for an out of range timestamp
 instead of panicking

---
 sia/src/encoding/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index a804d0f..26cd949 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -71,7 +71,7 @@ impl SiaEncodable for OffsetDateTime {
 impl SiaDecodable for OffsetDateTime {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let timestamp = i64::decode(r)?;
-        Ok(OffsetDateTime::from_unix_timestamp(timestamp).unwrap())
+        OffsetDateTime::from_unix_timestamp(timestamp).map_err(|_| Error::InvalidTimestamp)
     }
 }
 
-- 
2.43.0


From 77a269d234bfad044763f65789a5f784b0b4ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 05/12] fix: reject signatures of an invalid public key instead
 of panicking

---
 sia/src/signing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 5a41db7..95f4eda 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -48,7 +48,10 @@ impl PublicKey {
     }
 
     pub fn verify(&self, sig_hash: &Hash256, signature: &Signature) -> bool {
-        let pk = VerifyingKey::from_bytes(&self.0).unwrap();
+        let pk = match VerifyingKey::from_bytes(&self.0) {
+            Ok(pk) => pk,
+            Err(_) => return false, // not a valid curve point
+        };
         pk.verify(
             sig_hash.as_ref(),
             &ED25519Signature::from_bytes(signature.as_ref()),
-- 
2.43.0


From ee1290881c4968552a05cfed31ba7ffb904bb673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 06/12] fix: reject currency strings that are not representable

---
 sia/src/types/currency.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index d9be540..0a80963 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -188,6 +188,9 @@ impl Currency {
             ));
         }
 
+        // the number of decimal digits of a hasting in one unit
+        let precision = (SIACOIN_PRECISION_I32 + scaling_factor) as u32;
+
         let integer_part = parts[0]
             .parse::<u128>()
             .map_err(|_| CurrencyParseError::InvalidFormat("invalid integer part".to_string()))?;
@@ -199,12 +202,21 @@ impl Currency {
             0
         };
 
-        let frac_digits = parts.get(1).map_or(0, |frac| frac.len() as i32);
-        let integer = integer_part * 10u128.pow((SIACOIN_PRECISION_I32 + scaling_factor) as u32);
-        let fraction = fraction_part
-            * 10u128.pow((SIACOIN_PRECISION_I32 - frac_digits + scaling_factor) as u32);
+        let frac_digits = parts.get(1).map_or(0, |frac| frac.len());
+        if frac_digits > precision as usize {
+            return Err(CurrencyParseError::InvalidFormat(
+                "too many fractional digits".to_string(),
+            ));
+        }
 
-        Ok(Currency::new(integer + fraction))
+        let integer = integer_part.checked_mul(10u128.pow(precision));
+        let fraction = fraction_part.checked_mul(10u128.pow(precision - frac_digits as u32));
+        match (integer, fraction) {
+            (Some(integer), Some(fraction)) => integer.checked_add(fraction),
+            _ => None,
+        }
+        .map(Currency::new)
+        .ok_or_else(|| CurrencyParseError::InvalidFormat("value out of range".to_string()))
     }
 
     /// Converts a given amount of Siacoins into the `Currency` type.
-- 
2.43.0


From 392a792ac6ec1d81e3d01e9525a22e2e77f0d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 07/12] fix: propagate write errors when encoding the state
 timestamps

---
 sia/src/consensus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 537736b..f195f38 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -383,7 +383,7 @@ impl SiaEncodable for State {
         self.prev_timestamps
             .iter()
             .take(timestamps_count)
-            .for_each(|ts| ts.encode(w).unwrap());
+            .try_for_each(|ts| ts.encode(w))?;
         self.depth.encode(w)?;
         self.child_target.encode(w)?;
         self.siafund_pool.encode(w)?;
-- 
2.43.0


From deed259534668a62c58bfc322d23a3e297a53800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 08/12] fix: child height of the pre-genesis index is 0

---
 sia/src/types/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index de8e37f..4d6f733 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -154,7 +154,9 @@ pub struct ChainIndex {
 
 impl ChainIndex {
     pub fn child_height(&self) -> u64 {
-        self.height + 1
+        // the index before the genesis block has the maximum height, so that its
+        // child has height 0
+        self.height.wrapping_add(1)
     }
 }
 
-- 
2.43.0


From 4681ee8caa58ee68cbda363f3596fa22e7de9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 09/12] fix: bound the number of policies when decoding a spend
 policy

---
 sia/src/types/spendpolicy.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 3b36001..a0b41a6 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -21,6 +21,10 @@ const POLICY_OPAQUE_PREFIX: u8 = 6;
 #[deprecated]
 const POLICY_UNLOCK_CONDITIONS_PREFIX: u8 = 7;
 
+/// The maximum number of policies, nested policies included, that a policy may
+/// contain when it is decoded.
+const MAX_POLICIES: usize = 1024;
+
 const POLICY_ABOVE_STR: &str = "above";
 const POLICY_AFTER_STR: &str = "after";
 const POLICY_PUBLIC_KEY_STR: &str = "pk";
@@ -346,7 +350,10 @@ impl SiaEncodable for SpendPolicy {
 impl SiaDecodable for SpendPolicy {
     fn decode<R: std::io::Read>(r: &mut R) -> encoding::Result<Self> {
         // helper to recursively decode policies
-        fn decode_policy<R: std::io::Read>(r: &mut R) -> encoding::Result<SpendPolicy> {
+        fn decode_policy<R: std::io::Read>(
+            r: &mut R,
+            total: &mut usize,
+        ) -> encoding::Result<SpendPolicy> {
             let policy_type = u8::decode(r)?;
             match policy_type {
                 POLICY_ABOVE_PREFIX => Ok(SpendPolicy::Above(u64::decode(r)?)),
@@ -363,9 +370,13 @@ impl SiaDecodable for SpendPolicy {
                 POLICY_THRESHOLD_PREFIX => {
                     let of: u8 = u8::decode(r)?;
                     let n = u8::decode(r)?;
+                    *total += n as usize;
+                    if *total > MAX_POLICIES {
+                        return Err(encoding::Error::Custom("policy is too complex".to_string()));
+                    }
                     let mut policies = Vec::with_capacity(n as usize);
                     while policies.len() < n as usize {
-                        policies.push(decode_policy(r)?);
+                        policies.push(decode_policy(r, total)?);
                     }
                     Ok(SpendPolicy::Threshold(of, policies))
                 }
@@ -383,7 +394,7 @@ impl SiaDecodable for SpendPolicy {
                 "invalid policy version".to_string(),
             ));
         }
-        decode_policy(r)
+        decode_policy(r, &mut 1)
     }
 }
 
-- 
2.43.0


From d95d3102cfdb9382742ea33f453b12ea297a20fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 10/12] fix: add the missing domain separators to the v2
 contract output and renewal IDs

---
 sia/src/types/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index 4d6f733..f8b3e37 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -97,8 +97,8 @@ impl_hash_id!(FileContractID);
 
 impl FileContractID {
     const PROOF_OUTPUT_ID_PREFIX: Specifier = specifier!("storage proof");
-    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "id/v2filecontractoutput";
-    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "id/v2filecontractrenewal";
+    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "sia/id/v2filecontractoutput|";
+    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "sia/id/v2filecontractrenewal|";
 
     fn derive_proof_output_id<T: From<blake2b_simd::Hash>>(&self, valid: bool, i: usize) -> T {
         let mut state = Params::new().hash_length(32).to_state();
-- 
2.43.0


From 54cde835ee132f7b654440b315a2fa4a0b332843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 11/12] fix: foundation subsidy amount and address

---
 sia/src/consensus.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index f195f38..d87cb4a 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -495,13 +495,15 @@ impl ChainState {
         }
 
         let subsidy_per_block = Currency::siacoins(30000);
+        let subsidy_per_month = subsidy_per_block * Currency::new(blocks_per_month as u128);
         Some(SiacoinOutput {
+            // the initial subsidy covers a whole year
             value: if self.child_height() == self.network.hardfork_foundation.height {
-                subsidy_per_block * Currency::new(12)
+                subsidy_per_month * Currency::new(12)
             } else {
-                subsidy_per_block
+                subsidy_per_month
             },
-            address: self.network.hardfork_foundation.primary_address.clone(),
+            address: self.state.foundation_primary_address.clone(),
         })
     }
 
-- 
2.43.0


From 040182f15829a4034bf604b54f0cc50426581a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 12/12] fix: add the missing domain separator to the v2
 transaction ID

---
 sia/src/types/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sia/src/types/v2.rs b/sia/src/types/v2.rs
index 4405adb..a6bf436 100644
--- a/sia/src/types/v2.rs
+++ b/sia/src/types/v2.rs
@@ -513,6 +513,7 @@ impl Transaction {
 
     pub fn id(&self) -> TransactionID {
         let mut state = Params::new().hash_length(32).to_state();
+        state.update("sia/id/transaction|".as_bytes());
         self.encode_semantics(&mut state).unwrap();
         state.finalize().into()
     }
-- 
2.43.0


From d5b80c3dbde6d5bad99576563d40e1f679adb422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 01/15] fix: hmac pads the shortened key, so keys longer than
 the block size work

---
 jester_hashes/src/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_hashes/src/hmac.rs b/jester_hashes/src/hmac.rs
index b613313..0eca495 100644
--- a/jester_hashes/src/hmac.rs
+++ b/jester_hashes/src/hmac.rs
@@ -21,7 +21,7 @@ pub fn hmac<Hash, Context>(ctx: &Context, key: &[u8], message: &[u8]) -> Vec<u8>
     };
 
     let padded_key = if shortened_key.len() < block_size {
-        pad(key, block_size)
+        pad(&shortened_key, block_size)
     } else {
         shortened_key
     };
-- 
2.43.0


From eb070c83dc29ce1d137552f2321465104bbc08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 02/15] fix: hkdf_derive_key returns exactly output_length
 bytes

---
 jester_hashes/src/kdf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_hashes/src/kdf.rs b/jester_hashes/src/kdf.rs
index fb3482c..ec43aa6 100644
--- a/jester_hashes/src/kdf.rs
+++ b/jester_hashes/src/kdf.rs
@@ -20,7 +20,9 @@ pub fn hkdf_derive_key<Hash, Context>(
                         &vec![parts[i - 1].deref(), info, &[(i & 0xFF) as u8]].concat())
     }
 
-    parts.concat()
+    let mut derived_key = parts.concat();
+    derived_key.truncate(output_length);
+    derived_key
 }
 
 
-- 
2.43.0


From c46f770417ebf6993da9fbe69cecb149ce70c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 03/15] fix: powers of share coordinates no longer overflow the
 machine word

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 49d3a9c..00fc2ce 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -107,7 +107,7 @@ where
                         .clone()
                         .iter()
                         .fold(secret.clone(), |akk, (index, val)| {
-                            akk + val.clone() * BigUint::from_usize(pow(x, *index)).unwrap().into()
+                            akk + val.clone() * pow(BigUint::from_usize(x).unwrap(), *index).into()
                         }),
                 )
             })
-- 
2.43.0


From 478035ffe0dac607bf1af48b59eceb1103e89469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 04/15] fix: reconstruct_secret ignores surplus shares in the
 Lagrange coefficients

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 00fc2ce..fbd3c68 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -124,9 +124,11 @@ where
     /// Given that `threshold` matches the threshold at generation and enough shares are present, it will return an
     /// instance of `T` that is reconstructed from the shares
     fn reconstruct_secret(shares: &[(usize, T)], threshold: usize) -> T {
+        // surplus shares must not take part in the interpolation at all
+        let shares = &shares[..threshold.min(shares.len())];
+
         shares
             .iter()
-            .take(threshold)
             .map(|(i, share)| {
                 share.clone().mul(
                     shares
-- 
2.43.0


From da27b3d609300e73a57601354e055bd2781eee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 05/15] fix: converting i64::MIN into a prime field no longer
 overflows

---
 jester_maths/src/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_maths/src/prime.rs b/jester_maths/src/prime.rs
index 1fb8c15..2e2e94e 100644
--- a/jester_maths/src/prime.rs
+++ b/jester_maths/src/prime.rs
@@ -193,7 +193,7 @@ macro_rules! prime_fields {
                 impl num::FromPrimitive for $name {
                     fn from_i64(n: i64) -> Option<Self> {
                         if n < 0 {
-                            $crate::prime::num_bigint::BigUint::from_i64(-n).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
+                            $crate::prime::num_bigint::BigUint::from_u64(n.wrapping_neg() as u64).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
                         } else {
                             $crate::prime::num_bigint::BigUint::from_i64(n).map(|o| o.into())
                         }
-- 
2.43.0


From 2b81f471143d45c462dabf773540a9db641418d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 06/15] fix: RSA refuses numbers that are not below the modulus
 of the key

---
 jester_encryption/src/rsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_encryption/src/rsa.rs b/jester_encryption/src/rsa.rs
index c813ee1..68ae1e6 100644
--- a/jester_encryption/src/rsa.rs
+++ b/jester_encryption/src/rsa.rs
@@ -31,7 +31,7 @@ impl<P> AsymmetricalEncryptionScheme for RSACryptoSystem<P>
     /// Performs the RSA encryption on the message interpreted as an integer from `P` in little
     /// endian byte order
     fn encrypt_message(key: &Self::PublicKey, message: &[u8]) -> Vec<u8> {
-        let n = P::from_bytes_le(message);
+        let n = P::from_bytes_le(message).filter(|m| m.as_uint() < key.n.as_uint());
         if let Some(msg) = n {
             msg.modpow(&key.e, &key.n).as_bytes_le()
         } else {
@@ -42,7 +42,7 @@ impl<P> AsymmetricalEncryptionScheme for RSACryptoSystem<P>
     /// Performs the RSA decryption on the cipher interpreted as an integer from `P` in little
     /// endian byte order
     fn decrypt_message(key: &Self::PrivateKey, cipher: &[u8]) -> Vec<u8> {
-        let n = P::from_bytes_le(cipher);
+        let n = P::from_bytes_le(cipher).filter(|m| m.as_uint() < key.n.as_uint());
         if let Some(c) = n {
             c.modpow(&key.d, &key.n).as_bytes_le()
         } else {
-- 
2.43.0


From ac9d468107e404a84140eeea567a68e39d810041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 07/15] fix: remember the partner's new public key after a
 Diffie-Hellman ratchet step

---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4f3fa05..58fe128 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -543,6 +543,7 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
+            self.diffie_hellman_received_key = Some(message.public_key.clone());
 
             // update root chain
             self.root_chain_key = Some(updated_root_key);
-- 
2.43.0


From 6aa3fff5b6cd427a53ccb7598a9e7a39e4a7802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 08/15] fix: store the keys of missed messages under the
 numbers of those messages

---
 jester_double_ratchet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 58fe128..cc37778 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -484,7 +484,6 @@ where
             let (new_chain_key, output_key) =
                 MessageKdf::derive_key_without_input(self.receiving_chain_key.take().unwrap());
             self.receiving_chain_key = Some(new_chain_key);
-            self.receiving_chain_length += 1;
             self.missed_messages.insert(
                 (
                     self.diffie_hellman_received_key.clone().unwrap(),
@@ -492,6 +491,7 @@ where
                 ),
                 output_key,
             );
+            self.receiving_chain_length += 1;
             current_chain_missed_messages -= 1;
         }
 
@@ -516,7 +516,6 @@ where
 
             // if messages of this new chain were missed:
             while next_chain_missed_messages > 0 {
-                self.receiving_chain_length += 1;
                 let (updated_receiving_chain_key, message_key) =
                     MessageKdf::derive_key_without_input(receiving_chain_key);
                 receiving_chain_key = updated_receiving_chain_key;
@@ -524,6 +523,7 @@ where
                     (message.public_key.clone(), self.receiving_chain_length),
                     message_key,
                 );
+                self.receiving_chain_length += 1;
                 next_chain_missed_messages -= 1;
             }
 
-- 
2.43.0


From ee6697476ba3d1eba1a9529ae4fc0f522efe8753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 09/15] fix: count the missed messages of a new receiving chain
 as part of it

---
 jester_double_ratchet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index cc37778..9e4d3cb 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -552,7 +552,7 @@ where
             self.previous_receiving_chain_length = self.receiving_chain_length;
             self.previous_sending_chain_length = self.sending_chain_length;
             self.sending_chain_length = 0;
-            self.receiving_chain_length = 1;
+            self.receiving_chain_length += 1;
 
             message_key
         } else {
-- 
2.43.0


From c51da24d8673bcb0a7a18061971189399d09c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 10/15] fix: messages of earlier receiving chains no longer
 start a new chain

---
 jester_double_ratchet/src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 9e4d3cb..2cfc660 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -5,7 +5,7 @@ use rand::{CryptoRng, RngCore};
 use crate::DecryptionException::{OutOfOrderMessage, UnknownMessageHeader};
 use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
 use jester_encryption::SymmetricalEncryptionScheme;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hash;
 
 #[cfg(test)]
@@ -162,6 +162,7 @@ pub struct DoubleRatchetProtocol<
     previous_sending_chain_length: usize,
     previous_receiving_chain_length: usize,
     missed_messages: HashMap<(DHPublicKey, usize), MessageKey>,
+    retired_received_keys: HashSet<DHPublicKey>,
 }
 
 impl<
@@ -243,6 +244,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_received_keys: HashSet::new(),
             },
             DoubleRatchetAlgorithmMessage {
                 public_key: public_dh_key,
@@ -322,6 +324,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_received_keys: HashSet::new(),
             },
             clear_text,
         )
@@ -414,6 +417,7 @@ where
             previous_sending_chain_length: 0,
             previous_receiving_chain_length: 0,
             missed_messages: HashMap::new(),
+            retired_received_keys: HashSet::new(),
         }
     }
 
@@ -543,7 +547,10 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
-            self.diffie_hellman_received_key = Some(message.public_key.clone());
+            let retired_key = self
+                .diffie_hellman_received_key
+                .replace(message.public_key.clone());
+            self.retired_received_keys.extend(retired_key);
 
             // update root chain
             self.root_chain_key = Some(updated_root_key);
@@ -652,6 +659,15 @@ where
                 message_number: message.message_number,
             })
         }
+    } else if protocol
+        .retired_received_keys
+        .contains(&message.public_key)
+    {
+        // this message belongs to an earlier chain and must be handled specially, too
+        Err(ProtocolException::OutOfOrderMessage {
+            public_key: message.public_key.clone(),
+            message_number: message.message_number,
+        })
     } else {
         if message.previous_chain_length >= protocol.receiving_chain_length {
             // this message starts a new chain
-- 
2.43.0


From f7a2c12d448ae6e1d38ad20397f6f5309ac7154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 11/15] fix: reject headers that refer to a receiving chain
 before there is one

---
 jester_double_ratchet/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 2cfc660..774265d 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -645,6 +645,14 @@ where
         // this is the first ever message received
         // the message number tells how many messages came before that were missed
         Ok((0, message.message_number))
+    } else if protocol.receiving_chain_key.is_none()
+        && (message.previous_chain_length > 0
+            || Some(&message.public_key) == protocol.diffie_hellman_received_key.as_ref())
+    {
+        // no message was received yet, so there cannot be a previous chain to continue or to complete
+        Err(ProtocolException::IllegalMessageHeader {
+            message: "the message claims to follow messages of a chain that does not exist.",
+        })
     } else if message
         .public_key
         .eq(protocol.diffie_hellman_received_key.as_ref().unwrap())
-- 
2.43.0


From ff200f42663507eee4ed4451b92e388ef89e26ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 12/15] fix: the initiator can be established by a later
 message of the first chain

---
 jester_double_ratchet/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 774265d..0020a92 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -291,6 +291,17 @@ where
         // update receiving chain
         let (updated_root_key, receiving_key) =
             RootKdf::derive_key(self.root_chain_key.take().unwrap(), generated_dh_shared_key);
+        let mut receiving_key = receiving_key;
+        let mut missed_messages = HashMap::new();
+
+        // if earlier messages of this chain were missed, store their keys
+        for missed_number in 0..message.message_number {
+            let (updated_receiving_key, missed_key) =
+                MessageKdf::derive_key_without_input(receiving_key);
+            receiving_key = updated_receiving_key;
+            missed_messages.insert((message.public_key.clone(), missed_number), missed_key);
+        }
+
         let (receiving_chain_key, message_key) =
             MessageKdf::derive_key_without_input(receiving_key);
 
@@ -320,10 +331,10 @@ where
                 sending_chain_key: Some(sending_key),
                 receiving_chain_key: Some(receiving_chain_key),
                 sending_chain_length: 0,
-                receiving_chain_length: 1,
+                receiving_chain_length: message.message_number + 1,
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
-                missed_messages: HashMap::new(),
+                missed_messages,
                 retired_received_keys: HashSet::new(),
             },
             clear_text,
-- 
2.43.0


From 0262595b7e6551c42e5b8503d9eaf8c34188889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 13/15] verif: hook to take apart and rebuild ratchet messages
 (cfg jester_verif)

---
 jester_double_ratchet/src/lib.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 0020a92..9290741 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -59,6 +59,31 @@ pub struct DoubleRatchetAlgorithmMessage<K, C> {
     message: Option<C>,
 }
 
+/// Verification hook: lets a test harness duplicate messages and forge headers.
+#[cfg(jester_verif)]
+impl<K: Clone, C: Clone> DoubleRatchetAlgorithmMessage<K, C> {
+    /// Returns the public key, the message number, the previous chain length and the cipher text.
+    pub fn verif_parts(&self) -> (K, usize, usize, Option<C>) {
+        (
+            self.public_key.clone(),
+            self.message_number,
+            self.previous_chain_length,
+            self.message.clone(),
+        )
+    }
+
+    /// Builds a message from the parts `verif_parts` returns.
+    pub fn verif_from_parts(parts: (K, usize, usize, Option<C>)) -> Self {
+        let (public_key, message_number, previous_chain_length, message) = parts;
+        Self {
+            public_key,
+            message_number,
+            previous_chain_length,
+            message,
+        }
+    }
+}
+
 /// The two states the double ratchet protocol can be in. The `Initiator` is the party that is trying to establish
 /// a communication. The addressee can establish the protocol instantly, because it does not need an initialized
 /// receiving chain until it gets another message by the `Initiator`, and that will contain any information necessary
-- 
2.43.0


From 55eaa47ba79a03ab005f2908437ee64a53c7f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 14/15] verif: hook to start hash states at arbitrary message
 lengths (cfg jester_verif_deep)

---
 jester_hashes/src/blake/blake2b.rs | 20 ++++++++++++++++++++
 jester_hashes/src/blake/blake2s.rs | 20 ++++++++++++++++++++
 jester_hashes/src/md5.rs           | 19 +++++++++++++++++++
 jester_hashes/src/sha1.rs          | 19 +++++++++++++++++++
 4 files changed, 78 insertions(+)

diff --git a/jester_hashes/src/blake/blake2b.rs b/jester_hashes/src/blake/blake2b.rs
index db05425..dbcdba8 100644
--- a/jester_hashes/src/blake/blake2b.rs
+++ b/jester_hashes/src/blake/blake2b.rs
@@ -42,6 +42,26 @@ pub struct Blake2bState {
     remaining_data_length: usize,
 }
 
+/// Verification hook: lets a test harness start from states with arbitrary message lengths.
+#[cfg(jester_verif_deep)]
+impl Blake2bState {
+    /// Returns the chaining value, the number of bytes already compressed, and the buffered bytes.
+    pub fn verif_parts(&self) -> (Vec<u8>, u128, Vec<u8>) {
+        (self.raw(), self.message_length, self.remaining_data_buffer[..self.remaining_data_length].to_vec())
+    }
+
+    /// Builds a state from a chaining value and the number of bytes already compressed.
+    pub fn verif_from_parts(chaining: &[u8], compressed: u128) -> Self {
+        let word = |i: usize| u64::from_le_bytes(chaining[i * 8..(i + 1) * 8].try_into().unwrap());
+        Blake2bState {
+            hash: [word(0), word(1), word(2), word(3), word(4), word(5), word(6), word(7)],
+            message_length: compressed,
+            remaining_data_buffer: [0_u8; BLAKE_2B_BLOCK_SIZE],
+            remaining_data_length: 0,
+        }
+    }
+}
+
 impl HashFunction for Blake2b {
     type Context = Blake2bContext;
     type HashState = Blake2bState;
diff --git a/jester_hashes/src/blake/blake2s.rs b/jester_hashes/src/blake/blake2s.rs
index e361e56..9c6f59f 100644
--- a/jester_hashes/src/blake/blake2s.rs
+++ b/jester_hashes/src/blake/blake2s.rs
@@ -38,6 +38,26 @@ fn blake2s_mix(vector: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x
     blake2_mix::<u32, 16, 12, 8, 7>(vector, a, b, c, d, x, y)
 }
 
+/// Verification hook: lets a test harness start from states with arbitrary message lengths.
+#[cfg(jester_verif_deep)]
+impl Blake2sState {
+    /// Returns the chaining value, the number of bytes already compressed, and the buffered bytes.
+    pub fn verif_parts(&self) -> (Vec<u8>, u128, Vec<u8>) {
+        (self.raw(), self.message_length as u128, self.remaining_data_buffer[..self.remaining_data_length].to_vec())
+    }
+
+    /// Builds a state from a chaining value and the number of bytes already compressed.
+    pub fn verif_from_parts(chaining: &[u8], compressed: u128) -> Self {
+        let word = |i: usize| u32::from_le_bytes(chaining[i * 4..(i + 1) * 4].try_into().unwrap());
+        Blake2sState {
+            hash: [word(0), word(1), word(2), word(3), word(4), word(5), word(6), word(7)],
+            message_length: compressed as u64,
+            remaining_data_buffer: [0_u8; BLAKE_2S_BLOCK_SIZE],
+            remaining_data_length: 0,
+        }
+    }
+}
+
 impl HashFunction for Blake2s {
     type Context = Blake2sContext;
     type HashState = Blake2sState;
diff --git a/jester_hashes/src/md5.rs b/jester_hashes/src/md5.rs
index 0d7d5f6..44362e8 100644
--- a/jester_hashes/src/md5.rs
+++ b/jester_hashes/src/md5.rs
@@ -99,6 +99,25 @@ fn round_function(hash: &mut MD5HashState, input: &[u8; BLOCK_LENGTH_BYTES]) {
     }
 }
 
+/// Verification hook: lets a test harness start from states with arbitrary message lengths.
+#[cfg(jester_verif_deep)]
+impl MD5HashState {
+    /// Returns the chaining value, the number of bytes already compressed, and the buffered bytes.
+    pub fn verif_parts(&self) -> (Vec<u8>, u128, Vec<u8>) {
+        (self.hash.raw(), self.message_length as u128 / 8, self.remaining_data.to_vec())
+    }
+
+    /// Builds a state from a chaining value and the number of bytes already compressed.
+    pub fn verif_from_parts(chaining: &[u8], compressed: u128) -> Self {
+        let word = |i: usize| u32::from_le_bytes(chaining[i * 4..(i + 1) * 4].try_into().unwrap());
+        MD5HashState {
+            hash: MD5Hash(word(0), word(1), word(2), word(3)),
+            message_length: (compressed * 8) as u64,
+            remaining_data: vec![],
+        }
+    }
+}
+
 impl HashFunction for MD5Hash {
     type Context = ();
     type HashState = MD5HashState;
diff --git a/jester_hashes/src/sha1.rs b/jester_hashes/src/sha1.rs
index 779e078..674480f 100644
--- a/jester_hashes/src/sha1.rs
+++ b/jester_hashes/src/sha1.rs
@@ -93,6 +93,25 @@ fn round_function(hash: &mut SHA1HashState, block: &[u8; 64]) {
     }
 }
 
+/// Verification hook: lets a test harness start from states with arbitrary message lengths.
+#[cfg(jester_verif_deep)]
+impl SHA1HashState {
+    /// Returns the chaining value, the number of bytes already compressed, and the buffered bytes.
+    pub fn verif_parts(&self) -> (Vec<u8>, u128, Vec<u8>) {
+        (self.hash.raw(), self.message_length as u128 / 8, self.remaining_data.to_vec())
+    }
+
+    /// Builds a state from a chaining value and the number of bytes already compressed.
+    pub fn verif_from_parts(chaining: &[u8], compressed: u128) -> Self {
+        let word = |i: usize| u32::from_be_bytes(chaining[i * 4..(i + 1) * 4].try_into().unwrap());
+        SHA1HashState {
+            hash: SHA1Hash { a: word(0), b: word(1), c: word(2), d: word(3), e: word(4) },
+            message_length: (compressed * 8) as u64,
+            remaining_data: vec![],
+        }
+    }
+}
+
 impl HashFunction for SHA1Hash {
     type Context = ();
     type HashState = SHA1HashState;
-- 
2.43.0


From 86b82953386e888fa9a58fb8ad542b5d051ebf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 15/15] fix: delegate methods that have a default
 implementation, too

A delegated protocol used the default of such a method even if its delegate
overrides it.
---
 jester_sharing/jester_sharing_proc/src/lib.rs | 49 +++++++++----------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/jester_sharing/jester_sharing_proc/src/lib.rs b/jester_sharing/jester_sharing_proc/src/lib.rs
index 9486462..dc71908 100644
--- a/jester_sharing/jester_sharing_proc/src/lib.rs
+++ b/jester_sharing/jester_sharing_proc/src/lib.rs
@@ -92,38 +92,37 @@ pub fn delegatable_protocol(_attr: TokenStream, item: TokenStream) -> TokenStrea
     let mut delegate_method_implementations = vec![];
     for item in trait_items {
         if let TraitItem::Method(fn_item) = item {
-            if fn_item.default.is_none() {
-                let fn_sig = &fn_item.sig;
-                let fn_name = &fn_sig.ident;
-                let mut parameter_names = vec![];
-                let fn_parameters = &fn_sig.inputs;
-                for arg in fn_parameters {
-                    if let FnArg::Typed(PatType { pat, .. }) = arg {
-                        if let Pat::Ident(param) = *pat.clone() {
-                            parameter_names.push(param.ident)
-                        }
+            // methods with a default are delegated, too: the delegate may override it
+            let fn_sig = &fn_item.sig;
+            let fn_name = &fn_sig.ident;
+            let mut parameter_names = vec![];
+            let fn_parameters = &fn_sig.inputs;
+            for arg in fn_parameters {
+                if let FnArg::Typed(PatType { pat, .. }) = arg {
+                    if let Pat::Ident(param) = *pat.clone() {
+                        parameter_names.push(param.ident)
                     }
                 }
+            }
 
-                let protocol_impl: proc_macro::TokenStream = quote! {
-                    #fn_sig {
-                        P:: #fn_name ( #(#parameter_names),* )
-                    }
+            let protocol_impl: proc_macro::TokenStream = quote! {
+                #fn_sig {
+                    P:: #fn_name ( #(#parameter_names),* )
                 }
-                .into();
+            }
+            .into();
 
-                let delegate_impl: proc_macro::TokenStream = quote! {
-                    #fn_sig {
-                        P::Delegate:: #fn_name ( #(#parameter_names),* )
-                    }
+            let delegate_impl: proc_macro::TokenStream = quote! {
+                #fn_sig {
+                    P::Delegate:: #fn_name ( #(#parameter_names),* )
                 }
-                .into();
-
-                protocol_method_implementations
-                    .push(parse_macro_input!(protocol_impl as ImplItemMethod));
-                delegate_method_implementations
-                    .push(parse_macro_input!(delegate_impl as ImplItemMethod));
             }
+            .into();
+
+            protocol_method_implementations
+                .push(parse_macro_input!(protocol_impl as ImplItemMethod));
+            delegate_method_implementations
+                .push(parse_macro_input!(delegate_impl as ImplItemMethod));
         }
     }
 
-- 
2.43.0


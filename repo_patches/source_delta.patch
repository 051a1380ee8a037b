From bc211356af924f51027d6ec8a1d001b7d3dd51b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 1/6] fix: take mnemonic entropy straight from the operating
 system

thread_rng's state is copied by fork, so parent and child generated
identical mnemonics.
---
 src/bip39/crypto.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bip39/crypto.rs b/src/bip39/crypto.rs
index a32fe79..f675668 100644
--- a/src/bip39/crypto.rs
+++ b/src/bip39/crypto.rs
@@ -6,7 +6,7 @@
 //!
 
 extern crate rand;
-use self::rand::{thread_rng, RngCore};
+use self::rand::{rngs::OsRng, RngCore};
 use hmac::Hmac;
 use sha2::Digest;
 
@@ -22,10 +22,12 @@ pub(crate) fn sha256_first_byte(input: &[u8]) -> u8 {
 /// Random byte generator, used to create new mnemonics
 ///
 pub(crate) fn gen_random_bytes(byte_length: usize) -> Vec<u8> {
-    let mut rng = thread_rng();
     let mut bytes = vec![0u8; byte_length];
 
-    rng.fill_bytes(&mut bytes);
+    // Read the operating system's generator directly: a userspace generator such as
+    // `thread_rng` has state which `fork` copies, so that a process and its child
+    // would go on to create the same mnemonics.
+    OsRng.fill_bytes(&mut bytes);
 
     bytes
 }
-- 
2.43.0


From a202f3bf9d6e03883b7b666c35bb586966bb993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 2/6] fix: compare the other key's bytes in
 ExtendedPrivateKey::ct_eq

The key bytes of self were compared with themselves, so that different
private keys with equal attributes compared equal.
---
 src/bip32/extended_key/extended_private_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip32/extended_key/extended_private_key.rs b/src/bip32/extended_key/extended_private_key.rs
index 14e9dc5..80554d3 100644
--- a/src/bip32/extended_key/extended_private_key.rs
+++ b/src/bip32/extended_key/extended_private_key.rs
@@ -181,7 +181,7 @@ where
 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let mut key_a = self.to_bytes();
-        let mut key_b = self.to_bytes();
+        let mut key_b = other.to_bytes();
 
         let result = key_a.ct_eq(&key_b)
             & self.attrs.depth.ct_eq(&other.attrs.depth)
-- 
2.43.0


From f8781aa12dd639031381194c9fc49971b609358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 3/6] fix: return an error for an invalid child key tweak
 instead of panicking

A tweak that is zero or not below the curve order made derive_child
panic in unwrap.
---
 src/bip32/private_key.rs | 3 ++-
 src/bip32/public_key.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bip32/private_key.rs b/src/bip32/private_key.rs
index e012792..1674ccd 100644
--- a/src/bip32/private_key.rs
+++ b/src/bip32/private_key.rs
@@ -45,7 +45,8 @@ impl PrivateKey for libsecp256k1::SecretKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()) {
+        let tweak = libsecp256k1::SecretKey::parse(&other)?;
+        match cpk.tweak_add_assign(&tweak) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
diff --git a/src/bip32/public_key.rs b/src/bip32/public_key.rs
index 80c6163..68f15f9 100644
--- a/src/bip32/public_key.rs
+++ b/src/bip32/public_key.rs
@@ -48,7 +48,8 @@ impl PublicKey for libsecp256k1::PublicKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()){
+        let tweak = libsecp256k1::SecretKey::parse(&other)?;
+        match cpk.tweak_add_assign(&tweak){
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
-- 
2.43.0


From 72d4d2966600d75c5fcfc544391f6d6596d90fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 4/6] fix: refuse serialized master keys with a parent
 fingerprint or child number

BIP32 declares such records invalid (test vector 5).
---
 src/bip32/extended_key/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bip32/extended_key/mod.rs b/src/bip32/extended_key/mod.rs
index 999d373..602dabe 100644
--- a/src/bip32/extended_key/mod.rs
+++ b/src/bip32/extended_key/mod.rs
@@ -85,6 +85,12 @@ impl FromStr for ExtendedKey {
         let depth = bytes[4];
         let parent_fingerprint = bytes[5..9].try_into()?;
         let child_number = ChildNumber::from_bytes(bytes[9..13].try_into()?);
+
+        // A master key has no parent and no child number (BIP32 test vector 5).
+        if depth == 0 && (parent_fingerprint != [0u8; 4] || child_number.0 != 0) {
+            return Err(Error::Decode);
+        }
+
         let chain_code = bytes[13..45].try_into()?;
         let key_bytes = bytes[45..78].try_into()?;
         bytes.zeroize();
-- 
2.43.0


From 03efcd7f829da8849cd4ae273819c006b7939c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 5/6] fix: find words by prefix in word lists that are not
 sorted

The binary search missed words of the simplified Chinese list.
---
 src/bip39/language.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bip39/language.rs b/src/bip39/language.rs
index 6e49c99..e24cc8b 100644
--- a/src/bip39/language.rs
+++ b/src/bip39/language.rs
@@ -26,9 +26,11 @@ impl WordList {
     }
 
     pub fn get_words_by_prefix(&self, prefix: &str) -> &[&'static str] {
+        // Not every list is sorted, so a binary search could miss the words.
         let start = self.inner
-            .binary_search(&prefix)
-            .unwrap_or_else(|idx| idx);
+            .iter()
+            .position(|word| word.starts_with(prefix))
+            .unwrap_or(self.inner.len());
         let count = self.inner[start..].iter()
             .take_while(|word| word.starts_with(prefix))
             .count();
-- 
2.43.0


From c6e5861b02bcc783abd62649368768ae7f37af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 6/6] fix: wipe the copy of the phrase that Seed::new hashes

The bytes of the whole phrase were freed as they were.
---
 src/bip39/seed.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bip39/seed.rs b/src/bip39/seed.rs
index 3b5bb6c..175a46d 100644
--- a/src/bip39/seed.rs
+++ b/src/bip39/seed.rs
@@ -1,6 +1,6 @@
 use std::fmt;
 use unicode_normalization::UnicodeNormalization;
-use zeroize::Zeroize;
+use zeroize::{Zeroize, Zeroizing};
 use super::crypto::pbkdf2;
 use super::Mnemonic;
 
@@ -32,7 +32,8 @@ impl Seed {
     pub fn new(mnemonic: &Mnemonic, password: &str) -> Self {
         let salt = format!("mnemonic{}", password);
         let normalized_salt = salt.nfkd().to_string();
-        let bytes = pbkdf2(&mnemonic.as_bytes(), &normalized_salt);
+        let input = Zeroizing::new(mnemonic.as_bytes());
+        let bytes = pbkdf2(&input, &normalized_salt);
 
         Self { bytes }
     }
-- 
2.43.0


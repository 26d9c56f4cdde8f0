From af430dd6cc7de8fc5b849de1fd0bfc757823a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:38 +0000
Subject: [PATCH 1/4] fix: find words by prefix in a word list that is not in
 string order

The Chinese list is ordered by frequency, so the binary search for the start
of the words with a prefix missed nearly all of them.
---
 src/bip39/language.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bip39/language.rs b/src/bip39/language.rs
index 6e49c99..4106b58 100644
--- a/src/bip39/language.rs
+++ b/src/bip39/language.rs
@@ -26,9 +26,9 @@ impl WordList {
     }
 
     pub fn get_words_by_prefix(&self, prefix: &str) -> &[&'static str] {
-        let start = self.inner
-            .binary_search(&prefix)
-            .unwrap_or_else(|idx| idx);
+        let start = self.inner.iter()
+            .position(|word| word.starts_with(prefix))
+            .unwrap_or(self.inner.len());
         let count = self.inner[start..].iter()
             .take_while(|word| word.starts_with(prefix))
             .count();
-- 
2.43.0


From 1e305cd7de411400e607bd4efb5650f36701facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 2/4] fix: compare the private keys of two extended private
 keys

ct_eq compared the key with itself, so that keys which differ only in the
private key were equal.
---
 src/bip32/extended_key/extended_private_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip32/extended_key/extended_private_key.rs b/src/bip32/extended_key/extended_private_key.rs
index 14e9dc5..80554d3 100644
--- a/src/bip32/extended_key/extended_private_key.rs
+++ b/src/bip32/extended_key/extended_private_key.rs
@@ -181,7 +181,7 @@ where
 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let mut key_a = self.to_bytes();
-        let mut key_b = self.to_bytes();
+        let mut key_b = other.to_bytes();
 
         let result = key_a.ct_eq(&key_b)
             & self.attrs.depth.ct_eq(&other.attrs.depth)
-- 
2.43.0


From 551da545b0f59830750511574e6e24016edf81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 3/4] fix: return an error when the left half of the HMAC is
 not a valid scalar

Deriving a child panicked when IL is zero or not below the group order.
---
 src/bip32/private_key.rs | 3 ++-
 src/bip32/public_key.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bip32/private_key.rs b/src/bip32/private_key.rs
index e012792..be9ff75 100644
--- a/src/bip32/private_key.rs
+++ b/src/bip32/private_key.rs
@@ -44,8 +44,9 @@ impl PrivateKey for libsecp256k1::SecretKey {
     }
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
+        let tweak = libsecp256k1::SecretKey::parse(&other).map_err(|_| Error::Crypto)?;
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()) {
+        match cpk.tweak_add_assign(&tweak) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
diff --git a/src/bip32/public_key.rs b/src/bip32/public_key.rs
index 80c6163..6470353 100644
--- a/src/bip32/public_key.rs
+++ b/src/bip32/public_key.rs
@@ -47,8 +47,9 @@ impl PublicKey for libsecp256k1::PublicKey {
     }
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
+        let tweak = libsecp256k1::SecretKey::parse(&other).map_err(|_| Error::Crypto)?;
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()){
+        match cpk.tweak_add_assign(&tweak){
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
-- 
2.43.0


From 69eda83852a44fda2c5cf424918b5855fe07b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:34 +0000
Subject: [PATCH 4/4] fix: refuse extended keys of depth zero that name a
 parent

BIP32 (test vector 5) requires keys with zero depth and a non-zero parent
fingerprint or child number to be recognised as invalid.
---
 src/bip32/extended_key/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bip32/extended_key/mod.rs b/src/bip32/extended_key/mod.rs
index 999d373..269f7fb 100644
--- a/src/bip32/extended_key/mod.rs
+++ b/src/bip32/extended_key/mod.rs
@@ -85,6 +85,13 @@ impl FromStr for ExtendedKey {
         let depth = bytes[4];
         let parent_fingerprint = bytes[5..9].try_into()?;
         let child_number = ChildNumber::from_bytes(bytes[9..13].try_into()?);
+
+        // a master key has no parent
+        if depth == 0 && (parent_fingerprint != [0u8; 4] || child_number != ChildNumber::default()) {
+            bytes.zeroize();
+            return Err(Error::Decode);
+        }
+
         let chain_code = bytes[13..45].try_into()?;
         let key_bytes = bytes[45..78].try_into()?;
         bytes.zeroize();
-- 
2.43.0


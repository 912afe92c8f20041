From f6f5f8fee2075835761fbd41c8fd09b0d5325752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 01/12] fix: list no longer fails for alias targets without a
 site entry

Targets of aliases are added to the sites considered by the list command
even if they have no entry of their own. Trying to clean up such a missing
entry produced "No such value in storage" instead of a listing.
---
 cli/src/processor/list.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 3432f46..7d7a169 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -30,6 +30,10 @@ pub fn processor<IO: storage_io::StorageIO>(
         let mut empty_sites = Vec::new();
 
         let mut sites = passwords.list_sites(domain).collect::<Vec<Site>>();
+        let stored_sites = sites
+            .iter()
+            .map(|site| site.name().to_owned())
+            .collect::<std::collections::HashSet<String>>();
         let mut additions = Vec::new();
         for site in sites.iter() {
             if let Some(alias) = site.alias() {
@@ -59,7 +63,8 @@ pub fn processor<IO: storage_io::StorageIO>(
         for site in sites {
             let mut list = passwords.list(site.name(), name).collect::<Vec<Password>>();
             if list.is_empty() {
-                if name == "*" {
+                // Alias targets don't necessarily have a site entry that could be removed
+                if name == "*" && stored_sites.contains(site.name()) {
                     empty_sites.push(site.name().to_string());
                 }
                 continue;
-- 
2.43.0


From 0400da2ccba80372b5f8a9a38247476efc6686bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 02/12] fix: aliasing an alias target no longer produces alias
 chains

Aliases are resolved in one step. When a site which other aliases pointed to
became an alias itself, passwords added via these aliases were stored for
the intermediate site, being inaccessible under its name and missing in
listings. Redirect existing aliases to the new target.
---
 pfp/src/passwords.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index dd5bc60..ccdfd9b 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -161,7 +161,8 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
     /// Marks `site` and an alias for `alias`.
     ///
     /// This will normalize `site` parameter (remove `www.` prefix). If `alias` is itself marked as
-    /// an alias for another site, `site` will become an alias for that site. Attempting to mark a
+    /// an alias for another site, `site` will become an alias for that site. Existing aliases for
+    /// `site` will become aliases for that site as well. Attempting to mark a
     /// site as an alias which already has passwords will result in
     /// [Error::SiteHasPasswords](../error/enum.Error.html#variant.SiteHasPasswords).
     pub fn set_alias(&mut self, site: &str, alias: &str) -> Result<(), Error> {
@@ -181,6 +182,18 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         self.storage
             .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;
+
+        // Aliases are only resolved once, existing aliases of the site have to be redirected
+        let redirected = self
+            .storage
+            .list_sites(key)
+            .filter(|existing| existing.alias() == Some(&site_normalized))
+            .map(|existing| existing.name().to_owned())
+            .collect::<Vec<String>>();
+        for existing in redirected {
+            self.storage
+                .set_alias(&existing, &alias_resolved, hmac_secret, key)?;
+        }
         self.storage.flush()
     }
 
-- 
2.43.0


From 4bde06738fa61e5b83f4b04c0c5319c111f76591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 03/12] fix: don't panic on ciphertexts with a nonce of
 unexpected size

A damaged entry in the storage file made the application panic instead of
reporting corrupt data or skipping the entry in listings.
---
 pfp/src/crypto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index b28e5eb..3491612 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -127,6 +127,9 @@ pub fn decrypt_data(value: &str, encryption_key: &SecretVec<u8>) -> Result<Secre
         value.split_once('_').ok_or(Error::InvalidCiphertext)?;
     let nonce_data =
         base64::decode(nonce_base64).map_err(|error| Error::InvalidBase64 { error })?;
+    if nonce_data.len() != AES_NONCE_SIZE / 8 {
+        return Err(Error::InvalidCiphertext);
+    }
     let nonce = aes_gcm::Nonce::from_slice(&nonce_data);
     let ciphertext =
         base64::decode(ciphertext_base64).map_err(|error| Error::InvalidBase64 { error })?;
-- 
2.43.0


From ce9ec8bb7c27894d82b310db704e3ba1b11023bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 04/12] fix: no integer underflow decoding the recovery code of
 an empty password

In builds with overflow checks enabled, decoding panicked if the password
consisted only of the zero bytes used as padding.
---
 pfp/src/recovery_codes.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index a518462..d011070 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -220,10 +220,7 @@ pub fn decode(code: &str, primary_password: &SecretString) -> Result<SecretStrin
     let decrypted = crypto::decrypt_data(&encrypted, &encryption_key)?;
     let decrypted_len = decrypted.expose_secret().len();
     let mut end_pos = decrypted_len;
-    while let Some(&byte) = decrypted.expose_secret().get(end_pos - 1) {
-        if byte != 0 {
-            break;
-        }
+    while end_pos > 0 && decrypted.expose_secret()[end_pos - 1] == 0 {
         end_pos -= 1;
     }
     let stripped = if end_pos == decrypted_len {
-- 
2.43.0


From 8eb44b0915b11b157f844edaa4e2091cef77b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 05/12] fix: failed reset no longer leaves the passwords
 unlocked with stale keys

If writing out the new storage failed, the previous encryption key and HMAC
secret were kept. Any passwords added later were encrypted with these and
could not be decrypted with either primary password.
---
 pfp/src/passwords.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index ccdfd9b..be91b2a 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -108,6 +108,8 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         let key = get_encryption_key(&primary_password, &salt);
         let hmac_secret = SecretVec::new(crypto::get_rng().gen::<[u8; 32]>().to_vec());
 
+        // Existing keys no longer match the data, in case of errors they should not be used
+        self.lock();
         self.storage.clear(&salt, &hmac_secret, &key)?;
         self.storage.flush()?;
 
-- 
2.43.0


From d8090c0e5ea4cdb7f33c72911b020e4e17632d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 06/12] fix: failed or interrupted saves no longer destroy
 existing data

The storage file was truncated before being written. With the disk being
full or the process terminated at that point all passwords were lost. Write
to a temporary file and move it into place instead.
---
 pfp/src/storage_io/file.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 597c734..4e2f792 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -49,6 +49,31 @@ impl FileIO {
     }
 }
 
+/// Replaces the file contents via a temporary file, so that a failed or interrupted write won't
+/// destroy existing data.
+fn write_atomically(path: &path::Path, contents: &str) -> std::io::Result<()> {
+    // Keep symbolic links intact, replace the file they point to
+    let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+    let permissions = match fs::metadata(&path) {
+        Ok(metadata) if !metadata.is_file() => return fs::write(&path, contents),
+        Ok(metadata) => Some(metadata.permissions()),
+        Err(_) => None,
+    };
+
+    let mut temp_path = path.clone().into_os_string();
+    temp_path.push(format!(".{}.tmp", std::process::id()));
+    let result = fs::write(&temp_path, contents)
+        .and_then(|_| match permissions {
+            Some(permissions) => fs::set_permissions(&temp_path, permissions),
+            None => Ok(()),
+        })
+        .and_then(|_| fs::rename(&temp_path, &path));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp_path);
+    }
+    result
+}
+
 impl super::StorageIO for FileIO {
     fn contains_key(&self, key: &str) -> bool {
         self.data.contains_key(key)
@@ -82,6 +107,6 @@ impl super::StorageIO for FileIO {
         if let Some(parent) = parent {
             fs::create_dir_all(parent).map_err(|error| Error::CreateDirFailure { error })?;
         }
-        fs::write(&self.path, &contents).map_err(|error| Error::FileWriteFailure { error })
+        write_atomically(&self.path, &contents).map_err(|error| Error::FileWriteFailure { error })
     }
 }
-- 
2.43.0


From fff58fab23d43dd455bb40063bb7c7cc64537482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 07/12] fix: set-primary asks before replacing any existing
 storage file

The confirmation was skipped if the existing file could not be loaded, e.g.
due to an unsupported format version. The file was then overwritten.
---
 cli/src/main.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 7177bf9..6672355 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -72,23 +72,19 @@ fn main_inner(args: Args) -> Result<(), String> {
     };
 
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
-        match FileIO::load(&storage_path) {
-            Ok(io) => {
-                if !assume_yes {
-                    let allow = question::Question::new(
-                        "Changing primary password will remove all existing data. Continue?",
-                    )
-                    .default(question::Answer::NO)
-                    .show_defaults()
-                    .confirm();
-                    if allow == question::Answer::NO {
-                        return Ok(());
-                    }
-                }
-                io
+        // A file that cannot be loaded contains data as well, e.g. in a newer format
+        if !assume_yes && storage_path.exists() {
+            let allow = question::Question::new(
+                "Changing primary password will remove all existing data. Continue?",
+            )
+            .default(question::Answer::NO)
+            .show_defaults()
+            .confirm();
+            if allow == question::Answer::NO {
+                return Ok(());
             }
-            Err(_) => FileIO::new(&storage_path),
         }
+        FileIO::load(&storage_path).unwrap_or_else(|_| FileIO::new(&storage_path))
     } else {
         FileIO::load(&storage_path).convert_error()?
     };
-- 
2.43.0


From 69b54e65209bd2a25d5e658704e24790b1d124ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 08/12] fix: failing remove_sites call doesn't remove some of
 the sites

---
 pfp/src/passwords.rs | 6 ++++++
 pfp/src/storage.rs   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index be91b2a..ccaa6b9 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -225,6 +225,12 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         }
 
         let hmac_secret = self.hmac_secret.as_ref().ok_or(Error::PasswordsLocked)?;
+        // Don't remove anything in case of errors
+        for site in sites {
+            if !self.storage.has_site(site, hmac_secret) {
+                return Err(Error::KeyMissing);
+            }
+        }
         for site in sites {
             self.storage.remove_site(site, hmac_secret)?;
         }
diff --git a/pfp/src/storage.rs b/pfp/src/storage.rs
index d9f5f30..d8cc5e4 100644
--- a/pfp/src/storage.rs
+++ b/pfp/src/storage.rs
@@ -226,6 +226,11 @@ impl<IO: storage_io::StorageIO> Storage<IO> {
         }
     }
 
+    pub fn has_site(&self, site: &str, hmac_secret: &SecretVec<u8>) -> bool {
+        let key = self.get_site_key(site, hmac_secret);
+        self.contains(&key)
+    }
+
     pub fn remove_site(&mut self, site: &str, hmac_secret: &SecretVec<u8>) -> Result<(), Error> {
         let key = self.get_site_key(site, hmac_secret);
         self.remove(&key)
-- 
2.43.0


From 66e834d20b4843c0286f2707516bf95ad10d6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 09/12] fix: recovery codes of very long passwords no longer
 overflow

---
 pfp/src/recovery_codes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index d011070..21937f0 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -102,11 +102,13 @@ pub fn generate(
         if pos % BLOCK_SIZE == BLOCK_SIZE - 1 {
             let block_index = pos / BLOCK_SIZE;
             let final_block = block_index == blocks - 1;
+            // Only the lower bits of the index are considered for very long codes
+            let block_index = block_index as u8;
             let virtual_byte = if final_block {
                 255 - block_index
             } else {
                 block_index
-            } as u8;
+            };
             output.push(crypto::pearson_hash(
                 &output[output.len() - BLOCK_SIZE..],
                 virtual_byte,
@@ -248,7 +250,7 @@ fn validate(code: &str) -> Result<Vec<u8>, Error> {
             break;
         }
 
-        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], (255 - i) as u8) {
+        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], 255 - i as u8) {
             seen_last = true;
             extra_row = None;
         } else if chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], i as u8) {
-- 
2.43.0


From db799588859387d8726d166c61fd2b72c6170a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:25 +0000
Subject: [PATCH 10/12] fix: stored generation parameters no password can be
 derived from don't crash

---
 pfp/src/storage_types/password.rs | 34 +++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/pfp/src/storage_types/password.rs b/pfp/src/storage_types/password.rs
index 266768b..4dc7142 100644
--- a/pfp/src/storage_types/password.rs
+++ b/pfp/src/storage_types/password.rs
@@ -5,13 +5,38 @@
  */
 
 use super::CharacterSet;
-use crate::json::{Deserialize, Serialize};
+use crate::json::{de, Deserialize, Deserializer, Serialize};
 use secrecy::{ExposeSecret, SecretString};
 
 fn empty_secret(str: &SecretString) -> bool {
     str.expose_secret().is_empty()
 }
 
+// No password can be derived from other values, and excessive ones exhaust the memory.
+fn deserialize_length<'de, D>(deserializer: D) -> Result<usize, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let length = usize::deserialize(deserializer)?;
+    if (1..=usize::from(u16::MAX)).contains(&length) {
+        Ok(length)
+    } else {
+        Err(de::Error::custom("password length out of range"))
+    }
+}
+
+fn deserialize_charset<'de, D>(deserializer: D) -> Result<CharacterSet, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let charset = super::character_set::deserialize(deserializer)?;
+    if charset.is_empty() {
+        Err(de::Error::custom("no characters allowed in password"))
+    } else {
+        Ok(charset)
+    }
+}
+
 #[derive(Serialize, Deserialize, Debug)]
 /// A password identifier, no two passwords with identical identifiers are allowed in storage.
 pub struct PasswordId {
@@ -59,8 +84,13 @@ impl PasswordId {
 pub struct GeneratedPassword {
     #[serde(flatten)]
     id: PasswordId,
+    #[serde(deserialize_with = "deserialize_length")]
     length: usize,
-    #[serde(with = "super::character_set", flatten)]
+    #[serde(
+        serialize_with = "super::character_set::serialize",
+        deserialize_with = "deserialize_charset",
+        flatten
+    )]
     charset: CharacterSet,
     #[serde(
         skip_serializing_if = "empty_secret",
-- 
2.43.0


From d33e539af85a81d2ff8fa7fe3a9d55162aa8d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 11/12] fix: instances within one process don't share a
 temporary file when saving

---
 pfp/src/storage_io/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 4e2f792..af28db5 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -9,6 +9,7 @@ use crate::json::{const_serializable, Deserialize, Serialize};
 use std::collections::HashMap;
 use std::fs;
 use std::path;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 const_serializable!(ApplicationName: String = "pfp");
 const_serializable!(Format: u8 = 3);
@@ -60,8 +61,14 @@ fn write_atomically(path: &path::Path, contents: &str) -> std::io::Result<()> {
         Err(_) => None,
     };
 
+    // Several instances might be saving simultaneously, also within the same process
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
     let mut temp_path = path.clone().into_os_string();
-    temp_path.push(format!(".{}.tmp", std::process::id()));
+    temp_path.push(format!(
+        ".{}-{}.tmp",
+        std::process::id(),
+        COUNTER.fetch_add(1, Ordering::Relaxed)
+    ));
     let result = fs::write(&temp_path, contents)
         .and_then(|_| match permissions {
             Some(permissions) => fs::set_permissions(&temp_path, permissions),
-- 
2.43.0


From 080e3ec5e994b63e4e528d55f7c0b3552e59483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 12/12] fix: escaped field names in password entries are read

---
 pfp/src/json/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfp/src/json/macros.rs b/pfp/src/json/macros.rs
index 5629c21..433c212 100644
--- a/pfp/src/json/macros.rs
+++ b/pfp/src/json/macros.rs
@@ -72,7 +72,7 @@ macro_rules! enumset_serialization {
                     let mut result = Self::Value::empty();
 
                     loop {
-                        match map.next_key::<&str>()? {
+                        match map.next_key::<String>()?.as_deref() {
                             None => break,
                             $(
                                 Some($key) => {
-- 
2.43.0


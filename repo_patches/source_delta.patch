From 6e49d37a68ed897c5ad627df549b0d5d312845a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 01/40] fix: reject null data pointers instead of dereferencing
 them

C_SeedRandom, C_GenerateRandom, C_SetOperationState, C_VerifySignatureInit,
C_EncryptFinal/C_DecryptFinal and PIN/mechanism parameter buffers crashed on
a null pointer with a non-zero length.
---
 src/fns/encryption.rs   | 4 ++--
 src/fns/mod.rs          | 6 ++++++
 src/fns/sessmgmt.rs     | 3 +++
 src/fns/signing.rs      | 3 +++
 src/misc.rs             | 8 ++++----
 src/native/sp800_108.rs | 3 +++
 src/native/tlskdf.rs    | 7 +++++++
 src/ossl/kbkdf.rs       | 3 +++
 src/sp800_108.rs        | 8 ++++++--
 9 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 70e0e11..75e945b 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -242,7 +242,7 @@ fn encrypt_final(
     pul_last_encrypted_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
     let rstate = STATE.rlock()?;
-    if last_encrypted_part.is_null() && pul_last_encrypted_part_len.is_null() {
+    if pul_last_encrypted_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let mut session = rstate.get_session_mut(s_handle)?;
@@ -522,7 +522,7 @@ fn decrypt_final(
     last_part: CK_BYTE_PTR,
     pul_last_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
-    if last_part.is_null() && pul_last_part_len.is_null() {
+    if pul_last_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let rstate = STATE.rlock()?;
diff --git a/src/fns/mod.rs b/src/fns/mod.rs
index 6740160..566a11a 100644
--- a/src/fns/mod.rs
+++ b/src/fns/mod.rs
@@ -47,6 +47,9 @@ fn seed_random(
 ) -> Result<()> {
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
+    if seed.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let len = usize::try_from(seed_len).map_err(|_| CKR_GENERAL_ERROR)?;
     let data: &[u8] = unsafe { std::slice::from_raw_parts(seed, len) };
     random_add_seed(data)
@@ -82,6 +85,9 @@ fn generate_random(
 ) -> Result<()> {
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
+    if random_data.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let rndlen = usize::try_from(random_len).map_err(|_| CKR_GENERAL_ERROR)?;
     let data: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(random_data, rndlen) };
diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index c433910..a9f3633 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -230,6 +230,9 @@ fn set_operation_state(
     if encryption_key != CK_INVALID_HANDLE {
         return Err(CKR_KEY_NOT_NEEDED)?;
     }
+    if operation_state.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let rstate = STATE.rlock()?;
     let mut session = rstate.get_session_mut(s_handle)?;
     let state_len =
diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 023c0bc..530e666 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -719,6 +719,9 @@ fn verify_signature_init(
         session.cancel_operation::<dyn VerifySignature>()?;
         return Ok(());
     }
+    if psignature.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     session.check_no_op::<dyn VerifySignature>()?;
     let mechanism = CK_MECHANISM::from_ptr(mechptr);
     let slot_id = session.get_slot_id();
diff --git a/src/misc.rs b/src/misc.rs
index cc9dca8..9bc9148 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -62,12 +62,12 @@ pub(crate) use sizeof;
 /// Uses unsafe functions:
 /// - std::slice::from_raw_parts()
 ///
-/// If len is 0 and empty slice reference is returned
+/// If len is 0 or ptr is null an empty slice reference is returned
 pub(crate) unsafe fn bytes_to_slice<'a, T>(
     ptr: *const T,
     len: usize,
 ) -> &'a [T] {
-    if len > 0 {
+    if len > 0 && !ptr.is_null() {
         unsafe { std::slice::from_raw_parts(ptr, len) }
     } else {
         &[]
@@ -80,12 +80,12 @@ pub(crate) unsafe fn bytes_to_slice<'a, T>(
 /// Uses unsafe functions:
 /// - std::slice::from_raw_parts_mut()
 ///
-/// If len is 0 an error is returned
+/// If len is 0 or ptr is null an error is returned
 pub(crate) unsafe fn bytes_to_slice_mut<'a, T>(
     ptr: *mut T,
     len: usize,
 ) -> Result<&'a mut [T]> {
-    if len > 0 {
+    if len > 0 && !ptr.is_null() {
         Ok(unsafe { std::slice::from_raw_parts_mut(ptr, len) })
     } else {
         Err(CKR_GENERAL_ERROR)?
diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index 96db177..003a716 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -436,6 +436,9 @@ impl Derive for Sp800Operation {
 
         /* additional keys */
         for ak in &self.addl_drv_keys {
+            if ak.pTemplate.is_null() || ak.phKey.is_null() {
+                return Err(CKR_MECHANISM_PARAM_INVALID)?;
+            }
             let tmpl: &[CK_ATTRIBUTE] = unsafe {
                 std::slice::from_raw_parts_mut(
                     ak.pTemplate,
diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index 89f65d2..08b4e41 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -395,6 +395,13 @@ impl TLSKDFOperation {
         if params.pReturnedKeyMaterial.is_null() {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
+        if ivlen > 0 {
+            let mat = params.pReturnedKeyMaterial;
+            if unsafe { (*mat).pIVClient.is_null() || (*mat).pIVServer.is_null() }
+            {
+                return Err(CKR_MECHANISM_PARAM_INVALID)?;
+            }
+        }
 
         Ok(TLSKDFOperation {
             finalized: false,
diff --git a/src/ossl/kbkdf.rs b/src/ossl/kbkdf.rs
index af73789..b38a61f 100644
--- a/src/ossl/kbkdf.rs
+++ b/src/ossl/kbkdf.rs
@@ -428,6 +428,9 @@ impl Derive for Sp800Operation {
 
         /* additional keys */
         for ak in &self.addl_drv_keys {
+            if ak.pTemplate.is_null() || ak.phKey.is_null() {
+                return Err(CKR_MECHANISM_PARAM_INVALID)?;
+            }
             let tmpl: &[CK_ATTRIBUTE] = unsafe {
                 std::slice::from_raw_parts_mut(
                     ak.pTemplate,
diff --git a/src/sp800_108.rs b/src/sp800_108.rs
index b550c9c..0ec005d 100644
--- a/src/sp800_108.rs
+++ b/src/sp800_108.rs
@@ -107,7 +107,9 @@ impl Sp800Params {
                 bits: 16,
             });
         }
-        if p.ulValueLen != sizeof!(CK_SP800_108_COUNTER_FORMAT) {
+        if p.ulValueLen != sizeof!(CK_SP800_108_COUNTER_FORMAT)
+            || p.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let cf = unsafe { *(p.pValue as *const CK_SP800_108_COUNTER_FORMAT) };
@@ -133,7 +135,9 @@ impl Sp800Params {
     }
 
     fn parse_dkm_length(p: &CK_PRF_DATA_PARAM) -> Result<Sp800DKMLengthFormat> {
-        if p.ulValueLen != sizeof!(CK_SP800_108_DKM_LENGTH_FORMAT) {
+        if p.ulValueLen != sizeof!(CK_SP800_108_DKM_LENGTH_FORMAT)
+            || p.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let dkm =
-- 
2.43.0


From 2bd8589d03a9692edd2b994695588737ff04053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 02/40] fix: track the login requirement per operation type

A single per-session login status let any later Init call on the session
(C_FindObjectsInit, C_DigestInit, ...) clear the pending context specific
login requirement of an operation on a CKA_ALWAYS_AUTHENTICATE key.
---
 src/session.rs | 69 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index ab48f2a..25c369e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -5,6 +5,8 @@
 //! session state (login status, active operations), and handles
 //! session-specific operations like object searching.
 
+use std::any::TypeId;
+use std::collections::HashMap;
 use std::sync::LazyLock;
 
 use crate::encryption;
@@ -51,8 +53,6 @@ impl SearchOperation for SessionSearch {
 /// Represents the login status requirement for an active operation.
 #[derive(Debug)]
 pub enum OpLoginStatus {
-    /// No operation active.
-    NotInitialized,
     /// Active operation does not require login.
     NotRequired,
     /// Active operation requires login, but user is not logged in.
@@ -314,8 +314,8 @@ pub struct Session {
     //notify: CK_NOTIFY,
     /// Container for active cryptographic operations.
     operations: SessionOperations,
-    /// Tracks login requirement status for the current operation.
-    login_status: OpLoginStatus,
+    /// Tracks login requirement status for each operation type.
+    login_status: HashMap<TypeId, OpLoginStatus>,
     /// Tracks FIPS approval status for the current operation.
     fips_indicator: Option<bool>,
 }
@@ -365,7 +365,7 @@ impl Session {
             //application: std::ptr::null_mut(),
             //notify: unsafe { std::ptr::null_mut() },
             operations: SessionOperations::new(),
-            login_status: OpLoginStatus::NotInitialized,
+            login_status: HashMap::new(),
             fips_indicator: None,
         })
     }
@@ -506,9 +506,10 @@ impl Session {
     }
 
     /// Cancels the active operation of the specified type `O`.
-    pub fn cancel_operation<O: ManageOperation + ?Sized>(
+    pub fn cancel_operation<O: ManageOperation + ?Sized + 'static>(
         &mut self,
     ) -> Result<()> {
+        self.login_status.remove(&TypeId::of::<O>());
         O::cancel_operation(&mut self.operations)
     }
 
@@ -522,27 +523,34 @@ impl Session {
         O::check_no_op(&self.operations)
     }
 
-    /// Checks if the current login state permits the active operation.
+    /// Checks if any operation is waiting for a context specific login.
     ///
     /// Returns `CKR_USER_NOT_LOGGED_IN` if login is required but not satisfied.
     pub fn check_login_status(&self) -> Result<()> {
-        match self.login_status {
-            OpLoginStatus::NotInitialized => {
-                Err(CKR_OPERATION_NOT_INITIALIZED)?
+        if self.login_status.is_empty() {
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
+        }
+        for status in self.login_status.values() {
+            if let OpLoginStatus::Required = status {
+                return Err(CKR_USER_NOT_LOGGED_IN)?;
             }
-            OpLoginStatus::NotRequired => Ok(()),
-            OpLoginStatus::Required => Err(CKR_USER_NOT_LOGGED_IN)?,
-            OpLoginStatus::LoginOk => Ok(()),
         }
+        Ok(())
     }
 
     /// Gets a mutable reference to the currently active operation of type `O`.
     ///
-    /// Checks login status before returning the operation.
-    pub fn get_operation<O: ManageOperation + ?Sized>(
+    /// Checks the login status of the operation before returning it.
+    pub fn get_operation<O: ManageOperation + ?Sized + 'static>(
         &mut self,
     ) -> Result<&mut O> {
-        self.check_login_status()?;
+        match self.login_status.get(&TypeId::of::<O>()) {
+            Some(OpLoginStatus::NotRequired) | Some(OpLoginStatus::LoginOk) => {
+                ()
+            }
+            Some(OpLoginStatus::Required) => Err(CKR_USER_NOT_LOGGED_IN)?,
+            None => Err(CKR_OPERATION_NOT_INITIALIZED)?,
+        }
         O::get_op(&mut self.operations)
     }
 
@@ -550,24 +558,31 @@ impl Session {
     ///
     /// Also resets the FIPS indicator and sets the login requirement status
     /// based on `needs_login`.
-    pub fn set_operation<O: ManageOperation + ?Sized>(
+    pub fn set_operation<O: ManageOperation + ?Sized + 'static>(
         &mut self,
         op: Box<O>,
         needs_login: bool,
     ) {
         self.fips_indicator = None; /* FIXME: per operation ? */
-        self.login_status = if needs_login {
-            OpLoginStatus::Required
-        } else {
-            OpLoginStatus::NotRequired
-        };
+        self.login_status.insert(
+            TypeId::of::<O>(),
+            if needs_login {
+                OpLoginStatus::Required
+            } else {
+                OpLoginStatus::NotRequired
+            },
+        );
 
         O::set_op(&mut self.operations, op);
     }
 
-    /// Marks the current operation's login requirement as satisfied.
+    /// Marks the pending operations' login requirement as satisfied.
     pub fn set_login_ok(&mut self) {
-        self.login_status = OpLoginStatus::LoginOk;
+        for status in self.login_status.values_mut() {
+            if let OpLoginStatus::Required = status {
+                *status = OpLoginStatus::LoginOk;
+            }
+        }
     }
 
     pub fn state_size(&mut self) -> Result<usize> {
@@ -751,19 +766,19 @@ impl Session {
             }
             let mech = mechanisms.get(op.mech)?;
             let operation = mech.digest_restore(op.mech, op.data)?;
-            <dyn Digest>::set_op(&mut self.operations, operation);
+            self.set_operation::<dyn Digest>(operation, false);
         }
         if let Some(op) = opstate.sig {
             let op_key = key.ok_or(CKR_KEY_NEEDED)?;
             let mech_h = mechanisms.get(op.mech)?;
             let operation = mech_h.sign_restore(op.mech, op_key, op.data)?;
-            <dyn Sign>::set_op(&mut self.operations, operation);
+            self.set_operation::<dyn Sign>(operation, op_key.always_auth());
         }
         if let Some(op) = opstate.ver {
             let op_key = key.ok_or(CKR_KEY_NEEDED)?;
             let mech_h = mechanisms.get(op.mech)?;
             let operation = mech_h.verify_restore(op.mech, op_key, op.data)?;
-            <dyn Verify>::set_op(&mut self.operations, operation);
+            self.set_operation::<dyn Verify>(operation, false);
         }
         if let Some(_op) = opstate.versig {
             return Err(CKR_SAVED_STATE_INVALID)?;
-- 
2.43.0


From 800cf9678bf9d4f509b47d05ce3806f07c454243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 03/40] fix: avoid lock order inversion in C_Login and C_Logout

Both held the token lock while locking all sessions, everything else locks
the session first: concurrent calls deadlocked.
---
 src/fns/sessmgmt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index a9f3633..bf7d8b8 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -289,7 +289,9 @@ fn login(
     pin: CK_UTF8CHAR_PTR,
     pin_len: CK_ULONG,
 ) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* Takes the exclusive lock: all sessions are changed while the token is
+     * locked, the opposite of the session -> token order used elsewhere */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
     /* avoid deadlock later when we change all sessions */
@@ -371,7 +373,9 @@ pub extern "C" fn fn_login(
 
 #[inline(always)]
 fn logout(s_handle: CK_SESSION_HANDLE) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* Takes the exclusive lock: all sessions are changed while the token is
+     * locked, the opposite of the session -> token order used elsewhere */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
     /* avoid deadlock later when we change all sessions */
-- 
2.43.0


From 82f1504958358a32b74147dfb3249aa747752756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 04/40] fix: reject never settable attributes in generate,
 unwrap and derive templates

The template filter only matched attributes carrying both the NeverSettable
and the SettableOnlyOnCreate flags, so CKA_TRUSTED, CKA_LOCAL,
CKA_ALWAYS_SENSITIVE and CKA_NEVER_EXTRACTABLE could be set by any user.
---
 src/object/key.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/object/key.rs b/src/object/key.rs
index ade2b24..e74d91d 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -111,7 +111,7 @@ pub trait KeyFactory: ObjectFactory {
     fn key_generate(&self, template: &[CK_ATTRIBUTE]) -> Result<Object> {
         let mut key = self.internal_key_create(
             template,
-            OAFlags::SettableOnlyOnCreate | OAFlags::NeverSettable,
+            OAFlags::NeverSettable,
             OAFlags::RequiredOnGenerate,
         )?;
         key.set_zeroize();
@@ -124,7 +124,7 @@ pub trait KeyFactory: ObjectFactory {
     fn key_unwrap(&self, template: &[CK_ATTRIBUTE]) -> Result<Object> {
         self.internal_key_create(
             template,
-            OAFlags::SettableOnlyOnCreate | OAFlags::NeverSettable,
+            OAFlags::NeverSettable,
             OAFlags::AlwaysRequired,
         )
     }
@@ -145,7 +145,7 @@ pub trait KeyFactory: ObjectFactory {
 
         let mut obj = self.internal_key_create(
             template,
-            OAFlags::SettableOnlyOnCreate | OAFlags::NeverSettable,
+            OAFlags::NeverSettable,
             OAFlags::AlwaysRequired,
         )?;
         /* overrides */
-- 
2.43.0


From e51aee298a4c2e443febb1d25eb87778a7df7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 05/40] fix: C_CopyObject must not create token objects in R/O
 sessions

Only the template was checked, but CKA_TOKEN is inherited from the origin.
Also reject never settable attributes (CKA_TRUSTED, ...) in copy templates.
---
 src/fns/objmgmt.rs    | 10 ++++++++--
 src/object/factory.rs |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index 4555924..20ceb37 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -141,11 +141,17 @@ fn copy_object(
     } else {
         &mut []
     };
+    let slot_id = session.get_slot_id();
+    let mut token = rstate.get_token_from_slot_mut(slot_id)?;
     if !session.is_writable() {
         fail_if_cka_token_true(tmpl)?;
+        /* the copy inherits CKA_TOKEN unless the template overrides it */
+        if !tmpl.iter().any(|a| a.type_ == CKA_TOKEN)
+            && token.get_object_by_handle(o_handle)?.is_token()
+        {
+            return Err(CKR_SESSION_READ_ONLY)?;
+        }
     }
-    let slot_id = session.get_slot_id();
-    let mut token = rstate.get_token_from_slot_mut(slot_id)?;
 
     /* TODO: return CKR_ACTION_PROHIBITED instead of CKR_USER_NOT_LOGGED_IN ? */
     let oh = token.copy_object(s_handle, o_handle, tmpl)?;
diff --git a/src/object/factory.rs b/src/object/factory.rs
index 4d74146..bc11825 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -408,6 +408,9 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
+                    if attr.is(OAFlags::NeverSettable) {
+                        return Err(CKR_ATTRIBUTE_READ_ONLY)?;
+                    }
                     if attr.is(OAFlags::Unchangeable) {
                         if attr
                             .is(OAFlags::ChangeToFalse | OAFlags::ChangeToTrue)
-- 
2.43.0


From bc1ac864d9b8c7d3906ec6fb48318d8bf2bc438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 06/40] fix: mark the private value of DH keys as sensitive

CKA_VALUE of DH private keys could be read regardless of CKA_SENSITIVE and
CKA_EXTRACTABLE, and was stored in the clear.
---
 src/ffdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffdh.rs b/src/ffdh.rs
index 4e8d868..d91d38c 100644
--- a/src/ffdh.rs
+++ b/src/ffdh.rs
@@ -191,7 +191,7 @@ impl FFDHPrivFactory {
             CKA_BASE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE; OAFlags::RequiredOnCreate
+            CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
             | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-- 
2.43.0


From d05f391fa4c6bb745513a22d5f3f28d390d4f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 07/40] fix: class, key type and secret key value can not be
 modified

C_SetAttributeValue could replace the value of an existing secret key, or
turn an object into one of a different class.
---
 src/aes.rs            | 5 +++--
 src/hotp.rs           | 4 ++--
 src/object/factory.rs | 2 +-
 src/object/key.rs     | 8 ++++----
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index d51d0ae..68fd3bc 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -110,8 +110,9 @@ impl AesKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Defval | OAFlags::Sensitive
-            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate;
-            Attribute::from_bytes; val Vec::new()));
+            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate
+            | OAFlags::Unchangeable; Attribute::from_bytes;
+            val Vec::new()));
         attributes.push(attr_element!(
             CKA_VALUE_LEN; OAFlags::RequiredOnGenerate;
             Attribute::from_bytes; val Vec::new()));
diff --git a/src/hotp.rs b/src/hotp.rs
index 3047024..7b23e21 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -68,8 +68,8 @@ impl HOTPKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_VALUE_LEN; OAFlags::Defval; Attribute::from_ulong;
             val 20));
diff --git a/src/object/factory.rs b/src/object/factory.rs
index bc11825..7e98cfe 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -265,7 +265,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
     fn add_common_object_attrs(&mut self) {
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_CLASS; OAFlags::RequiredOnCreate;
+            CKA_CLASS; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
             CKA_UNIQUE_ID; OAFlags::NeverSettable | OAFlags::Unchangeable;
diff --git a/src/object/key.rs b/src/object/key.rs
index e74d91d..85d5c38 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -25,8 +25,8 @@ pub trait KeyFactory: ObjectFactory {
         self.add_common_storage_attrs(private);
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_KEY_TYPE; OAFlags::RequiredOnCreate; Attribute::from_ulong;
-            val CK_UNAVAILABLE_INFORMATION));
+            CKA_KEY_TYPE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
+            Attribute::from_ulong; val CK_UNAVAILABLE_INFORMATION));
         attrs.push(attr_element!(
             CKA_ID; OAFlags::empty(); Attribute::from_bytes;
             val Vec::new()));
@@ -528,8 +528,8 @@ impl GenericSecretKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_VALUE_LEN; OAFlags::RequiredOnGenerate; Attribute::from_bytes;
             val Vec::new()));
-- 
2.43.0


From 6c3e20ebbda8d345327c439cd7da8026db6cf9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 08/40] fix: clear the NSS DB derived key cache when the PIN
 key changes

Keys derived from the previous PIN stayed in the cache after logout, so the
next C_Login succeeded with a wrong PIN.
---
 src/storage/nssdb/ci.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 47f3c75..50327d8 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -106,12 +106,22 @@ impl KeysWithCaching {
         }
     }
 
-    /// Sets the master encryption key, zeroizing any previous key.
+    /// Drops all the derived keys, they depend on the master encryption key.
+    fn clear_cache(&mut self) {
+        match self.cache.get_mut() {
+            Ok(c) => c.clear(),
+            Err(e) => e.into_inner().clear(),
+        }
+    }
+
+    /// Sets the master encryption key, zeroizing any previous key and
+    /// clearing the derived key cache.
     pub fn set_key(&mut self, key: Vec<u8>) {
         if let Some(oldkey) = &mut self.enckey {
             zeromem(oldkey.as_mut_slice());
         }
         self.enckey = Some(key);
+        self.clear_cache();
     }
 
     /// Unsets the master encryption key (zeroizing it) and clears the derived
@@ -121,6 +131,7 @@ impl KeysWithCaching {
             zeromem(key.as_mut_slice());
             self.enckey = None;
         }
+        self.clear_cache();
     }
 
     /// Attempts to get a read lock (`LockedKey`) for a cached derived key
-- 
2.43.0


From b334da49e9e017ccd052bf2779b0f99af084ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 09/40] fix: sessions opened while the SO is logged in are R/W
 SO sessions

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index 25c369e..00aee55 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -352,7 +352,7 @@ impl Session {
                     }
                     CKU_SO => {
                         if rw {
-                            CKS_RW_USER_FUNCTIONS
+                            CKS_RW_SO_FUNCTIONS
                         } else {
                             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
                         }
-- 
2.43.0


From 7522d24bccb5ed5abe99900e2a530dcce71d655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 10/40] fix: C_UnwrapKey requires a mechanism that supports
 unwrapping

---
 src/fns/keymgmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 4034047..580aafb 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -425,7 +425,7 @@ fn unwrap_key(
         usize::try_from(wrapped_key_len).map_err(|_| CKR_GENERAL_ERROR)?;
     let data: &[u8] = unsafe { std::slice::from_raw_parts(wrapped_key, wklen) };
     let mech = token.get_mechanisms().get(mechanism.mechanism)?;
-    if mech.info().flags & CKF_WRAP != CKF_WRAP {
+    if mech.info().flags & CKF_UNWRAP != CKF_UNWRAP {
         return Err(CKR_MECHANISM_INVALID)?;
     }
 
-- 
2.43.0


From c9d3eeb000be3bbf7cca34e7d45cbebfa4dbbd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 11/40] fix: return the required length along with
 CKR_BUFFER_TOO_SMALL

---
 src/fns/general.rs | 1 +
 src/fns/keymgmt.rs | 3 +++
 src/fns/signing.rs | 2 ++
 src/fns/stmgmt.rs  | 8 ++++++--
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fns/general.rs b/src/fns/general.rs
index 54c6105..5e28d1a 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -202,6 +202,7 @@ fn get_interface_list(
     }
     unsafe {
         if *count < iflen {
+            *count = iflen;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 580aafb..e29c2d9 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -864,6 +864,9 @@ fn encapsulate_key(
         return Ok(());
     }
     if ciphertext_len > enclen {
+        unsafe {
+            *encrypted_part_len = ctext_len;
+        }
         return Err(CKR_BUFFER_TOO_SMALL)?;
     }
 
diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 530e666..fb97515 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -104,6 +104,7 @@ fn sign(
     }
     unsafe {
         if *pul_signature_len < sig_len {
+            *pul_signature_len = sig_len;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
@@ -235,6 +236,7 @@ fn sign_final(
     }
     unsafe {
         if *pul_signature_len < sig_len {
+            *pul_signature_len = sig_len;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
diff --git a/src/fns/stmgmt.rs b/src/fns/stmgmt.rs
index 87301d1..94fa7ba 100644
--- a/src/fns/stmgmt.rs
+++ b/src/fns/stmgmt.rs
@@ -36,6 +36,7 @@ fn get_slot_list(
     unsafe {
         let num: CK_ULONG = *count;
         if num < silen {
+            *count = silen;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
@@ -156,7 +157,11 @@ fn get_mechanism_list(
     }
     let mechs = token.get_mechs_list();
     let num = unsafe { *count };
-    if (num as usize) < mechs.len() {
+    let cnt = CK_ULONG::try_from(mechs.len()).map_err(|_| CKR_GENERAL_ERROR)?;
+    if num < cnt {
+        unsafe {
+            *count = cnt;
+        }
         return Err(CKR_BUFFER_TOO_SMALL)?;
     }
     for (udx, mech) in mechs.iter().enumerate() {
@@ -165,7 +170,6 @@ fn get_mechanism_list(
             core::ptr::write(mechanism_list.offset(idx), *mech);
         }
     }
-    let cnt = CK_ULONG::try_from(mechs.len()).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe {
         *count = cnt;
     }
-- 
2.43.0


From 40d5e96997e5c167b9aeacedb91d61be28286926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:58 +0000
Subject: [PATCH 12/40] fix: unextractable keys can not be searched by
 sensitive attributes

---
 src/storage/format.rs | 2 +-
 src/token.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index 611150b..d96be53 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -430,7 +430,7 @@ impl Storage for StdStorageFormat {
         let mut objects = self.store.search(template)?;
         let mut result = Vec::<CK_OBJECT_HANDLE>::with_capacity(objects.len());
         for mut obj in objects.drain(..) {
-            if obj.is_sensitive() {
+            if obj.is_sensitive() || !obj.is_extractable() {
                 obj.set_zeroize();
                 match facilities.factories.check_sensitive(&obj, template) {
                     Err(_) => continue,
diff --git a/src/token.rs b/src/token.rs
index 8c7ce83..3828ef1 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -915,7 +915,7 @@ impl Token {
 
         /* First add internal session objects */
         for (_, o) in &self.session_objects {
-            if o.is_sensitive() {
+            if o.is_sensitive() || !o.is_extractable() {
                 match self.facilities.factories.check_sensitive(o, template) {
                     Err(_) => continue,
                     Ok(()) => (),
-- 
2.43.0


From 14bd4beed9140b21e7ccaba8c88b61bac6280e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 13/40] fix: C_DestroyObject reports a failure to remove the
 object from storage

---
 src/token.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 3828ef1..ce57a63 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -764,7 +764,15 @@ impl Token {
                 if !obj.is_destroyable() {
                     return Err(CKR_ACTION_PROHIBITED)?;
                 }
-                let _ = self.storage.remove(&self.facilities, o_handle);
+                match self.storage.remove(&self.facilities, o_handle) {
+                    Ok(()) => (),
+                    Err(e) => {
+                        /* some storage backends do not support removal */
+                        if e.rv() != CKR_FUNCTION_NOT_SUPPORTED {
+                            return Err(e);
+                        }
+                    }
+                }
             }
         }
         self.facilities.handles.remove(o_handle);
-- 
2.43.0


From a95d8ad54f7553b83364b728845056341058738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 14/40] fix: C_Login fails if the attempt counter can not be
 stored

---
 src/storage/format.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index d96be53..d4edec5 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -504,7 +504,13 @@ impl Storage for StdStorageFormat {
         )?;
 
         if update {
-            let _ = self.store.store_user(uid, &user_data);
+            if let Err(e) = self.store.store_user(uid, &user_data) {
+                /* never authenticate if the attempt can't be accounted */
+                if !check_only {
+                    self.aci.unauth();
+                }
+                return Err(e);
+            }
         }
 
         if user_data.cur_attempts == 0 {
-- 
2.43.0


From 49682bca6dec305d3df2882d52405f959681d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 15/40] fix: a failed PIN check must not drop the NSS DB keys
 of a logged in user

---
 src/storage/nssdb/mod.rs | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 2e6ffa9..626102f 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1477,37 +1477,25 @@ impl Storage for NSSStorage {
          * to the chosen algorithm. The data is a structured ASN.1
          * structure that includes in formation about which algorithm
          * to use for the decryption.
-         * NOTE: to allow key caching we set the key unchecked, and
-         * then remove it on failure or if only a check was requested */
+         * NOTE: the check is performed on a temporary set of keys, so
+         * that a failure does not affect a previously authenticated user */
         let (salt, data) = self.fetch_password()?;
         let enckey = enckey_derive(facilities, pin, salt.as_slice())?;
-        let originally_set = self.keys.available();
-        if originally_set && self.keys.check_key(enckey.as_slice()) {
+        if self.keys.available() && self.keys.check_key(enckey.as_slice()) {
             return Ok(());
         }
-        self.keys.set_key(enckey);
-        let check = match decrypt_data(facilities, &self.keys, data.as_slice())
-        {
-            Ok(plain) => {
-                if plain.as_slice() == NSS_PASS_CHECK {
-                    Ok(())
-                } else {
-                    Err(CKR_PIN_INCORRECT)?
-                }
-            }
-            Err(e) => Err(e),
-        };
-        if check.is_err() {
-            /* unconditionally remove the key on failure */
-            self.keys.unset_key();
-            return check;
+        let mut keys = KeysWithCaching::default();
+        keys.set_key(enckey);
+        let plain = decrypt_data(facilities, &keys, data.as_slice())?;
+        if plain.as_slice() != NSS_PASS_CHECK {
+            return Err(CKR_PIN_INCORRECT)?;
         }
 
         /* NSS does not support any error counter for authentication attempts */
         *flag = 0;
 
-        if check_only && !originally_set {
-            self.keys.unset_key();
+        if !check_only {
+            self.keys = keys;
         }
         Ok(())
     }
-- 
2.43.0


From 467adafb5eb00e2950450a0868769c0960887bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:23 +0000
Subject: [PATCH 16/40] fix: NSS config parsing must not slice out of bounds

---
 src/storage/nssdb/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/nssdb/config.rs b/src/storage/nssdb/config.rs
index 5b2f9f7..6190c49 100644
--- a/src/storage/nssdb/config.rs
+++ b/src/storage/nssdb/config.rs
@@ -111,7 +111,7 @@ impl NSSConfig {
         let mut idx = 0;
         while idx < args.len() {
             let next = match args[idx..].iter().position(|&x| x == ',' as u8) {
-                Some(n) => n,
+                Some(n) => idx + n,
                 None => args.len(),
             };
             let flag = String::from_utf8_lossy(&args[idx..next]).to_lowercase();
@@ -171,7 +171,7 @@ impl NSSConfig {
                 /* backtrack check for escapes */
                 let mut esc = 0;
                 while esc < pos {
-                    if args[pos - 1 - esc] == '\\' as u8 {
+                    if args[idx - 1 - esc] == '\\' as u8 {
                         esc += 1;
                     } else {
                         break;
-- 
2.43.0


From bd17c825fd1e0ad3fb462f43dc702eabaa5117ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 17/40] fix: C_GetObjectSize does not reveal private token
 objects

---
 src/token.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index ce57a63..adbf0de 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -877,6 +877,11 @@ impl Token {
                 &[],
             )?),
         };
+        if !self.is_logged_in(KRY_UNSPEC) && obj.is_token() && obj.is_private()
+        {
+            /* do not reveal if the object exists or not */
+            return Err(CKR_OBJECT_HANDLE_INVALID)?;
+        }
         obj.rough_size()
     }
 
-- 
2.43.0


From 318ec17973de9914d3ff9a9a7e2412ef6796d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 18/40] fix: C_GetSessionValidationFlags always validates the
 session

---
 src/fns/sessmgmt.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index bf7d8b8..0becf74 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -536,12 +536,11 @@ fn get_session_validation_flags(
     if pflags.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
+    let rstate = STATE.rlock()?;
+    let session = rstate.get_session(s_handle)?;
     let flags: CK_FLAGS = if flags_type != CKS_LAST_VALIDATION_OK {
         0
     } else {
-        let rstate = STATE.rlock()?;
-        let session = rstate.get_session(s_handle)?;
-
         session.get_last_validation_flags()
     };
     unsafe { *pflags = flags };
-- 
2.43.0


From a2daebbc26a945a18f47de262f38c9ccd9ef211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 19/40] fix: HOTP counter must not overflow

---
 src/hotp.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/hotp.rs b/src/hotp.rs
index 7b23e21..069e32d 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -551,6 +551,11 @@ impl Sign for HOTPOperation {
 
         self.finalized = true;
 
+        let next = match u64::from_be_bytes(self.counter).checked_add(1) {
+            Some(n) => n,
+            None => return Err(CKR_FUNCTION_FAILED)?,
+        };
+
         let mut otp = vec![0u8; self.length];
         let counter = self.counter;
         self.generate_otp(&counter, &mut otp)?;
@@ -578,9 +583,7 @@ impl Sign for HOTPOperation {
         }
 
         if self.update.is_some() {
-            let mut c_val = u64::from_be_bytes(self.counter);
-            c_val += 1;
-            self.counter = c_val.to_be_bytes();
+            self.counter = next.to_be_bytes();
             self.update = Some(true);
         }
 
@@ -634,17 +637,21 @@ impl Verify for HOTPOperation {
             if i > 0 {
                 self.hmac.reset()?;
             }
+            let next = match c_val.checked_add(1) {
+                Some(n) => n,
+                None => return Err(CKR_FUNCTION_FAILED)?,
+            };
             let current_counter = c_val.to_be_bytes();
             let mut otp = vec![0u8; self.length];
             self.generate_otp(&current_counter, &mut otp)?;
             if signature == otp {
                 if self.update.is_some() {
-                    self.counter = (c_val + 1).to_be_bytes();
+                    self.counter = next.to_be_bytes();
                     self.update = Some(true);
                 }
                 return Ok(());
             }
-            c_val += 1;
+            c_val = next;
         }
         Err(CKR_SIGNATURE_INVALID)?
     }
-- 
2.43.0


From c058e3766559b7a5b402fa969b09d0034094b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 20/40] fix: compare HOTP values in constant time

---
 src/hotp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hotp.rs b/src/hotp.rs
index 069e32d..61435fc 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -22,6 +22,8 @@ use crate::object::otp::OTPKeyFactory;
 use crate::object::{Object, ObjectType};
 use crate::pkcs11::*;
 
+use constant_time_eq::constant_time_eq;
+
 /// Object that holds HOTP Mechanisms
 pub(crate) static HOTP_MECHS: LazyLock<[Box<dyn Mechanism>; 2]> =
     LazyLock::new(|| {
@@ -644,7 +646,7 @@ impl Verify for HOTPOperation {
             let current_counter = c_val.to_be_bytes();
             let mut otp = vec![0u8; self.length];
             self.generate_otp(&current_counter, &mut otp)?;
-            if signature == otp {
+            if constant_time_eq(signature, &otp) {
                 if self.update.is_some() {
                     self.counter = next.to_be_bytes();
                     self.update = Some(true);
-- 
2.43.0


From 1be936c268f087d0caa627440d1d8a4bcc64fb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 21/40] fix: C_DeriveKey must not create token objects in R/O
 sessions

---
 src/fns/keymgmt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index e29c2d9..1c182a6 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -620,6 +620,10 @@ fn derive_key(
     if result.len() == 0 {
         return Err(CKR_GENERAL_ERROR)?;
     }
+    /* the objects may come from additional templates too */
+    if !session.is_writable() && result.iter().any(|o| o.is_token()) {
+        return Err(CKR_SESSION_READ_ONLY)?;
+    }
 
     #[cfg(feature = "fips")]
     {
-- 
2.43.0


From 34caa84eabbd132bdb249ce9fe39b6e4eb9aed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 22/40] fix: check the allowed mechanisms of the key given to
 C_SetOperationState

---
 src/session.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index 00aee55..73d8570 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -234,6 +234,20 @@ static OPSTATE_AAD: &str = "Kryoptic_State";
 static OPSTATE_AES_KEY: LazyLock<Object> =
     LazyLock::new(|| encryption::ephemeral_key());
 
+/// Checks that the key given to continue a restored operation may be used
+/// with the mechanism of that operation
+fn check_restore_mech(mech: CK_MECHANISM_TYPE, key: &Object) -> Result<()> {
+    let mechanism = CK_MECHANISM {
+        mechanism: mech,
+        pParameter: std::ptr::null_mut(),
+        ulParameterLen: 0,
+    };
+    match crate::check_allowed_mechs(&mechanism, key) {
+        CKR_OK => Ok(()),
+        err => Err(err)?,
+    }
+}
+
 trait ManageOperationState {
     fn op_state_size(so: &mut SessionOperations) -> Result<usize>;
     fn op_state_save(so: &mut SessionOperations) -> Result<SaveStateData>;
@@ -770,12 +784,14 @@ impl Session {
         }
         if let Some(op) = opstate.sig {
             let op_key = key.ok_or(CKR_KEY_NEEDED)?;
+            check_restore_mech(op.mech, op_key)?;
             let mech_h = mechanisms.get(op.mech)?;
             let operation = mech_h.sign_restore(op.mech, op_key, op.data)?;
             self.set_operation::<dyn Sign>(operation, op_key.always_auth());
         }
         if let Some(op) = opstate.ver {
             let op_key = key.ok_or(CKR_KEY_NEEDED)?;
+            check_restore_mech(op.mech, op_key)?;
             let mech_h = mechanisms.get(op.mech)?;
             let operation = mech_h.verify_restore(op.mech, op_key, op.data)?;
             self.set_operation::<dyn Verify>(operation, false);
-- 
2.43.0


From 010e32c066e2727d864e11b81e16cf3591dcbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:06 +0000
Subject: [PATCH 23/40] fix: TLS MAC operations require CKA_SIGN or CKA_VERIFY
 on the key

---
 src/tlskdf.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tlskdf.rs b/src/tlskdf.rs
index 95b2c6a..daef960 100644
--- a/src/tlskdf.rs
+++ b/src/tlskdf.rs
@@ -111,6 +111,11 @@ impl Mechanism for TLSPRFMechanism {
         if self.info.flags & CKF_SIGN != CKF_SIGN {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        key.check_key_ops(
+            CKO_SECRET_KEY,
+            CK_UNAVAILABLE_INFORMATION,
+            CKA_SIGN,
+        )?;
         match mech.mechanism {
             CKM_TLS_MAC | CKM_TLS12_MAC => {
                 Ok(Box::new(TLSMACOperation::new(mech, key)?))
@@ -131,6 +136,11 @@ impl Mechanism for TLSPRFMechanism {
         if self.info.flags & CKF_VERIFY != CKF_VERIFY {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        key.check_key_ops(
+            CKO_SECRET_KEY,
+            CK_UNAVAILABLE_INFORMATION,
+            CKA_VERIFY,
+        )?;
         match mech.mechanism {
             CKM_TLS_MAC | CKM_TLS12_MAC => {
                 Ok(Box::new(TLSMACOperation::new(mech, key)?))
-- 
2.43.0


From b435c096168f35293ed95e12677e1be2a5134eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 24/40] fix: an unwrapped key is neither always sensitive nor
 never extractable

---
 src/object/factory.rs | 10 ++--------
 src/object/key.rs     | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 7e98cfe..ab924e0 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -447,10 +447,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
                 let mut val = !e;
                 match obj.get_attr_as_bool(CKA_NEVER_EXTRACTABLE) {
                     Ok(ne) => val &= ne,
-                    Err(_) => match origin.get_attr_as_bool(CKA_EXTRACTABLE) {
-                        Ok(oe) => val &= !oe,
-                        Err(_) => val = false,
-                    },
+                    Err(_) => val = false,
                 }
                 let _ = obj.set_attr(Attribute::from_bool(
                     CKA_NEVER_EXTRACTABLE,
@@ -464,10 +461,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
                 let mut val = b;
                 match origin.get_attr_as_bool(CKA_ALWAYS_SENSITIVE) {
                     Ok(ob) => val &= ob,
-                    Err(_) => match origin.get_attr_as_bool(CKA_SENSITIVE) {
-                        Ok(os) => val &= os,
-                        Err(_) => val = false,
-                    },
+                    Err(_) => val = false,
                 }
                 let _ = obj.set_attr(Attribute::from_bool(
                     CKA_ALWAYS_SENSITIVE,
diff --git a/src/object/key.rs b/src/object/key.rs
index 85d5c38..4f75424 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -78,6 +78,13 @@ pub trait KeyFactory: ObjectFactory {
             OAFlags::RequiredOnCreate,
         )?;
 
+        self.mark_imported(&mut obj)?;
+        Ok(obj)
+    }
+
+    /// Marks a key which was not generated on the token: it is neither
+    /// local, nor was it ever always sensitive or never extractable.
+    fn mark_imported(&self, obj: &mut Object) -> Result<()> {
         match obj.get_class() {
             CKO_PUBLIC_KEY | CKO_PRIVATE_KEY | CKO_SECRET_KEY | CKO_OTP_KEY => {
                 // default key attributes on CreateObject
@@ -100,7 +107,7 @@ pub trait KeyFactory: ObjectFactory {
             }
             _ => (),
         }
-        Ok(obj)
+        Ok(())
     }
 
     /// Default key object generation function
@@ -122,11 +129,13 @@ pub trait KeyFactory: ObjectFactory {
     ///
     /// Uses `internal_key_create()` with appropriate flags.
     fn key_unwrap(&self, template: &[CK_ATTRIBUTE]) -> Result<Object> {
-        self.internal_key_create(
+        let mut obj = self.internal_key_create(
             template,
             OAFlags::NeverSettable,
             OAFlags::AlwaysRequired,
-        )
+        )?;
+        self.mark_imported(&mut obj)?;
+        Ok(obj)
     }
 
     /// The internal key object derivation function
-- 
2.43.0


From 18f4ae3375e83916b0c12069aace289b6e0fa9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 25/40] fix: keys derived by ECDH and FFDH are not local and
 inherit the base key's history

---
 src/object/key.rs | 67 ++++++++++++++++++++++++++---------------------
 src/object/mod.rs |  4 +--
 src/ossl/ecdh.rs  |  4 +--
 src/ossl/ffdh.rs  |  4 +--
 4 files changed, 43 insertions(+), 36 deletions(-)

diff --git a/src/object/key.rs b/src/object/key.rs
index 4f75424..69521b4 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -158,36 +158,7 @@ pub trait KeyFactory: ObjectFactory {
             OAFlags::AlwaysRequired,
         )?;
         /* overrides */
-        obj.set_attr(Attribute::from_bool(CKA_LOCAL, false))?;
-        match origin.get_attr_as_bool(CKA_ALWAYS_SENSITIVE) {
-            Ok(b) => match b {
-                false => obj.set_attr(Attribute::from_bool(
-                    CKA_ALWAYS_SENSITIVE,
-                    false,
-                ))?,
-                true => obj.set_attr(Attribute::from_bool(
-                    CKA_ALWAYS_SENSITIVE,
-                    obj.is_sensitive(),
-                ))?,
-            },
-            Err(_) => {
-                obj.set_attr(Attribute::from_bool(CKA_ALWAYS_SENSITIVE, false))?
-            }
-        };
-        match origin.get_attr_as_bool(CKA_NEVER_EXTRACTABLE) {
-            Ok(b) => match b {
-                false => obj.set_attr(Attribute::from_bool(
-                    CKA_NEVER_EXTRACTABLE,
-                    false,
-                ))?,
-                true => obj.set_attr(Attribute::from_bool(
-                    CKA_NEVER_EXTRACTABLE,
-                    !obj.is_extractable(),
-                ))?,
-            },
-            Err(_) => obj
-                .set_attr(Attribute::from_bool(CKA_NEVER_EXTRACTABLE, false))?,
-        };
+        derived_key_attributes(&mut obj, origin)?;
         Ok(obj)
     }
 
@@ -488,6 +459,42 @@ pub fn default_secret_key_generate(key: &mut Object) -> Result<()> {
     Ok(())
 }
 
+/// Sets the default attributes of a derived key
+///
+/// A derived key is not local and can be considered always sensitive or
+/// never extractable only if the key it is derived from is too.
+pub fn derived_key_attributes(key: &mut Object, origin: &Object) -> Result<()> {
+    key.set_attr(Attribute::from_bool(CKA_LOCAL, false))?;
+    match origin.get_attr_as_bool(CKA_ALWAYS_SENSITIVE) {
+        Ok(b) => match b {
+            false => {
+                key.set_attr(Attribute::from_bool(CKA_ALWAYS_SENSITIVE, false))?
+            }
+            true => key.set_attr(Attribute::from_bool(
+                CKA_ALWAYS_SENSITIVE,
+                key.is_sensitive(),
+            ))?,
+        },
+        Err(_) => {
+            key.set_attr(Attribute::from_bool(CKA_ALWAYS_SENSITIVE, false))?
+        }
+    };
+    match origin.get_attr_as_bool(CKA_NEVER_EXTRACTABLE) {
+        Ok(b) => match b {
+            false => key
+                .set_attr(Attribute::from_bool(CKA_NEVER_EXTRACTABLE, false))?,
+            true => key.set_attr(Attribute::from_bool(
+                CKA_NEVER_EXTRACTABLE,
+                !key.is_extractable(),
+            ))?,
+        },
+        Err(_) => {
+            key.set_attr(Attribute::from_bool(CKA_NEVER_EXTRACTABLE, false))?
+        }
+    };
+    Ok(())
+}
+
 /// Helper function to set generic attributes applicable to all keys
 /// to their defaults based on the mechanism that generated the key
 pub fn default_key_attributes(
diff --git a/src/object/mod.rs b/src/object/mod.rs
index 54a3f20..5b052f4 100644
--- a/src/object/mod.rs
+++ b/src/object/mod.rs
@@ -29,8 +29,8 @@ pub use factory::{
 
 pub use key::{
     default_key_attributes, default_secret_key_generate,
-    GenericSecretKeyFactory, GenericSecretKeyMechanism, KeyFactory,
-    PrivKeyFactory, PubKeyFactory, SecretKeyFactory,
+    derived_key_attributes, GenericSecretKeyFactory, GenericSecretKeyMechanism,
+    KeyFactory, PrivKeyFactory, PubKeyFactory, SecretKeyFactory,
 };
 
 /// Helper macro that generates methods to check specific boolean
diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index 3f054a6..99afa3a 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -11,7 +11,7 @@ use crate::attribute::CkAttrs;
 use crate::error::Result;
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
 use crate::misc::{bytes_to_vec, zeromem};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{derived_key_attributes, Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -235,7 +235,7 @@ impl Derive for ECDHOperation {
         tmpl.zeroize = true;
         let mut obj = factory.create(tmpl.as_slice())?;
 
-        default_key_attributes(&mut obj, self.mech)?;
+        derived_key_attributes(&mut obj, key)?;
         Ok(vec![obj])
     }
 }
diff --git a/src/ossl/ffdh.rs b/src/ossl/ffdh.rs
index 0ba48de..1da45c4 100644
--- a/src/ossl/ffdh.rs
+++ b/src/ossl/ffdh.rs
@@ -11,7 +11,7 @@ use crate::attribute::{Attribute, CkAttrs};
 use crate::error::{Error, Result};
 use crate::ffdh_groups::{get_group_name, DHGroupName};
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{derived_key_attributes, Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -233,7 +233,7 @@ impl Derive for FFDHOperation {
         tmpl.zeroize = true;
         let mut obj = factory.create(tmpl.as_slice())?;
 
-        default_key_attributes(&mut obj, self.mech)?;
+        derived_key_attributes(&mut obj, key)?;
         Ok(vec![obj])
     }
 }
-- 
2.43.0


From e1317d3e0c2c154ded88d7fc009a1ea24b6e18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 26/40] fix: keys derived by copying base key bytes keep the
 base key's protection

---
 src/native/simplekdf.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 0ecf0e7..f3b77b0 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -253,6 +253,25 @@ impl Derive for SimpleKDFOperation {
             _ => return Err(CKR_MECHANISM_INVALID)?,
         };
 
+        if self.mech != CKM_CONCATENATE_BASE_AND_KEY {
+            /* the derived key holds bytes of the base key, so it must be
+             * protected at least as much as the base key is */
+            if base_key_info.sensitive {
+                dkey.set_attr(Attribute::from_bool(CKA_SENSITIVE, true))?;
+            }
+            if !base_key_info.extractable {
+                dkey.set_attr(Attribute::from_bool(CKA_EXTRACTABLE, false))?;
+            }
+            dkey.set_attr(Attribute::from_bool(
+                CKA_ALWAYS_SENSITIVE,
+                base_key_info.sensitive && base_key_info.always_sensitive,
+            ))?;
+            dkey.set_attr(Attribute::from_bool(
+                CKA_NEVER_EXTRACTABLE,
+                !base_key_info.extractable && base_key_info.never_extractable,
+            ))?;
+        }
+
         let outlen = match self.mech {
             CKM_XOR_BASE_AND_DATA => {
                 std::cmp::min(base_key_info.value.len(), other_data_len)
-- 
2.43.0


From 6cf4028c3d5c857d90befe86889c08d0d2d3bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 27/40] fix: extracting a key at a byte aligned offset does not
 panic

---
 src/native/simplekdf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index f3b77b0..66e3b00 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -297,10 +297,9 @@ impl Derive for SimpleKDFOperation {
         if self.mech == CKM_EXTRACT_KEY_FROM_KEY {
             let bit_offset =
                 self.bit_offset.ok_or(CKR_MECHANISM_PARAM_INVALID)?;
-            let required_bits = keylen * 8;
             let available_bits = base_key_info.value.len() * 8;
-            if (required_bits > available_bits)
-                || (bit_offset + 7) / 8 > available_bits as CK_ULONG
+            if keylen > base_key_info.value.len()
+                || bit_offset.div_ceil(8) > available_bits as CK_ULONG
             {
                 return Err(CKR_TEMPLATE_INCONSISTENT)?;
             }
@@ -365,7 +364,8 @@ impl Derive for SimpleKDFOperation {
                         << bit_shift;
                     let second_half = base_key_info.value
                         [(base_byte + i + 1) % outlen]
-                        >> (8 - bit_shift);
+                        .checked_shr(8 - bit_shift as u32)
+                        .unwrap_or(0);
                     secret[i] = first_half | second_half;
                 }
             }
-- 
2.43.0


From 6c818118db2832ccdd19c06f86b978bc78a75e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 28/40] fix: a failed C_Initialize does not leave the library
 initialized

---
 src/fns/general.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/fns/general.rs b/src/fns/general.rs
index 5e28d1a..42cc20c 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -13,7 +13,7 @@ use crate::error::Result;
 use crate::log_debug;
 use crate::pkcs11::*;
 use crate::slot::Slot;
-use crate::STATE;
+use crate::{State, STATE};
 
 #[inline(always)]
 fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
@@ -45,17 +45,30 @@ fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
     conf.load_env_vars_overrides();
 
     let mut wstate = STATE.wlock_noinitcheck()?;
-    let mut already_init = false;
+    let already_init = wstate.is_initialized();
 
-    if wstate.is_initialized() {
-        already_init = true;
-    } else {
-        wstate.initialize();
+    if already_init {
+        add_slots(&conf, &mut wstate)?;
+        return Err(CKR_CRYPTOKI_ALREADY_INITIALIZED)?;
+    }
+
+    wstate.initialize();
+    let ret = add_slots(&conf, &mut wstate);
+    if ret.is_err() {
+        /* do not leave a partially initialized library behind */
+        let _ = wstate.finalize();
     }
+    ret
+}
+
+/// Creates slots for any new slot specified in the configuration that has
+/// not been created yet, new slots can be added via init args so this is
+/// checked on every initialization.
+///
+/// Returns CKR_CRYPTOKI_ALREADY_INITIALIZED if any slot already existed.
+fn add_slots(conf: &Config, wstate: &mut State) -> Result<()> {
+    let mut already_init = false;
 
-    /* create slots for any new slot specified in the configuration
-     * that has not been created yet, new slots can be added via
-     * init args so we check this every time */
     for slot in &conf.slots {
         let slotnum =
             CK_SLOT_ID::try_from(slot.slot).map_err(|_| CKR_GENERAL_ERROR)?;
-- 
2.43.0


From 0c1d340759c21253e89fc4b79429a86c52b895e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 29/40] fix: C_GetInfo fails when the library is not
 initialized

---
 src/fns/general.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fns/general.rs b/src/fns/general.rs
index 42cc20c..b0bb4bd 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -138,6 +138,8 @@ fn get_info(info: CK_INFO_PTR) -> Result<()> {
     if info.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
+    /* checks that the library is initialized */
+    let _rstate = STATE.rlock()?;
     unsafe {
         *info = crate::MODULE_INFO;
     }
-- 
2.43.0


From 8d5cebc11b34cdc286be54abfb7c6eebc7671946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 30/40] fix: null value pointers with a non zero length are
 refused, not dereferenced

---
 src/hmac.rs       |  3 ++-
 src/pkcs11/mod.rs | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 132f6ac..d8a0092 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -217,7 +217,8 @@ impl HMACMechanism {
             }
             return Ok(self.maxlen);
         }
-        if mech.ulParameterLen != sizeof!(CK_ULONG) {
+        if mech.ulParameterLen != sizeof!(CK_ULONG) || mech.pParameter.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let genlen = usize::try_from(unsafe {
diff --git a/src/pkcs11/mod.rs b/src/pkcs11/mod.rs
index 5591879..3ea0fb4 100644
--- a/src/pkcs11/mod.rs
+++ b/src/pkcs11/mod.rs
@@ -913,7 +913,9 @@ impl CK_ATTRIBUTE {
     ///
     /// Errors out if the data size does not match the size of a CK_ULONG
     pub fn to_ulong(&self) -> Result<CK_ULONG> {
-        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
         }
         Ok(unsafe { *(self.pValue as CK_ULONG_PTR) })
@@ -923,7 +925,9 @@ impl CK_ATTRIBUTE {
     ///
     /// Errors out if the data size does not match the size of a CK_BBOOL
     pub fn to_bool(self) -> Result<bool> {
-        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
         }
         let val: CK_BBOOL = unsafe { *(self.pValue as CK_BBOOL_PTR) };
@@ -1017,7 +1021,7 @@ impl CK_MECHANISM {
         let Ok(len) = usize::try_from(self.ulParameterLen) else {
             return Err(CKR_ARGUMENTS_BAD)?;
         };
-        if len != std::mem::size_of::<T>() {
+        if len != std::mem::size_of::<T>() || self.pParameter.is_null() {
             return Err(CKR_ARGUMENTS_BAD)?;
         }
         Ok(unsafe { std::ptr::read_unaligned(self.pParameter as *const T) })
@@ -1033,7 +1037,9 @@ impl CK_OTP_PARAM {
     ///
     /// Errors out if the data size does not match the size of a CK_ULONG
     pub fn to_ulong(&self) -> Result<CK_ULONG> {
-        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         Ok(unsafe { *(self.pValue as CK_ULONG_PTR) })
@@ -1043,7 +1049,9 @@ impl CK_OTP_PARAM {
     ///
     /// Errors out if the data size does not match the size of a CK_BBOOL
     pub fn to_bool(self) -> Result<bool> {
-        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG {
+        if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG
+            || self.pValue.is_null()
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let val: CK_BBOOL = unsafe { *(self.pValue as CK_BBOOL_PTR) };
-- 
2.43.0


From b5d30e8ef3fc06bd67529b6fb1e73fb69b49f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 31/40] fix: refuse zero length MACs in AES-CMAC, AES-MAC and
 TLS-MAC

---
 src/native/tlskdf.rs | 3 +++
 src/ossl/aes.rs      | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index 08b4e41..69a51fb 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -969,6 +969,9 @@ impl TLSMACOperation {
             Err(_) => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         };
         let maclen = params.ulMacLength as usize;
+        if maclen == 0 {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
 
         let label = match params.ulServerOrClient {
             1 => TLS_SERVER_FINISHED,
diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 48f9a44..86c9695 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2450,7 +2450,7 @@ impl AesCmacOperation {
             CKM_AES_CMAC_GENERAL => {
                 let params = mech.get_parameters::<CK_MAC_GENERAL_PARAMS>()?;
                 let val = params as usize;
-                if val > AES_BLOCK_SIZE {
+                if val == 0 || val > AES_BLOCK_SIZE {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
                 }
                 val
@@ -2757,7 +2757,7 @@ impl AesMacOperation {
                 let params = mech.get_parameters::<CK_MAC_GENERAL_PARAMS>()?;
                 let val = params as usize;
 
-                if val > AES_BLOCK_SIZE {
+                if val == 0 || val > AES_BLOCK_SIZE {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
                 }
                 val
-- 
2.43.0


From 3182a583b26c832d9dbdae9cbef3bd4e161ec3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 32/40] fix: AES-CCM decryption must not succeed without
 checking the tag

---
 src/ossl/aes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 86c9695..9ce6058 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1694,6 +1694,9 @@ impl Decryption for AesOperation {
 
                     zeromem(self.buffer.as_mut_slice());
                     self.buffer.clear();
+                    /* mark that the data has been processed, and
+                     * therefore that the tag has been verified */
+                    self.blockctr = 1;
                 }
 
                 /* One way or another the cipher buffer has been utilized */
@@ -1842,7 +1845,8 @@ impl Decryption for AesOperation {
         let mut outlen = 0;
         match self.mech {
             CKM_AES_CCM => {
-                if self.buffer.len() > 0 {
+                /* without the whole data the tag was never checked */
+                if self.buffer.len() > 0 || self.blockctr == 0 {
                     return Err(CKR_DATA_LEN_RANGE)?;
                 }
             }
-- 
2.43.0


From 8c1b479f56bf03a1752c1e31972752077460b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 33/40] fix: nssdb: do not accept truncated MACs or short MAC
 keys from the database

The length of the attribute signature and of the derived MAC key were taken
from the database, so a modified database could reduce the check to a one
byte MAC, or to a MAC with a one byte key.
---
 src/storage/nssdb/ci.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 50327d8..88da709 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -354,6 +354,15 @@ fn derive_key_internal<'a>(
         Some(l) => CK_ULONG::try_from(l)?,
         None => return Err(CKR_MECHANISM_PARAM_INVALID)?,
     };
+    /* the database must not be able to select a short (guessable) MAC key */
+    match operation {
+        KeyOp::Encryption => (),
+        KeyOp::Signature => {
+            if ck_key_len != CK_ULONG::try_from(SHA256_LEN)? {
+                return Err(CKR_MECHANISM_PARAM_INVALID)?;
+            }
+        }
+    }
     let ck_true: CK_BBOOL = CK_TRUE;
     let mut key_template = CkAttrs::with_capacity(5);
     key_template.add_ulong(CKA_CLASS, &ck_class);
@@ -529,6 +538,10 @@ fn hmac_verify(
     plaintext: &[u8],
     signature: &[u8],
 ) -> Result<()> {
+    /* a truncated MAC must not be accepted from the database */
+    if signature.len() != SHA256_LEN {
+        return Err(CKR_SIGNATURE_LEN_RANGE)?;
+    }
     let siglen = CK_ULONG::try_from(signature.len())?;
     let ck_mech = CK_MECHANISM {
         mechanism: mechanism,
-- 
2.43.0


From 5468c47b26fba2968315dca633218a0cf5bc12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 34/40] fix: end an operation when it fails

Several operations stayed active after a failure other than a too small
buffer (a refused update, a failed OpenSSL call, an RSA encryption of too
much data), so that the session refused to start the next operation with
CKR_OPERATION_ACTIVE. RSA encryption and decryption with an empty output
buffer reported success without any output, and C_FindObjectsFinal
succeeded without an active search.
---
 src/fns/objmgmt.rs |  1 +
 src/hotp.rs        |  4 ++++
 src/ossl/aes.rs    | 29 ++++++++++++++++++++++-------
 src/ossl/ecdsa.rs  | 12 ++++++++++--
 src/ossl/hash.rs   |  4 ++--
 src/ossl/rsa.rs    | 42 +++++++++++++++++++++++++++---------------
 6 files changed, 66 insertions(+), 26 deletions(-)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index 20ceb37..e61db80 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -569,6 +569,7 @@ pub extern "C" fn fn_find_objects(
 fn find_objects_final(s_handle: CK_SESSION_HANDLE) -> Result<()> {
     let rstate = STATE.rlock()?;
     let mut session = rstate.get_session_mut(s_handle)?;
+    session.check_op::<dyn SearchOperation>()?;
     session.cancel_operation::<dyn SearchOperation>()
 }
 
diff --git a/src/hotp.rs b/src/hotp.rs
index 61435fc..0507755 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -529,12 +529,14 @@ impl MechOperation for HOTPOperation {
 impl Sign for HOTPOperation {
     fn sign(&mut self, data: &[u8], signature: &mut [u8]) -> Result<()> {
         if data.len() != 0 {
+            self.finalized = true;
             return Err(CKR_DATA_INVALID)?;
         }
         self.sign_final(signature)
     }
 
     fn sign_update(&mut self, _data: &[u8]) -> Result<()> {
+        self.finalized = true;
         Err(CKR_DATA_INVALID)?
     }
 
@@ -615,12 +617,14 @@ impl Sign for HOTPOperation {
 impl Verify for HOTPOperation {
     fn verify(&mut self, data: &[u8], signature: &[u8]) -> Result<()> {
         if data.len() != 0 {
+            self.finalized = true;
             return Err(CKR_DATA_INVALID)?;
         }
         self.verify_final(signature)
     }
 
     fn verify_update(&mut self, _data: &[u8]) -> Result<()> {
+        self.finalized = true;
         Err(CKR_DATA_INVALID)?
     }
 
diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 9ce6058..96a32cf 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1390,9 +1390,10 @@ impl Encryption for AesOperation {
                     ));
                 }
 
+                self.finalized = true;
+
                 outlen = ctx.finalize(cipher)?;
                 if outlen != 0 {
-                    self.finalized = true;
                     return Err(CKR_DEVICE_ERROR)?;
                 }
                 outlen = self.params.taglen;
@@ -2524,6 +2525,9 @@ impl AesCmacOperation {
         self.fips_approval.clear();
 
         let ret = self.ctx.update(data);
+        if ret.is_err() {
+            self.finalized = true;
+        }
 
         #[cfg(feature = "fips")]
         self.fips_approval.update();
@@ -2832,8 +2836,13 @@ impl AesMacOperation {
             /* first full block */
             cursor = AES_BLOCK_SIZE - self.padlen;
             self.padbuf[self.padlen..].copy_from_slice(&data[..cursor]);
-            let outlen =
-                self.op.encrypt_update(&self.padbuf, &mut self.macbuf)?;
+            let outlen = self
+                .op
+                .encrypt_update(&self.padbuf, &mut self.macbuf)
+                .or_else(|e| {
+                    self.finalized = true;
+                    Err(e)
+                })?;
             if outlen != AES_BLOCK_SIZE {
                 self.finalized = true;
                 return Err(CKR_GENERAL_ERROR)?;
@@ -2843,10 +2852,16 @@ impl AesMacOperation {
 
         /* whole blocks */
         while data_len > AES_BLOCK_SIZE {
-            let outlen = self.op.encrypt_update(
-                &data[cursor..(cursor + AES_BLOCK_SIZE)],
-                &mut self.macbuf,
-            )?;
+            let outlen = self
+                .op
+                .encrypt_update(
+                    &data[cursor..(cursor + AES_BLOCK_SIZE)],
+                    &mut self.macbuf,
+                )
+                .or_else(|e| {
+                    self.finalized = true;
+                    Err(e)
+                })?;
             if outlen != AES_BLOCK_SIZE {
                 self.finalized = true;
                 return Err(CKR_GENERAL_ERROR)?;
diff --git a/src/ossl/ecdsa.rs b/src/ossl/ecdsa.rs
index e5ba7c9..3b399c1 100644
--- a/src/ossl/ecdsa.rs
+++ b/src/ossl/ecdsa.rs
@@ -316,7 +316,11 @@ impl Sign for EcdsaOperation {
         }
         self.in_use = true;
 
-        Ok(self.sigctx.update(data)?)
+        if let Err(e) = self.sigctx.update(data) {
+            self.finalized = true;
+            return Err(e)?;
+        }
+        Ok(())
     }
 
     fn sign_final(&mut self, signature: &mut [u8]) -> Result<()> {
@@ -389,7 +393,11 @@ impl EcdsaOperation {
         }
         self.in_use = true;
 
-        Ok(self.sigctx.update(data)?)
+        if let Err(e) = self.sigctx.update(data) {
+            self.finalized = true;
+            return Err(e)?;
+        }
+        Ok(())
     }
 
     /// Internal helper for the final step of multi-part verification.
diff --git a/src/ossl/hash.rs b/src/ossl/hash.rs
index 105402b..9d0298f 100644
--- a/src/ossl/hash.rs
+++ b/src/ossl/hash.rs
@@ -84,10 +84,10 @@ impl Digest for HashOperation {
         if self.in_use || self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        self.finalized = true;
         if digest.len() != self.hasher.size() {
             return Err(CKR_GENERAL_ERROR)?;
         }
-        self.finalized = true;
         self.hasher.update(data)?;
         let len = self.hasher.finalize(digest)?;
         if len != digest.len() {
@@ -114,10 +114,10 @@ impl Digest for HashOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        self.finalized = true;
         if digest.len() != self.hasher.size() {
             return Err(CKR_GENERAL_ERROR)?;
         }
-        self.finalized = true;
         let len = self.hasher.finalize(digest)?;
         if len != digest.len() {
             return Err(CKR_GENERAL_ERROR)?;
diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index e009014..98119ca 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -548,7 +548,7 @@ impl RsaPKCSOperation {
         info: &CK_MECHANISM_INFO,
     ) -> Result<Vec<u8>> {
         let mut op = Self::decrypt_new(mech, wrapping_key, info)?;
-        let outlen = op.decrypt(data, &mut [])?;
+        let outlen = op.decryption_len(data.len(), true)?;
         let mut result = vec![0u8; outlen];
         let outlen = op.decrypt(data, result.as_mut_slice())?;
         result.resize(outlen, 0);
@@ -583,13 +583,15 @@ impl Encryption for RsaPKCSOperation {
         self.fips_approval.clear();
 
         let len = if let Some(ctx) = &mut self.encctx {
-            let outlen = ctx.encrypt(plain, None)?;
-            if cipher.len() == 0 {
-                return Ok(outlen);
-            } else {
-                if cipher.len() < outlen {
-                    return Err(Error::buf_too_small(outlen));
+            let outlen = match ctx.encrypt(plain, None) {
+                Ok(len) => len,
+                Err(e) => {
+                    self.finalized = true;
+                    return Err(e)?;
                 }
+            };
+            if cipher.len() < outlen {
+                return Err(Error::buf_too_small(outlen));
             }
 
             self.finalized = true;
@@ -641,13 +643,15 @@ impl Decryption for RsaPKCSOperation {
         self.fips_approval.clear();
 
         let len = if let Some(ctx) = &mut self.encctx {
-            let mut outlen = ctx.decrypt(cipher, None)?;
-            if plain.len() == 0 {
-                return Ok(outlen);
-            }
-
+            let mut outlen = match ctx.decrypt(cipher, None) {
+                Ok(len) => len,
+                Err(e) => {
+                    self.finalized = true;
+                    return Err(e)?;
+                }
+            };
             if plain.len() < outlen && plain.len() < self.output_len {
-                return Err(CKR_BUFFER_TOO_SMALL)?;
+                return Err(Error::buf_too_small(outlen));
             }
             self.finalized = true;
 
@@ -768,8 +772,12 @@ impl Sign for RsaPKCSOperation {
         self.fips_approval.clear();
 
         if let Some(ctx) = &mut self.sigctx {
-            ctx.update(data)?;
+            if let Err(e) = ctx.update(data) {
+                self.finalized = true;
+                return Err(e)?;
+            }
         } else {
+            self.finalized = true;
             return Err(CKR_GENERAL_ERROR)?;
         }
 
@@ -876,8 +884,12 @@ impl RsaPKCSOperation {
         self.fips_approval.clear();
 
         if let Some(ctx) = &mut self.sigctx {
-            ctx.update(data)?;
+            if let Err(e) = ctx.update(data) {
+                self.finalized = true;
+                return Err(e)?;
+            }
         } else {
+            self.finalized = true;
             return Err(CKR_GENERAL_ERROR)?;
         }
 
-- 
2.43.0


From a945162dd8432e969eecb1c88a4627889ad2160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 35/40] fix: report the required length when an output buffer
 is too small

---
 src/fns/encryption.rs | 99 +++++++++++++++++++++++--------------------
 src/fns/keymgmt.rs    |  7 ++-
 src/fns/sessmgmt.rs   |  5 ++-
 src/session.rs        |  4 +-
 4 files changed, 64 insertions(+), 51 deletions(-)

diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 75e945b..49d8659 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -9,7 +9,7 @@
 use std::sync::RwLockWriteGuard;
 
 use crate::check_allowed_mechs;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::log_debug;
 use crate::mechanism::{Decryption, Encryption, MsgDecryption, MsgEncryption};
 use crate::pkcs11::*;
@@ -19,6 +19,17 @@ use crate::STATE;
 #[cfg(feature = "fips")]
 use crate::{finalize_fips_approval, init_fips_approval};
 
+/// Reports the required size to the application when an operation fails
+/// because the output buffer is too small
+pub(crate) fn report_size(err: Error, pul_len: CK_ULONG_PTR) -> Error {
+    if err.rv() == CKR_BUFFER_TOO_SMALL {
+        if let Ok(len) = CK_ULONG::try_from(err.reqsize()) {
+            unsafe { *pul_len = len };
+        }
+    }
+    err
+}
+
 #[inline(always)]
 fn encrypt_init(
     s_handle: CK_SESSION_HANDLE,
@@ -109,7 +120,9 @@ fn encrypt(
     let enclen = usize::try_from(penclen).map_err(|_| CKR_ARGUMENTS_BAD)?;
     let encdata: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(encrypted_data, enclen) };
-    let outlen = operation.encrypt(data, encdata)?;
+    let outlen = operation
+        .encrypt(data, encdata)
+        .map_err(|e| report_size(e, pul_encrypted_data_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_encrypted_data_len = retlen };
 
@@ -173,7 +186,9 @@ pub(crate) fn internal_encrypt_update(
         let enclen = usize::try_from(penclen).map_err(|_| CKR_ARGUMENTS_BAD)?;
         let encpart: &mut [u8] =
             unsafe { std::slice::from_raw_parts_mut(encrypted_part, enclen) };
-        operation.encrypt_update(data, encpart)?
+        operation
+            .encrypt_update(data, encpart)
+            .map_err(|e| report_size(e, pul_encrypted_part_len))?
     };
     let cklen = CK_ULONG::try_from(len).map_err(|_| CKR_ARGUMENTS_BAD)?;
     unsafe { *pul_encrypted_part_len = cklen };
@@ -260,7 +275,9 @@ fn encrypt_final(
     let enclen = usize::try_from(penclen).map_err(|_| CKR_ARGUMENTS_BAD)?;
     let enclast: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(last_encrypted_part, enclen) };
-    let outlen = operation.encrypt_final(enclast)?;
+    let outlen = operation
+        .encrypt_final(enclast)
+        .map_err(|e| report_size(e, pul_last_encrypted_part_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_last_encrypted_part_len = retlen };
 
@@ -388,7 +405,9 @@ fn decrypt(
     let dlen = usize::try_from(pdlen).map_err(|_| CKR_ARGUMENTS_BAD)?;
     let ddata: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(data, dlen) };
-    let outlen = operation.decrypt(enc, ddata)?;
+    let outlen = operation
+        .decrypt(enc, ddata)
+        .map_err(|e| report_size(e, pul_data_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_data_len = retlen };
 
@@ -454,7 +473,9 @@ pub(crate) fn internal_decrypt_update(
         let plen = usize::try_from(pplen).map_err(|_| CKR_ARGUMENTS_BAD)?;
         let dpart: &mut [u8] =
             unsafe { std::slice::from_raw_parts_mut(part, plen) };
-        operation.decrypt_update(enc, dpart)?
+        operation
+            .decrypt_update(enc, dpart)
+            .map_err(|e| report_size(e, pul_part_len))?
     };
     let cklen = CK_ULONG::try_from(len).map_err(|_| CKR_ARGUMENTS_BAD)?;
     unsafe { *pul_part_len = cklen };
@@ -541,7 +562,9 @@ fn decrypt_final(
     let plen = usize::try_from(pplen).map_err(|_| CKR_ARGUMENTS_BAD)?;
     let dlast: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(last_part, plen) };
-    let outlen = operation.decrypt_final(dlast)?;
+    let outlen = operation
+        .decrypt_final(dlast)
+        .map_err(|e| report_size(e, pul_last_part_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_last_part_len = retlen };
 
@@ -686,13 +709,9 @@ fn encrypt_message(
     let cipher: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(ciphertext, clen) };
 
-    let outlen = operation.msg_encrypt(
-        parameter,
-        parameter_len,
-        adata,
-        plain,
-        cipher,
-    )?;
+    let outlen = operation
+        .msg_encrypt(parameter, parameter_len, adata, plain, cipher)
+        .map_err(|e| report_size(e, pul_ciphertext_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_ciphertext_len = retlen };
 
@@ -878,19 +897,14 @@ fn encrypt_message_next(
         unsafe { std::slice::from_raw_parts_mut(ciphertext_part, clen) };
 
     let outlen = match fin {
-        false => operation.msg_encrypt_next(
-            parameter,
-            parameter_len,
-            plain,
-            cipher,
-        )?,
-        true => operation.msg_encrypt_final(
-            parameter,
-            parameter_len,
-            plain,
-            cipher,
-        )?,
-    };
+        false => {
+            operation.msg_encrypt_next(parameter, parameter_len, plain, cipher)
+        }
+        true => {
+            operation.msg_encrypt_final(parameter, parameter_len, plain, cipher)
+        }
+    }
+    .map_err(|e| report_size(e, pul_ciphertext_part_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_ciphertext_part_len = retlen };
 
@@ -1080,13 +1094,9 @@ fn decrypt_message(
     let plain: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(plaintext, plen) };
 
-    let outlen = operation.msg_decrypt(
-        parameter,
-        parameter_len,
-        adata,
-        cipher,
-        plain,
-    )?;
+    let outlen = operation
+        .msg_decrypt(parameter, parameter_len, adata, cipher, plain)
+        .map_err(|e| report_size(e, pul_plaintext_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_plaintext_len = retlen };
 
@@ -1272,19 +1282,14 @@ fn decrypt_message_next(
         unsafe { std::slice::from_raw_parts_mut(plaintext_part, plen) };
 
     let outlen = match fin {
-        false => operation.msg_decrypt_next(
-            parameter,
-            parameter_len,
-            cipher,
-            plain,
-        )?,
-        true => operation.msg_decrypt_final(
-            parameter,
-            parameter_len,
-            cipher,
-            plain,
-        )?,
-    };
+        false => {
+            operation.msg_decrypt_next(parameter, parameter_len, cipher, plain)
+        }
+        true => {
+            operation.msg_decrypt_final(parameter, parameter_len, cipher, plain)
+        }
+    }
+    .map_err(|e| report_size(e, pul_plaintext_part_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_plaintext_part_len = retlen };
 
diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 1c182a6..afe826b 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -8,6 +8,7 @@
 
 use crate::check_allowed_mechs;
 use crate::error::Result;
+use crate::fns::encryption::report_size;
 use crate::log_debug;
 use crate::misc::bytes_to_slice;
 use crate::object;
@@ -324,10 +325,14 @@ fn wrap_key(
             ));
             len
         }
-        Err(e) => return Err(e)?,
+        Err(e) => return Err(report_size(e, pul_wrapped_key_len)),
     };
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_wrapped_key_len = retlen };
+    if !wrapped_key.is_null() && retlen > pwraplen {
+        /* an empty buffer, only the length was computed */
+        return Err(CKR_BUFFER_TOO_SMALL)?;
+    }
     Ok(())
 }
 
diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index 0becf74..1f27d9b 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -7,6 +7,7 @@
 //! as defined in the PKCS#11 specification.
 
 use crate::error::Result;
+use crate::fns::encryption::report_size;
 use crate::log_debug;
 use crate::mechanism::{
     Decryption, Digest, Encryption, MsgDecryption, MsgEncryption,
@@ -185,7 +186,9 @@ fn get_operation_state(
         unsafe { std::slice::from_raw_parts_mut(operation_state, state_len) };
     let slot_id = session.get_slot_id();
     let token = rstate.get_token_from_slot(slot_id)?;
-    let outlen = session.state_save(token.get_mechanisms(), state)?;
+    let outlen = session
+        .state_save(token.get_mechanisms(), state)
+        .map_err(|e| report_size(e, pul_operation_state_len))?;
     unsafe {
         *pul_operation_state_len =
             CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?
diff --git a/src/session.rs b/src/session.rs
index 73d8570..2c17fbc 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -10,7 +10,7 @@ use std::collections::HashMap;
 use std::sync::LazyLock;
 
 use crate::encryption;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::kasn1::*;
 use crate::mechanism::*;
 use crate::object::Object;
@@ -716,7 +716,7 @@ impl Session {
         match asn1::write_single(&pdata) {
             Ok(der) => {
                 if der.len() > state.len() {
-                    Err(CKR_GENERAL_ERROR)?
+                    Err(Error::buf_too_small(der.len()))
                 } else {
                     state[..der.len()].clone_from_slice(der.as_slice());
                     Ok(der.len())
-- 
2.43.0


From 321ceaf641ff0bb71a52c305ff31c2607a3c1f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 36/40] fix: do not skip ciphertext in multi-part AES-GCM
 decryption

---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 96a32cf..b532d6e 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1736,9 +1736,9 @@ impl Decryption for AesOperation {
                             zeromem(&mut self.buffer.as_mut_slice()[..buflen]);
                             let _ = self.buffer.drain(..buflen);
                         }
+                        /* The cipher buffer has been utilized */
+                        cipher_offset = cipher_end;
                     }
-                    /* The cipher buffer has been utilized */
-                    cipher_offset = cipher_end;
                 } else if cipher_end > self.params.taglen {
                     cipher_end -= self.params.taglen;
                     self.buffer.extend_from_slice(&cipher[cipher_end..]);
-- 
2.43.0


From 26fce452b5f226955db531085011672a3268541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 37/40] fix: AES: leave the operation unchanged when the output
 buffer is too small

---
 src/ossl/aes.rs | 69 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index b532d6e..2a2eef0 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1185,6 +1185,11 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        let needed_len = self.encryption_len(plain.len(), true)?;
+        if cipher.len() < needed_len {
+            /* checked before any data is processed, see encrypt_final */
+            return Err(error::Error::buf_too_small(needed_len));
+        }
         let outl = self.encrypt_update(plain, cipher)?;
         if outl > cipher.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
@@ -1202,8 +1207,8 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
-        self.in_use = true;
 
+        let mut blocks: u128 = 0;
         let mut outlen = self.encryption_len(plain.len(), false)?;
         match self.mech {
             CKM_AES_CTS => {
@@ -1212,11 +1217,10 @@ impl Encryption for AesOperation {
                 }
                 /* some modes are one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
+                blocks = 1;
             }
             CKM_AES_CCM => {
                 /* This should allow smaller plain length to update
@@ -1244,7 +1248,7 @@ impl Encryption for AesOperation {
                     if self.blockctr + reqblocks > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    self.blockctr += reqblocks;
+                    blocks = reqblocks;
                 }
             }
             CKM_AES_KEY_WRAP => {
@@ -1258,6 +1262,8 @@ impl Encryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.in_use = true;
+        self.blockctr += blocks;
 
         let ctx = match &mut self.ctx {
             Some(c) => c,
@@ -1553,6 +1559,13 @@ impl Decryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        if self.mech == CKM_AES_CBC_PAD {
+            /* checked before any data is processed, see decrypt_final */
+            let needed_len = self.decryption_len(cipher.len(), true)?;
+            if plain.len() < needed_len {
+                return Err(error::Error::buf_too_small(needed_len));
+            }
+        }
         let outl = self.decrypt_update(cipher, plain)?;
         if outl > plain.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
@@ -1570,6 +1583,7 @@ impl Decryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        let mut blocks: u128 = 0;
         match self.mech {
             CKM_AES_CTS => {
                 if cipher.len() < AES_BLOCK_SIZE {
@@ -1578,11 +1592,10 @@ impl Decryption for AesOperation {
 
                 /* CTS mode is one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
+                blocks = 1;
             }
             CKM_AES_CCM => {
                 if cipher.len() + self.buffer.len()
@@ -1598,7 +1611,6 @@ impl Decryption for AesOperation {
             }
             _ => (),
         }
-        self.in_use = true;
 
         let outlen = match self.mech {
             CKM_AES_CCM => {
@@ -1628,7 +1640,7 @@ impl Decryption for AesOperation {
                     if self.blockctr + reqblocks > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    self.blockctr += reqblocks;
+                    blocks = reqblocks;
                 }
                 cipher.len()
             }
@@ -1651,6 +1663,8 @@ impl Decryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.in_use = true;
+        self.blockctr += blocks;
 
         let ctx = match &mut self.ctx {
             Some(c) => c,
@@ -1838,6 +1852,14 @@ impl Decryption for AesOperation {
             None => return Err(self.op_err(CKR_GENERAL_ERROR)),
         };
 
+        if self.mech == CKM_AES_CBC_PAD
+            && self.buffer.len() == 0
+            && plain.len() < AES_BLOCK_SIZE
+        {
+            /* This is the only, non-fatal error */
+            return Err(error::Error::buf_too_small(AES_BLOCK_SIZE));
+        }
+
         self.finalized = true;
 
         #[cfg(feature = "fips")]
@@ -1947,7 +1969,10 @@ impl Decryption for AesOperation {
                     if (self.buffer.len() + data_len) % AES_BLOCK_SIZE != 0 {
                         return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
                     }
-                    self.buffer.len() + data_len
+                    /* OpenSSL holds back the last block until it knows
+                     * whether it carries the padding */
+                    let held = if self.in_use { AES_BLOCK_SIZE } else { 0 };
+                    self.buffer.len() + data_len + held
                 }
                 CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
                     if data_len % AES_KWP_BLOCK != 0 {
@@ -2030,6 +2055,13 @@ impl MsgEncryption for AesOperation {
         plain: &[u8],
         cipher: &mut [u8],
     ) -> Result<usize> {
+        if self.finalized {
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
+        }
+        if cipher.len() < plain.len() {
+            /* checked before the message is started */
+            return Err(error::Error::buf_too_small(plain.len()));
+        }
         self.msg_encrypt_begin(param, paramlen, aad)?;
         self.msg_encrypt_final(param, paramlen, plain, cipher)
     }
@@ -2200,8 +2232,8 @@ impl MsgEncryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
@@ -2220,6 +2252,13 @@ impl MsgDecryption for AesOperation {
         cipher: &[u8],
         plain: &mut [u8],
     ) -> Result<usize> {
+        if self.finalized {
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
+        }
+        if plain.len() < cipher.len() {
+            /* checked before the message is started */
+            return Err(error::Error::buf_too_small(cipher.len()));
+        }
         self.msg_decrypt_begin(param, paramlen, aad)?;
         self.msg_decrypt_final(param, paramlen, cipher, plain)
     }
@@ -2404,8 +2443,8 @@ impl MsgDecryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
-- 
2.43.0


From dda88a396c03ecb1fedea77786db861939450684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 38/40] fix: do not use an HOTP counter twice or move it back

---
 src/fns/signing.rs | 47 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index fb97515..d99c230 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -14,11 +14,34 @@ use crate::log_debug;
 use crate::mechanism::{Sign, Verify, VerifySignature};
 use crate::pkcs11::*;
 use crate::session::Session;
-use crate::STATE;
+use crate::{State, STATE};
 
 #[cfg(feature = "fips")]
 use crate::{finalize_fips_approval, init_fips_approval};
 
+/// Stores the attributes that an operation changes in its key.
+///
+/// The operation computed them from the key it was initialized with; if
+/// another operation with the same key moved the counter on in the meantime
+/// this one is too late, its counter value must not be used again.
+fn update_key(
+    rstate: &State,
+    slot_id: CK_SLOT_ID,
+    handle: CK_OBJECT_HANDLE,
+    attrs: &[CK_ATTRIBUTE],
+) -> Result<()> {
+    let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+    let key = token.get_object_by_handle(handle)?;
+    for attr in attrs.iter().filter(|a| a.type_ == CKA_OTP_COUNTER) {
+        let stored = key.get_attr_as_bytes(CKA_OTP_COUNTER)?;
+        /* big endian values of the same length */
+        if attr.to_buf()? <= *stored {
+            return Err(CKR_FUNCTION_FAILED)?;
+        }
+    }
+    token.set_object_attrs(handle, attrs)
+}
+
 #[inline(always)]
 fn sign_init(
     s_handle: CK_SESSION_HANDLE,
@@ -116,8 +139,9 @@ fn sign(
     operation.sign(data, signature)?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if update_key(&rstate, slot_id, handle, attrs.as_slice()).is_err() {
+            /* this value may have been handed out already */
+            signature.fill(0);
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -245,8 +269,9 @@ fn sign_final(
     operation.sign_final(signature)?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if update_key(&rstate, slot_id, handle, attrs.as_slice()).is_err() {
+            /* this value may have been handed out already */
+            signature.fill(0);
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -398,8 +423,7 @@ fn verify(
     operation.verify(data, signature)?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if update_key(&rstate, slot_id, handle, attrs.as_slice()).is_err() {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -514,8 +538,7 @@ fn verify_final(
     operation.verify_final(signature)?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if update_key(&rstate, slot_id, handle, attrs.as_slice()).is_err() {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -803,8 +826,7 @@ fn verify_signature(
     operation.verify(data)?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if update_key(&rstate, slot_id, handle, attrs.as_slice()).is_err() {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
@@ -889,8 +911,7 @@ fn verify_signature_final(s_handle: CK_SESSION_HANDLE) -> Result<()> {
     operation.verify_final()?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
+        if update_key(&rstate, slot_id, handle, attrs.as_slice()).is_err() {
             return Err(CKR_GENERAL_ERROR)?;
         }
     }
-- 
2.43.0


From cf2cb67cb5d19de37d8f29d89892bb3500b399a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 39/40] fix: report the output length of raw RSA encryption and
 decryption

---
 src/ossl/rsa.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index 98119ca..407581e 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -624,7 +624,9 @@ impl Encryption for RsaPKCSOperation {
 
     fn encryption_len(&mut self, _: usize, _: bool) -> Result<usize> {
         match self.mech {
-            CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => Ok(self.output_len),
+            CKM_RSA_X_509 | CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => {
+                Ok(self.output_len)
+            }
             _ => Err(CKR_GENERAL_ERROR)?,
         }
     }
@@ -702,7 +704,9 @@ impl Decryption for RsaPKCSOperation {
 
     fn decryption_len(&mut self, _: usize, _: bool) -> Result<usize> {
         match self.mech {
-            CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => Ok(self.output_len),
+            CKM_RSA_X_509 | CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => {
+                Ok(self.output_len)
+            }
             _ => Err(CKR_GENERAL_ERROR)?,
         }
     }
-- 
2.43.0


From a2b01616e52c0c88aecc5170c56263e0b94136bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 40/40] fix: free the memory bio used to print the OpenSSL
 error stack

---
 ossl/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ossl/src/lib.rs b/ossl/src/lib.rs
index ee034c4..c84ddc7 100644
--- a/ossl/src/lib.rs
+++ b/ossl/src/lib.rs
@@ -191,6 +191,7 @@ pub fn ossl_err_stack() -> String {
     };
 
     if raw_mem.is_null() || raw_len == 0 {
+        unsafe { BIO_free_all(bio) };
         return "Failed to get error from OpenSSL's Error Stack".to_string();
     }
 
@@ -202,6 +203,8 @@ pub fn ossl_err_stack() -> String {
             vec.as_mut_ptr(),
             vec.len(),
         );
+        /* the buffer belongs to the bio */
+        BIO_free_all(bio);
     }
 
     // remove final newline if any
-- 
2.43.0


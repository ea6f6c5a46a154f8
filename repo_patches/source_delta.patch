From f4c3fac20b87e843aca63995fde46cb04b51b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:29 +0000
Subject: [PATCH 01/27] fix: do not read values of incomplete layers

The joins in `Storage::get_by_hash` and `get_by_hash_historical` never tied a
value to its own layer, so any complete layer made the values written by an
unfinished commit visible.
---
 crates/host/state/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 71a8ce3..90138dc 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -179,6 +179,8 @@ impl Storage {
                 SELECT "value"
                 FROM "values"
                 INNER JOIN "layers" ON
+                    "layers"."id" = "layer_id"
+                    AND
                     "complete" = 1
                     AND
                     "key_hash" = ?1
@@ -200,6 +202,8 @@ impl Storage {
             SELECT "value"
             FROM "values"
             INNER JOIN "layers" ON
+                "layers"."id" = "layer_id"
+                AND
                 "layer_id" <= ?1
                 AND
                 "complete" = 1
-- 
2.43.0


From c23bd0360e25632aa1457ffd401441a84f10436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:41 +0000
Subject: [PATCH 02/27] fix: make an existing global state database open again

Opening a database that already holds layers failed with a UNIQUE violation on
the initial layer; it would also have re-used the id of the last layer and kept
the layer row of an interrupted commit.
---
 crates/host/state/src/storage.rs | 33 +++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 90138dc..3ab8c1b 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -68,23 +68,33 @@ impl Storage {
     async fn new_with_pool(sqlite: Pool<Sqlite>) -> Result<Self> {
         sqlx::query(SQL_SCHEMA).execute(&sqlite).await?;
 
-        let next_layer_id = max_layer_id(&sqlite).await?;
-
-        let storage = Self {
+        let mut storage = Self {
             sqlite,
             dirty_changes: HashMap::new(),
             next_layer: NextLayer {
-                id: next_layer_id.unwrap_or(INITIAL_LAYER_ID + 1),
+                id: INITIAL_LAYER_ID + 1,
                 changes: HashMap::new(),
                 changes_xor_fingerprint: INITIAL_LAYER_STATE,
             },
         };
-        storage
-            .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-            .await?;
 
+        // Whatever an interrupted commit left behind must be gone before we
+        // look for the last layer.
         storage.delete_bad_layers().await?;
 
+        match max_layer_id(&storage.sqlite).await? {
+            None => {
+                storage
+                    .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
+                    .await?;
+            }
+            Some(INITIAL_LAYER_ID) => {}
+            Some(last_layer_id) => {
+                storage.next_layer.id = last_layer_id + 1;
+                storage.next_layer.changes_xor_fingerprint = STATE_ONES;
+            }
+        }
+
         Ok(storage)
     }
 
@@ -114,6 +124,15 @@ impl Storage {
         .await?
         .rows_affected();
 
+        sqlx::query(
+            r#"
+            DELETE FROM "layers"
+            WHERE "complete" = 0
+            "#,
+        )
+        .execute(&self.sqlite)
+        .await?;
+
         if count_rows > 0 {
             tracing::warn!(
                 affected_rows = count_rows,
-- 
2.43.0


From cc64ff8f959a483508fe1c9f9f191bcc87e38c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:16 +0000
Subject: [PATCH 03/27] fix: make the state root depend on the stored data

`Storage::checkpoint` computed the fingerprint of the changes and dropped it, so
every history had one of two roots. Keep it, and take the replaced value out of
it so that the root stands for the current contents.
---
 crates/host/state/src/storage.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 3ab8c1b..f4acc0c 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -264,12 +264,21 @@ impl Storage {
         let dirty_changes = std::mem::take(&mut self.dirty_changes);
 
         for change in dirty_changes {
+            // The value that's being replaced (if any) doesn't contribute to the
+            // fingerprint anymore.
+            if let Some(old_value) = self.get_by_hash(&change.0, None).await? {
+                let xor = hash_key_value_pair(&change.0, &old_value);
+                xor_fingerprint(&mut fingerprint, &xor);
+            }
+
             let xor = hash_key_value_pair(&change.0, &change.1);
             xor_fingerprint(&mut fingerprint, &xor);
 
             self.next_layer.changes.insert(change.0, change.1);
         }
 
+        self.next_layer.changes_xor_fingerprint = fingerprint;
+
         Ok(())
     }
 
-- 
2.43.0


From c5c381ac805e4b41ea80dbf868a4bd8726088559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:16 +0000
Subject: [PATCH 04/27] fix: transfers neither mint nor burn coins

A transfer to oneself credited the amount without debiting it, and a transfer
overflowing the destination had already debited the source when it failed.
---
 crates/host/runtime/src/runtime/runtime.rs  | 12 ++++++++++--
 crates/host/runtime/src/vmcalls/transfer.rs | 13 +++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 53a8f9e..6121649 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -783,11 +783,19 @@ impl Runtime {
         if src_bal < amount {
             panic!("Not enough balance to execute transfer");
         }
+        if src_addr == dst_addr {
+            // Nothing moves.
+            return;
+        }
+
+        let new_src_bal = src_bal.checked_sub(amount).unwrap();
+        let new_dst_bal = dst_bal.checked_add(amount).unwrap();
+
         self.tokio_rt
-            .block_on(src_account.set_balance(src_bal.checked_sub(amount).unwrap()))
+            .block_on(src_account.set_balance(new_src_bal))
             .unwrap();
         self.tokio_rt
-            .block_on(dst_account.set_balance(dst_bal.checked_add(amount).unwrap()))
+            .block_on(dst_account.set_balance(new_dst_bal))
             .unwrap();
     }
 }
diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 2594f4a..6943079 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -44,10 +44,15 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
         panic!("Not enough balance to execute transfer")
     }
 
-    rt.block_on(src_account.set_balance(src_balance - amount))
-        .unwrap();
-    rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
-        .unwrap();
+    if src_addr != dst_addr {
+        let new_src_balance = src_balance - amount;
+        let new_dst_balance = dst_balance.checked_add(amount).unwrap();
+
+        rt.block_on(src_account.set_balance(new_src_balance))
+            .unwrap();
+        rt.block_on(dst_account.set_balance(new_dst_balance))
+            .unwrap();
+    }
 
     borrow.touch_account(src_addr);
     borrow.touch_account(dst_addr);
-- 
2.43.0


From a8276c0906ffa789ff78174883346fb76a48c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:47 +0000
Subject: [PATCH 05/27] fix: a running program can only send the coins of its
 own account

`svm_transfer` is documented to send coins from the executing account, but took
the source address from Wasm memory unchecked.
---
 crates/host/runtime/src/vmcalls/transfer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 6943079..f7b6ffb 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -15,7 +15,8 @@ fn read_addr(env: &FuncEnv, ptr: WasmPtr<Address>) -> Option<Address> {
 ///
 /// # Panics
 ///
-/// Panics when the destination account does not exist.
+/// Panics when the destination account does not exist, or when the source
+/// account isn't the one being executed.
 pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, amount: u64) {
     if amount == 0 {
         return;
@@ -28,6 +29,10 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
     let src_addr = read_addr(env, src_addr_ptr).expect(NOT_FOUND_ERR);
     let dst_addr = read_addr(env, dst_addr_ptr).expect(NOT_FOUND_ERR);
 
+    if src_addr != env.target_addr {
+        panic!("Only the executing account can send its coins");
+    }
+
     let mut borrow = env.borrow_mut();
     let gs = borrow.storage().gs.clone();
 
-- 
2.43.0


From b52e8194c7d1115cccc5fcd79522fe5eb27e4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:36 +0000
Subject: [PATCH 06/27] fix: a failed transaction leaves no changes behind

What a failing (or panicking) call had written stayed pending and was committed
by the next transaction that succeeded, and made `Runtime::commit` fail. Save
what came before the transaction, and roll back whatever it leaves unsaved.
---
 crates/host/runtime/src/runtime/runtime.rs | 29 ++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 6121649..0fc1580 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -81,6 +81,13 @@ impl Runtime {
     }
 
     fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
+        // A succeeding call commits its changes. Whatever is still pending when
+        // we leave (with an error or by panicking) belongs to a failed call.
+        let _pending = PendingChanges {
+            tokio_rt: self.tokio_rt.clone(),
+            gs: self.gs.clone(),
+        };
+
         let result = self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out));
         result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
     }
@@ -651,6 +658,7 @@ impl Runtime {
         let account = spawn.account();
         let target = compute_account_addr(&spawn);
 
+        self.save_pending_changes();
         self.create_account(
             &target,
             template_addr.clone(),
@@ -691,6 +699,7 @@ impl Runtime {
         );
 
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
+        self.save_pending_changes();
         self.exec_call::<(), ()>(&call)
     }
 
@@ -710,6 +719,7 @@ impl Runtime {
             GasTank::new(envelope.gas_limit()),
         );
 
+        self.save_pending_changes();
         self.exec_call::<(), ()>(&call)
     }
 
@@ -721,8 +731,15 @@ impl Runtime {
             .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))
     }
 
+    /// Saves the changes of previous transactions, so that rolling back the next
+    /// one leaves them alone.
+    fn save_pending_changes(&mut self) {
+        self.tokio_rt.block_on(self.gs.checkpoint()).unwrap();
+    }
+
     /// Creates a new layer with the given changes.
     pub fn commit(&mut self) -> Result<()> {
+        self.save_pending_changes();
         self.tokio_rt
             .block_on(self.gs.commit())
             .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))?;
@@ -800,6 +817,18 @@ impl Runtime {
     }
 }
 
+/// Rolls back all unsaved changes when dropped.
+struct PendingChanges {
+    tokio_rt: Arc<TokioRuntime>,
+    gs: GlobalState,
+}
+
+impl Drop for PendingChanges {
+    fn drop(&mut self) {
+        self.tokio_rt.block_on(self.gs.rollback()).unwrap();
+    }
+}
+
 /// Calculates the address of a newly spawned account based on its template.
 pub fn compute_account_addr(spawn: &SpawnAccount) -> Address {
     let template_addr = spawn.template_addr();
-- 
2.43.0


From acc2a24a281fadabef14808c290ad8220af0453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:29 +0000
Subject: [PATCH 07/27] fix: malformed input makes the decoders fail instead of
 panicking

---
 crates/host/codec/src/ext.rs                  |   9 +-
 crates/host/codec/src/receipt/call.rs         |   8 +-
 crates/host/codec/src/receipt/deploy.rs       |   8 +-
 crates/host/codec/src/receipt/error.rs        | 110 +++++++++---------
 crates/host/codec/src/receipt/mod.rs          |   2 +-
 crates/host/codec/src/receipt/spawn.rs        |  10 +-
 crates/host/codec/src/section/sections/api.rs |   3 +-
 .../host/codec/src/section/sections/code.rs   |   2 +-
 .../host/codec/src/section/sections/data.rs   |   2 +-
 .../host/codec/src/section/sections/schema.rs |   3 +-
 10 files changed, 88 insertions(+), 69 deletions(-)

diff --git a/crates/host/codec/src/ext.rs b/crates/host/codec/src/ext.rs
index a596f1e..0a88a9c 100644
--- a/crates/host/codec/src/ext.rs
+++ b/crates/host/codec/src/ext.rs
@@ -24,8 +24,13 @@ pub trait ReadExt: Sized {
 
     /// Reads `length` bytes
     fn read_bytes(&mut self, length: usize) -> Result<Vec<u8>, ParseError> {
-        let mut buf = vec![0; length];
-        self.read_fill(&mut buf[..])?;
+        // `length` can't be trusted: don't allocate more than what's there to read.
+        let mut buf = Vec::new();
+
+        for _ in 0..length {
+            buf.push(self.read_byte()?);
+        }
+
         Ok(buf)
     }
 }
diff --git a/crates/host/codec/src/receipt/call.rs b/crates/host/codec/src/receipt/call.rs
index 1582bea..bddc69d 100644
--- a/crates/host/codec/src/receipt/call.rs
+++ b/crates/host/codec/src/receipt/call.rs
@@ -60,10 +60,14 @@ impl Codec for CallReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, crate::receipt::TY_CALL);
+        if ty != crate::receipt::TY_CALL {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 9c5e9fd..4dc4ca9 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -40,10 +40,14 @@ impl Codec for DeployReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_DEPLOY);
+        if ty != TY_DEPLOY {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(version, 0);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index e8ea82b..41cd6e5 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -162,8 +162,8 @@ impl Codec for RuntimeFailure {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> std::result::Result<Self, Self::Error> {
-        let ty = cursor.read_byte().unwrap();
-        let logs = <Vec<ReceiptLog>>::decode(cursor).unwrap();
+        let ty = cursor.read_byte()?;
+        let logs = <Vec<ReceiptLog>>::decode(cursor)?;
 
         let err = {
             match ty {
@@ -177,8 +177,8 @@ impl Codec for RuntimeFailure {
                 7 => func_not_ctor(cursor),
                 8 => func_not_allowed(cursor),
                 9 => func_invalid_sig(cursor),
-                _ => unreachable!(),
-            }
+                _ => return Err(ParseError::BadByte(ty)),
+            }?
         };
 
         Ok(Self { err, logs })
@@ -212,104 +212,104 @@ fn encode_err_type(err: &RuntimeError, w: &mut impl WriteExt) {
     w.write_byte(ty);
 }
 
-fn oog(_cursor: &mut impl ReadExt) -> RuntimeError {
-    RuntimeError::OOG
+fn oog(_cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    Ok(RuntimeError::OOG)
 }
 
-fn template_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    RuntimeError::TemplateNotFound(template_addr)
+fn template_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    Ok(RuntimeError::TemplateNotFound(template_addr))
 }
 
-fn account_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let account = Address::decode(cursor).unwrap();
-    RuntimeError::AccountNotFound(account)
+fn account_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let account = Address::decode(cursor)?;
+    Ok(RuntimeError::AccountNotFound(account))
 }
 
-fn compilation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn compilation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::CompilationFailed {
+    Ok(RuntimeError::CompilationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn instantiation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn instantiation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::InstantiationFailed {
+    Ok(RuntimeError::InstantiationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn func_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotFound {
+    Ok(RuntimeError::FuncNotFound {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
-fn func_failed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_failed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncFailed {
+    Ok(RuntimeError::FuncFailed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_not_ctor(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_ctor(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotCtor {
+    Ok(RuntimeError::FuncNotCtor {
         template: template_addr,
         func,
-    }
+    })
 }
 
-fn func_not_allowed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_not_allowed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncNotAllowed {
+    Ok(RuntimeError::FuncNotAllowed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_invalid_sig(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_invalid_sig(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncInvalidSignature {
+    Ok(RuntimeError::FuncInvalidSignature {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
 #[cfg(test)]
diff --git a/crates/host/codec/src/receipt/mod.rs b/crates/host/codec/src/receipt/mod.rs
index d084b91..f7402a4 100644
--- a/crates/host/codec/src/receipt/mod.rs
+++ b/crates/host/codec/src/receipt/mod.rs
@@ -30,7 +30,7 @@ impl Codec for Receipt {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        Ok(match cursor.peek_byte().unwrap() {
+        Ok(match cursor.peek_byte().ok_or(ParseError::Eof)? {
             TY_DEPLOY => {
                 let receipt = DeployReceipt::decode(cursor)?;
                 Receipt::Deploy(receipt)
diff --git a/crates/host/codec/src/receipt/spawn.rs b/crates/host/codec/src/receipt/spawn.rs
index d96b5f7..0b92ea7 100644
--- a/crates/host/codec/src/receipt/spawn.rs
+++ b/crates/host/codec/src/receipt/spawn.rs
@@ -61,10 +61,14 @@ impl Codec for SpawnReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_SPAWN);
+        if ty != TY_SPAWN {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
@@ -88,7 +92,7 @@ impl Codec for SpawnReceipt {
                 logs,
             })
         } else {
-            let x = RuntimeFailure::decode(reader).unwrap();
+            let x = RuntimeFailure::decode(reader)?;
             Ok(SpawnReceipt::from_err(x.err, x.logs))
         }
     }
diff --git a/crates/host/codec/src/section/sections/api.rs b/crates/host/codec/src/section/sections/api.rs
index 6c963d0..2b748f0 100644
--- a/crates/host/codec/src/section/sections/api.rs
+++ b/crates/host/codec/src/section/sections/api.rs
@@ -10,6 +10,7 @@ impl Codec for ApiSection {
     }
 
     fn decode(_cursor: &mut impl ReadExt) -> Result<Self, ParseError> {
-        todo!("will be implemented in a future PR...");
+        // Will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
diff --git a/crates/host/codec/src/section/sections/code.rs b/crates/host/codec/src/section/sections/code.rs
index db3d921..a4cb12e 100644
--- a/crates/host/codec/src/section/sections/code.rs
+++ b/crates/host/codec/src/section/sections/code.rs
@@ -70,7 +70,7 @@ impl Codec for GasMode {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u64::decode(reader)? {
             GAS_MODE_FIXED => Ok(GasMode::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 1dcfb14..dff2297 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -150,7 +150,7 @@ impl Codec for LayoutKind {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u16::decode(reader)? {
             FIXED => Ok(LayoutKind::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/schema.rs b/crates/host/codec/src/section/sections/schema.rs
index 96d69be..834c17d 100644
--- a/crates/host/codec/src/section/sections/schema.rs
+++ b/crates/host/codec/src/section/sections/schema.rs
@@ -29,7 +29,8 @@ impl Codec for SchemaSection {
     }
 
     fn decode(_reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        todo!("will be implemented in a future PR...");
+        // Will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
 
-- 
2.43.0


From b82f3ee1285f306fa9b613012cad132756fa6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:53 +0000
Subject: [PATCH 08/27] fix: decoding a layout whose variables ids overflow
 fails instead of panicking

---
 crates/host/codec/src/section/sections/data.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index dff2297..d8ac28f 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -121,6 +121,11 @@ impl Codec for Layout {
                 if var_count > 0 {
                     first_var_id = u32::decode(reader)?;
 
+                    // The `id` of the last variable should be valid too
+                    if first_var_id.checked_add(var_count as u32 - 1).is_none() {
+                        return Err(ParseError::InvalidSection);
+                    }
+
                     // Decoding each `var`
                     for _ in 0..var_count {
                         let byte_size = decode_var_byte_size(reader)?;
-- 
2.43.0


From 4a64f5e9371c5a25c19f415272387031746fe43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:53 +0000
Subject: [PATCH 09/27] fix: every error receipt can be encoded and keeps its
 logs

---
 crates/host/codec/src/receipt/deploy.rs |  2 +-
 crates/host/codec/src/receipt/error.rs  | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 4dc4ca9..88f1b6a 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -34,7 +34,7 @@ impl Codec for DeployReceipt {
             self.gas_used.encode(w);
             self.logs.encode(w);
         } else {
-            RuntimeFailure::new(self.error().clone(), vec![]).encode(w);
+            RuntimeFailure::new(self.error().clone(), self.logs.clone()).encode(w);
         };
     }
 
diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index 41cd6e5..6976c7e 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -112,7 +112,7 @@ impl Codec for RuntimeFailure {
             } => {
                 template.encode(w);
                 target.encode(w);
-                msg.encode(w);
+                encode_msg(&msg, w);
             }
             RuntimeError::FuncNotFound {
                 target,
@@ -186,13 +186,13 @@ impl Codec for RuntimeFailure {
 }
 
 fn encode_msg(msg: &str, w: &mut impl WriteExt) {
-    if msg.len() > 255 {
-        let bytes = &msg.as_bytes()[0..255];
-        let msg = String::from_utf8(bytes.to_vec()).unwrap();
-        msg.encode(w);
-    } else {
-        msg.to_string().encode(w);
+    // Truncating at a character boundary, the result must be a valid UTF-8 string.
+    let mut len = msg.len().min(255);
+    while !msg.is_char_boundary(len) {
+        len -= 1;
     }
+
+    msg[..len].to_string().encode(w);
 }
 
 fn encode_err_type(err: &RuntimeError, w: &mut impl WriteExt) {
-- 
2.43.0


From 3ec7fea73d7d8c9b4e3548875d12364d2353edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:53 +0000
Subject: [PATCH 10/27] fix: reject programs that convert from floating-points

---
 crates/host/program/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/host/program/src/lib.rs b/crates/host/program/src/lib.rs
index 342b412..1b5a16e 100644
--- a/crates/host/program/src/lib.rs
+++ b/crates/host/program/src/lib.rs
@@ -80,6 +80,14 @@ fn validate_opcode(op: &Op) -> Result<(), ProgramError> {
         | Instruction::F64Min
         | Instruction::F64Max
         | Instruction::F64Copysign
+        | Instruction::I32TruncSF32
+        | Instruction::I32TruncUF32
+        | Instruction::I32TruncSF64
+        | Instruction::I32TruncUF64
+        | Instruction::I64TruncSF32
+        | Instruction::I64TruncUF32
+        | Instruction::I64TruncSF64
+        | Instruction::I64TruncUF64
         | Instruction::F32ConvertSI32
         | Instruction::F32ConvertUI32
         | Instruction::F32ConvertSI64
@@ -90,6 +98,8 @@ fn validate_opcode(op: &Op) -> Result<(), ProgramError> {
         | Instruction::F64ConvertSI64
         | Instruction::F64ConvertUI64
         | Instruction::F64PromoteF32
+        | Instruction::I32ReinterpretF32
+        | Instruction::I64ReinterpretF64
         | Instruction::F32ReinterpretI32
         | Instruction::F64ReinterpretI64 => Err(ProgramError::FloatsNotAllowed),
         _ => Ok(()),
-- 
2.43.0


From 1841c53608ada248f698becf9705cea667cbd260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:53 +0000
Subject: [PATCH 11/27] fix: reject programs that export an imported function
 as a required one

---
 crates/host/program/src/program.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 5171e83..0858e58 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -285,14 +285,19 @@ fn export_func_signature<'p>(
 ) -> Result<&'p pwasm::Type, ProgramError> {
     if let pwasm::Internal::Function(global) = entry.internal() {
         let global = *global as usize;
-        debug_assert!(global >= import_count);
 
-        let local = global - import_count;
-        let func = &module_functions[local];
-        let type_ref = func.type_ref() as usize;
-        let sig = &module_types[type_ref];
+        // An imported function that is exported again isn't defined by the program.
+        let local = global
+            .checked_sub(import_count)
+            .ok_or(ProgramError::InvalidExportKind)?;
 
-        Ok(sig)
+        let func = module_functions
+            .get(local)
+            .ok_or(ProgramError::InvalidWasm)?;
+
+        module_types
+            .get(func.type_ref() as usize)
+            .ok_or(ProgramError::InvalidWasm)
     } else {
         Err(ProgramError::InvalidExportKind)
     }
-- 
2.43.0


From d1fd98e5db6b4208174b4fded536ca9a78c8cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:53 +0000
Subject: [PATCH 12/27] fix: pricing a function containing nested dead code
 does not panic

---
 crates/host/gas/src/graph/weight.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/host/gas/src/graph/weight.rs b/crates/host/gas/src/graph/weight.rs
index dd68b1c..b222267 100644
--- a/crates/host/gas/src/graph/weight.rs
+++ b/crates/host/gas/src/graph/weight.rs
@@ -54,13 +54,19 @@ fn prune_unreachable_nodes<L>(graph: &WeightedGraph<L>, start: L)
 where
     L: NodeLabel,
 {
-    graph
-        .source_nodes()
-        .iter()
-        .filter(|node| node.label() != start)
-        .for_each(|source| {
-            graph.remove_node(source);
-        });
+    // Removing a node might turn its neighbors into unreachable ones too.
+    loop {
+        let mut unreachable = graph.source_nodes();
+        unreachable.retain(|node| node.label() != start && node.has_outgoing());
+
+        if unreachable.is_empty() {
+            break;
+        }
+
+        for node in unreachable.iter() {
+            graph.remove_node(node);
+        }
+    }
 }
 
 fn construct_path<L>(graph: &WeightedGraph<L>, start: L, end: L) -> WeightedPath<L>
-- 
2.43.0


From a3655529994ef559b6ee9366779e73b25784da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:53 +0000
Subject: [PATCH 13/27] fix: the byte-size of an encoded array is exact

---
 crates/wasm/abi-encoder/src/types/small_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/abi-encoder/src/types/small_array.rs b/crates/wasm/abi-encoder/src/types/small_array.rs
index 2ffd233..4a2a67f 100644
--- a/crates/wasm/abi-encoder/src/types/small_array.rs
+++ b/crates/wasm/abi-encoder/src/types/small_array.rs
@@ -40,7 +40,7 @@ where
             // The compiler complains, but it's wrong! The following comparison
             // might be useless or not, depending on the array const generic.
             #[allow(unused_comparisons)]
-            if N >= i {
+            if N > i {
                 payload_size += self[i].byte_size();
             }
         });
-- 
2.43.0


From 64adb4c24ca24a7fc62382144166ce8ffde1cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:53 +0000
Subject: [PATCH 14/27] fix: decode arrays of eight items or more

---
 crates/wasm/abi-decoder/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index 677a2b2..101ba1a 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -265,8 +265,6 @@ impl Decoder {
 
         let len = self.read_byte(cursor)?;
 
-        let mut values: Vec<Value> = Vec::with_capacity(len as usize);
-
         let len = match len {
             layout::ARR_0 => 0,
             layout::ARR_1 => 1,
@@ -281,6 +279,9 @@ impl Decoder {
             layout::ARR_10 => 10,
             _ => svm_sdk_std::panic(),
         };
+
+        let mut values: Vec<Value> = Vec::with_capacity(len);
+
         seq_macro::seq!(n in 0..11 {
             if len > n {
                 let value = self.decode_primitive(cursor)?;
-- 
2.43.0


From d27d462a9e8eadd5eaba515542cff4318c7f24a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:43 +0000
Subject: [PATCH 15/27] fix: historical queries apply to the variables of an
 account too

---
 crates/host/state/src/account_storage.rs | 2 +-
 crates/host/state/src/global_state.rs    | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index e310a74..6ed615f 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -133,7 +133,7 @@ impl AccountStorage {
             let bytes: [u8; SEGMENT_SIZE] = self
                 .gs
                 .storage()
-                .get(segment.key.as_bytes(), None)
+                .get(segment.key.as_bytes(), self.gs.query_layer_id())
                 .await?
                 .unwrap_or(vec![0; SEGMENT_SIZE])
                 .try_into()
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index fbeb9c4..c5863fe 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -167,16 +167,17 @@ impl GlobalState {
             .expect("Poisoned lock on global state storage")
     }
 
+    pub(crate) fn query_layer_id(&self) -> Option<i64> {
+        self.layer_query_parameter.map(|layer| layer.0 as i64)
+    }
+
     pub(crate) async fn read_and_decode<T>(&self, key: &str) -> Result<T>
     where
         T: Codec,
     {
         let bytes = self
             .storage()
-            .get(
-                key.as_bytes(),
-                self.layer_query_parameter.map(|layer| layer.0 as i64),
-            )
+            .get(key.as_bytes(), self.query_layer_id())
             .await?
             .ok_or(StorageError::NotFound {
                 key_hash: State(Blake3Hasher::hash(key.as_bytes())),
-- 
2.43.0


From 399af24c70e942fe36b3b071ab33112f4491a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:09 +0000
Subject: [PATCH 16/27] fix: a transfer requires write access to the storage

---
 crates/host/runtime/src/vmcalls/transfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index f7b6ffb..21ed034 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -34,7 +34,7 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
     }
 
     let mut borrow = env.borrow_mut();
-    let gs = borrow.storage().gs.clone();
+    let gs = borrow.storage_mut().gs.clone();
 
     let mut src_account = rt
         .block_on(AccountStorage::load(gs.clone(), &src_addr))
-- 
2.43.0


From 5ec094b68e6ca2317d55cd5f82f749c88023a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:02 +0000
Subject: [PATCH 17/27] fix: adding and multiplying amounts aborts instead of
 wrapping around

---
 crates/wasm/sdk-types/src/amount.rs | 31 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/crates/wasm/sdk-types/src/amount.rs b/crates/wasm/sdk-types/src/amount.rs
index 86eeed3..c96579b 100644
--- a/crates/wasm/sdk-types/src/amount.rs
+++ b/crates/wasm/sdk-types/src/amount.rs
@@ -25,11 +25,26 @@ impl core::fmt::Debug for Amount {
     }
 }
 
+// The checks are explicit since templates are compiled with `overflow-checks = false`.
+fn add(a: u64, b: u64) -> u64 {
+    let (sum, overflow) = a.overflowing_add(b);
+    ensure!(!overflow);
+
+    sum
+}
+
+fn mul(a: u64, b: u64) -> u64 {
+    let (product, overflow) = a.overflowing_mul(b);
+    ensure!(!overflow);
+
+    product
+}
+
 impl Add for Amount {
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
-        Self(self.0 + rhs.0)
+        Self(add(self.0, rhs.0))
     }
 }
 
@@ -37,7 +52,7 @@ impl Add<u64> for Amount {
     type Output = Self;
 
     fn add(self, rhs: u64) -> Self::Output {
-        Self(self.0 + rhs)
+        Self(add(self.0, rhs))
     }
 }
 
@@ -65,7 +80,7 @@ impl Mul for Amount {
     type Output = Self;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Amount(self.0 * rhs.0)
+        Amount(mul(self.0, rhs.0))
     }
 }
 
@@ -73,19 +88,19 @@ impl Mul<u64> for Amount {
     type Output = Self;
 
     fn mul(self, rhs: u64) -> Self::Output {
-        Amount(self.0 * rhs)
+        Amount(mul(self.0, rhs))
     }
 }
 
 impl AddAssign for Amount {
     fn add_assign(&mut self, rhs: Self) {
-        *self = Amount(self.0 + rhs.0)
+        *self = Amount(add(self.0, rhs.0))
     }
 }
 
 impl AddAssign<u64> for Amount {
     fn add_assign(&mut self, rhs: u64) {
-        *self = Amount(self.0 + rhs)
+        *self = Amount(add(self.0, rhs))
     }
 }
 
@@ -107,13 +122,13 @@ impl SubAssign<u64> for Amount {
 
 impl MulAssign for Amount {
     fn mul_assign(&mut self, rhs: Self) {
-        *self = Amount(self.0 * rhs.0)
+        *self = Amount(mul(self.0, rhs.0))
     }
 }
 
 impl MulAssign<u64> for Amount {
     fn mul_assign(&mut self, rhs: u64) {
-        *self = Amount(self.0 * rhs)
+        *self = Amount(mul(self.0, rhs))
     }
 }
 
-- 
2.43.0


From a29ba4b3e90f6f02ecb1cd692d32f1d246c13576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:23 +0000
Subject: [PATCH 18/27] fix: reporting a call cycle does not panic when another
 function merely follows a cycle

---
 crates/host/gas/src/graph/sort.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/host/gas/src/graph/sort.rs b/crates/host/gas/src/graph/sort.rs
index 57e6d30..55c0f5f 100644
--- a/crates/host/gas/src/graph/sort.rs
+++ b/crates/host/gas/src/graph/sort.rs
@@ -99,13 +99,11 @@ where
     // So we always pick the first node out of the sorted `candidates`
     candidates.sort_by_key(|node| node.label());
 
-    let start = candidates.first().unwrap();
-    let cycle = find_cycle(&start);
-
-    Some(cycle)
+    // A candidate might only be reachable from a cycle, without being able to reach one.
+    candidates.iter().find_map(|start| find_cycle(start))
 }
 
-fn find_cycle<L, D>(start: &NodeRef<L, D>) -> Vec<L>
+fn find_cycle<L, D>(start: &NodeRef<L, D>) -> Option<Vec<L>>
 where
     L: NodeLabel,
     D: NodeData,
@@ -113,11 +111,11 @@ where
     let mut cycle = Vec::new();
     let mut visited = HashSet::new();
 
-    let found = recur_find_cycle(start, &mut cycle, &mut visited);
-
-    debug_assert!(found);
-
-    cycle
+    if recur_find_cycle(start, &mut cycle, &mut visited) {
+        Some(cycle)
+    } else {
+        None
+    }
 }
 
 fn recur_find_cycle<L, D>(
-- 
2.43.0


From 1c4562c418ab39c45924ca14bf88ae57f5c6ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:46 +0000
Subject: [PATCH 19/27] fix: printing a log that isn't text does not panic

---
 crates/host/types/src/receipt/log.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/host/types/src/receipt/log.rs b/crates/host/types/src/receipt/log.rs
index b6593ee..e177b9e 100644
--- a/crates/host/types/src/receipt/log.rs
+++ b/crates/host/types/src/receipt/log.rs
@@ -28,7 +28,6 @@ impl fmt::Debug for ReceiptLog {
 }
 
 fn fmt_msg(log: &ReceiptLog) -> String {
-    let bytes = log.as_bytes().to_vec();
-
-    unsafe { String::from_utf8_unchecked(bytes) }
+    // Programs may log any bytes.
+    String::from_utf8_lossy(log.as_bytes()).into_owned()
 }
-- 
2.43.0


From 3b8f292deed0b17500bcac86ddd1bb0e1f45b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:42 +0000
Subject: [PATCH 20/27] fix: any layer can be converted to text

---
 crates/wasm/sdk-types/src/layer_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/sdk-types/src/layer_id.rs b/crates/wasm/sdk-types/src/layer_id.rs
index 7c71ae2..2fa4f56 100644
--- a/crates/wasm/sdk-types/src/layer_id.rs
+++ b/crates/wasm/sdk-types/src/layer_id.rs
@@ -14,7 +14,7 @@ impl core::fmt::Debug for LayerId {
 
 impl ToString for LayerId {
     fn to_string(&self) -> String {
-        let mut sb = StringBuilder::with_capacity(20 + " coins".len());
+        let mut sb = StringBuilder::with_capacity("[Layer 18446744073709551615]".len());
 
         let s = self.0.to_string();
         sb.push_str(&String::new_short("[Layer ".as_bytes()));
-- 
2.43.0


From cbacaea0aeeb931de7e0841cc26c63d5a8b5d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:01 +0000
Subject: [PATCH 21/27] fix: reject programs with a start function, which would
 run whatever function is called

---
 crates/host/program/src/error.rs   | 3 +++
 crates/host/program/src/program.rs | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/crates/host/program/src/error.rs b/crates/host/program/src/error.rs
index 70a4bbc..9012d38 100644
--- a/crates/host/program/src/error.rs
+++ b/crates/host/program/src/error.rs
@@ -14,6 +14,9 @@ pub enum ProgramError {
     /// Floats not allowed
     FloatsNotAllowed,
 
+    /// A start function isn't allowed
+    StartNotAllowed,
+
     /// Too many function imports
     TooManyFunctionImports,
 
diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 0858e58..15a84a4 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -17,6 +17,9 @@ use crate::{
 /// other restrictions as well:
 ///
 /// * No floating-point operations.
+/// * No [start
+///   function](https://webassembly.github.io/spec/core/syntax/modules.html#start-function).
+///   It'd run on each and every instantiation, whatever the called function is.
 /// * No more than [`std::u16::MAX`] functions. This includes functions that are
 ///   both imported and defined.
 /// * It must
@@ -38,6 +41,10 @@ impl Program {
     pub fn new(wasm_module: &[u8], validate_exports: bool) -> Result<Self, ProgramError> {
         let module = read_module(wasm_module)?;
 
+        if module.start_section().is_some() {
+            return Err(ProgramError::StartNotAllowed);
+        }
+
         let code = read_code(&module)?;
         let imports = Imports::read(&module)?;
         let exports = Exports::read(&module)?;
-- 
2.43.0


From 767788347423acbae62b10b58ea29bcf34e16c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:57 +0000
Subject: [PATCH 22/27] fix: a function's price doesn't wrap around

---
 crates/host/gas/src/graph/weight.rs | 2 +-
 crates/host/gas/src/pricing/cfg.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/host/gas/src/graph/weight.rs b/crates/host/gas/src/graph/weight.rs
index b222267..a0c6a47 100644
--- a/crates/host/gas/src/graph/weight.rs
+++ b/crates/host/gas/src/graph/weight.rs
@@ -282,7 +282,7 @@ where
     pub fn total_weight(&self) -> usize {
         let dep_weight = self.try_dep_weight().unwrap();
 
-        dep_weight + self.weight()
+        dep_weight.saturating_add(self.weight())
     }
 
     fn label(&self) -> L {
diff --git a/crates/host/gas/src/pricing/cfg.rs b/crates/host/gas/src/pricing/cfg.rs
index 46d3d6c..7c59f2b 100644
--- a/crates/host/gas/src/pricing/cfg.rs
+++ b/crates/host/gas/src/pricing/cfg.rs
@@ -63,8 +63,8 @@ fn compute_block_price(
     imports: &Imports,
     func_price: &FuncPrice,
 ) -> usize {
-    block.ops().iter().fold(0, |acc, op| {
-        acc + resolve_op(op, resolver, imports, func_price)
+    block.ops().iter().fold(0, |acc: usize, op| {
+        acc.saturating_add(resolve_op(op, resolver, imports, func_price))
     })
 }
 
-- 
2.43.0


From 689d9b04a364d9e52d9daa794d5cb7e799ce7cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:54 +0000
Subject: [PATCH 23/27] fix: svm_result_t's copies and unwrapped receipts own
 their buffers

The derived Clone shared the buffer, which Drop then freed twice; unwrap
handed out a Vec over the buffer that Drop freed on return. Drop no longer
makes vectors out of null pointers.
---
 crates/host/runtime-ffi/src/result.rs | 29 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/host/runtime-ffi/src/result.rs b/crates/host/runtime-ffi/src/result.rs
index 4795515..aa07c9e 100644
--- a/crates/host/runtime-ffi/src/result.rs
+++ b/crates/host/runtime-ffi/src/result.rs
@@ -23,7 +23,7 @@ use std::ops::FromResidual;
 /// free(result->error);
 /// ```
 #[allow(non_camel_case_types)]
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, PartialEq, Eq)]
 #[repr(C)]
 pub struct svm_result_t {
     receipt: *mut u8,
@@ -69,9 +69,8 @@ impl svm_result_t {
         if self.error.is_null() && self.receipt.is_null() {
             None
         } else if self.error.is_null() {
-            Some(unsafe {
-                Vec::from_raw_parts(self.receipt, self.buf_size as usize, self.buf_size as usize)
-            })
+            // `self` still owns (and frees) its buffer.
+            self.receipt().map(|bytes| bytes.to_vec())
         } else {
             let err_bytes =
                 unsafe { std::slice::from_raw_parts(self.error, self.buf_size as usize) };
@@ -125,9 +124,25 @@ impl svm_result_t {
 impl std::ops::Drop for svm_result_t {
     fn drop(&mut self) {
         let len = self.buf_size as usize;
-        unsafe {
-            let _error = Vec::from_raw_parts(self.error, len, len);
-            let _receipt = Vec::from_raw_parts(self.receipt, len, len);
+        if !self.error.is_null() {
+            let _error = unsafe { Vec::from_raw_parts(self.error, len, len) };
+        }
+        if !self.receipt.is_null() {
+            let _receipt = unsafe { Vec::from_raw_parts(self.receipt, len, len) };
+        }
+    }
+}
+
+impl Clone for svm_result_t {
+    fn clone(&self) -> Self {
+        // Each instance owns (and frees) its buffer: the copy needs its own.
+        let len = self.buf_size as usize;
+        if !self.error.is_null() {
+            Self::new_error(unsafe { std::slice::from_raw_parts(self.error, len) })
+        } else if !self.receipt.is_null() {
+            Self::new_receipt(unsafe { std::slice::from_raw_parts(self.receipt, len) })
+        } else {
+            Self::OK
         }
     }
 }
-- 
2.43.0


From 8238a64069f57cd0042a47fc78aa31af9f7e9e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:54 +0000
Subject: [PATCH 24/27] fix: svm_get_account reports a null output pointer
 instead of unwinding into C

---
 crates/host/runtime-ffi/src/c_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 0b95840..d1da125 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -530,8 +530,8 @@ pub unsafe extern "C" fn svm_get_account(
     account_addr: *const u8,
     account: *mut svm_account,
 ) -> svm_result_t {
-    assert!(!account.is_null());
     catch_unwind_or_fail(|| {
+        assert!(!account.is_null());
         let runtime = get_runtime(runtime_ptr);
         let account_addr = Address::new(std::slice::from_raw_parts(account_addr, Address::N));
         let account_data = runtime.get_account(&account_addr).unwrap();
-- 
2.43.0


From 3c561788f8f38925c975f8c7ea2c5ff18374001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:54 +0000
Subject: [PATCH 25/27] fix: a failed svm_runtime_create no longer disables the
 library

The lock guarding the initialization flag was held while opening the
database: a failure poisoned it, svm_init then panicked across the C
interface and no runtime could be created any more.
---
 crates/host/runtime-ffi/src/c_api.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index d1da125..6dfefd2 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -27,7 +27,8 @@ lazy_static! {
 #[must_use]
 #[no_mangle]
 pub extern "C" fn svm_init() -> svm_result_t {
-    *INITIALIZED.lock().unwrap() = true;
+    let mut initialized = INITIALIZED.lock().unwrap_or_else(|e| e.into_inner());
+    *initialized = true;
     svm_result_t::OK
 }
 
@@ -65,11 +66,11 @@ pub unsafe extern "C" fn svm_runtime_create(
     path_len: u32,
 ) -> svm_result_t {
     catch_unwind_or_fail(|| {
-        let mut initialized = INITIALIZED.lock().unwrap();
-        if !*initialized {
+        // The lock isn't held any longer than that: a failure below would poison it.
+        let initialized = *INITIALIZED.lock().unwrap();
+        if !initialized {
             return svm_result_t::new_error(b"`svm_init` not called beforehand.");
         }
-        *initialized = true;
 
         let genesis = GenesisConfig::mainnet();
         let tokio_rt = TokioRuntime::new().unwrap();
-- 
2.43.0


From 27932c464cd1f787afff276c0bb063498488ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:54 +0000
Subject: [PATCH 26/27] fix: svm_runtime_destroy destroys the runtime

The handle was forgotten but the runtime (its threads, connection and
memory) leaked. Destroying runs behind the panic barrier.
---
 crates/host/runtime-ffi/src/c_api.rs            | 12 +++++++-----
 crates/host/runtime-ffi/src/resource_tracker.rs |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 6dfefd2..46ab7ed 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -116,11 +116,13 @@ pub unsafe extern "C" fn svm_runtime_create(
 #[must_use]
 #[no_mangle]
 pub extern "C" fn svm_runtime_destroy(runtime: *mut c_void) -> svm_result_t {
-    if RUNTIME_TRACKER.free(runtime).is_some() {
-        svm_result_t::OK
-    } else {
-        svm_result_t::new_error(b"There are no allocated runtimes left to destroy!")
-    }
+    catch_unwind_or_fail(|| {
+        if RUNTIME_TRACKER.free(runtime).is_some() {
+            svm_result_t::OK
+        } else {
+            svm_result_t::new_error(b"There are no allocated runtimes left to destroy!")
+        }
+    })
 }
 
 /// Returns the number of currently allocated runtimes.
diff --git a/crates/host/runtime-ffi/src/resource_tracker.rs b/crates/host/runtime-ffi/src/resource_tracker.rs
index 491e022..77fb6e5 100644
--- a/crates/host/runtime-ffi/src/resource_tracker.rs
+++ b/crates/host/runtime-ffi/src/resource_tracker.rs
@@ -39,6 +39,7 @@ impl<T> ResourceTracker<T> {
         let found = self.pointers.lock().unwrap().remove(&(ptr as usize));
 
         if found {
+            drop(unsafe { Box::<T>::from_raw(ptr.cast()) });
             Some(())
         } else {
             None
-- 
2.43.0


From 70103702ef3afeca2fe5d5193bc68efd09e50757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:30 +0000
Subject: [PATCH 27/27] fix: equal receipts have equal encodings

The accounts touched were written in the order of a HashSet's iteration,
which differs from one execution (and node) to the next.
---
 crates/host/codec/src/receipt/touched_accounts.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/host/codec/src/receipt/touched_accounts.rs b/crates/host/codec/src/receipt/touched_accounts.rs
index 7d5e4cc..d903b20 100644
--- a/crates/host/codec/src/receipt/touched_accounts.rs
+++ b/crates/host/codec/src/receipt/touched_accounts.rs
@@ -10,7 +10,11 @@ impl Codec for HashSet<Address> {
     fn encode(&self, w: &mut impl WriteExt) {
         u16::try_from(self.len()).unwrap().encode(w);
 
-        for addr in self.iter() {
+        // A set is iterated in any order: equal sets are to have equal encodings.
+        let mut addrs: Vec<&Address> = self.iter().collect();
+        addrs.sort_unstable_by_key(|addr| addr.0);
+
+        for addr in addrs.iter() {
             w.write_bytes(addr.as_slice());
         }
     }
-- 
2.43.0


From f786cde00e3fc1560e4812a4c9c772371f12c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 01/38] fix: quote reserved column names in query conditions

---
 butane_core/src/db/helper.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b141d48..10eb00d 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -55,18 +55,25 @@ where
         Condition(c) => match *c {
             True => write!(w, "TRUE"),
             Eq(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NULL"),
-                _ => write!(w, "{col} = ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} = ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
             Ne(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NOT NULL"),
-                _ => write!(w, "{col} <> ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NOT NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} <> ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
-            Lt(col, ex) => write!(w, "{col} < ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Gt(col, ex) => write!(w, "{col} > ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Le(col, ex) => write!(w, "{col} <= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
+            Lt(col, ex) => write!(w, "{} < ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Gt(col, ex) => write!(w, "{} > ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Le(col, ex) => write!(w, "{} <= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Ge(col, ex) => write!(w, "{} >= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
             AllOf(conds) => {
                 let mut remaining = conds.len();
                 for cond in conds {
-- 
2.43.0


From 49cca162f032bc465361a14ef193f5662d6a9f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:05 +0000
Subject: [PATCH 02/38] fix: parenthesize nested query conditions so they keep
 their grouping

---
 butane_core/src/db/helper.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 10eb00d..4640f6d 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -74,7 +74,9 @@ where
                 .and_then(|_| Ok(f(ex, values, pls, w))),
             Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
                 .and_then(|_| Ok(f(ex, values, pls, w))),
+            AllOf(conds) if conds.is_empty() => write!(w, "TRUE"),
             AllOf(conds) => {
+                write!(w, "(").unwrap();
                 let mut remaining = conds.len();
                 for cond in conds {
                     // future perf improvement: figure out a clean way to avoid the extra boxing
@@ -84,21 +86,29 @@ where
                         remaining -= 1;
                     }
                 }
-                Ok(())
+                write!(w, ")")
             }
+            // Compound conditions are parenthesized so that nested
+            // conditions keep the grouping of the expression tree.
             And(a, b) => {
+                write!(w, "(").unwrap();
                 f(Condition(a), values, pls, w);
                 write!(w, " AND ").unwrap();
                 f(Condition(b), values, pls, w);
-                Ok(())
+                write!(w, ")")
             }
             Or(a, b) => {
+                write!(w, "(").unwrap();
                 f(Condition(a), values, pls, w);
                 write!(w, " OR ").unwrap();
                 f(Condition(b), values, pls, w);
-                Ok(())
+                write!(w, ")")
+            }
+            Not(a) => {
+                write!(w, "NOT (").unwrap();
+                f(Condition(a), values, pls, w);
+                write!(w, ")")
             }
-            Not(a) => write!(w, "NOT ").and_then(|_| Ok(f(Condition(a), values, pls, w))),
             Subquery {
                 col,
                 tbl2,
-- 
2.43.0


From 36a94fb4780485fb1c426e88882e7fd0e7fe960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 03/38] fix: saving a many-to-many field removes only the
 owner's values and keeps pending ones on error

---
 butane_core/src/many.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 17de3bd..98c3947 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -246,25 +246,28 @@ pub trait ManyOps<T: DataObject> {
 impl<T: DataObject> ManyOps<T> for Many<T> {
     async fn save(&mut self, conn: &impl ConnectionMethods) -> Result<()> {
         let owner = self.owner.as_ref().ok_or(Error::NotInitialized)?;
-        while !self.new_values.is_empty() {
+        // A value stays pending until the backend has accepted it, so
+        // that saving again after an error does not forget it.
+        while let Some(value) = self.new_values.last() {
             conn.insert_only(
                 &self.item_table,
                 &self.columns(),
-                &[
-                    owner.as_ref(),
-                    self.new_values.pop().unwrap().as_ref().clone(),
-                ],
+                &[owner.as_ref(), value.as_ref()],
             )
             .await?;
+            self.new_values.pop();
         }
         if !self.removed_values.is_empty() {
             conn.delete_where(
                 &self.item_table,
-                BoolExpr::In("has", std::mem::take(&mut self.removed_values)),
+                BoolExpr::And(
+                    Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
+                    Box::new(BoolExpr::In("has", self.removed_values.clone())),
+                ),
             )
             .await?;
+            self.removed_values.clear();
         }
-        self.new_values.clear();
         Ok(())
     }
 
-- 
2.43.0


From 2ca9412c85168c7df9f0c271657521fa11a79f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:53 +0000
Subject: [PATCH 04/38] fix: saving an object with an initialized AutoPk
 upserts, as documented

---
 butane_core/src/lib.rs | 45 ++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/butane_core/src/lib.rs b/butane_core/src/lib.rs
index e5121f1..b3f4c6a 100644
--- a/butane_core/src/lib.rs
+++ b/butane_core/src/lib.rs
@@ -169,44 +169,29 @@ pub trait DataObjectOps<T: DataObject> {
     {
         let pkcol = Column::new(Self::PKCOL, <Self::PKType as FieldType>::SQLTYPE);
 
-        if Self::AUTO_PK && <Self as DataResult>::COLUMNS.len() == 1 {
-            // Our only field is an AutoPk
-            if !self.pk().is_valid() {
-                let pk = conn
-                    .insert_returning_pk(Self::TABLE, &[], &pkcol, &[])
-                    .await?;
-                self.pk_mut().initialize(pk)?;
-            }
-        } else if Self::AUTO_PK {
-            // We have an AutoPk, but we also have other fields
-            // Since we expect our pk field to be invalid and to be created by the insert,
-            // we do a pure insert or update based on whether the AutoPk is already valid or not.
+        if Self::AUTO_PK && !self.pk().is_valid() {
+            // The pk will be created by the insert, so do a pure insert.
             // Note that some database backends do support upsert with auto-incrementing primary
             // keys, but butane isn't well set up to take advantage of that, including missing
             // support for constraints and the `insert_or_update` method not providing a way to
             // retrieve the pk.
-            if self.pk().is_valid() {
-                // pk is valid, do an update
-                conn.update(
+            let pk = conn
+                .insert_returning_pk(
                     Self::TABLE,
-                    pkcol,
-                    self.pk().to_sql_ref(),
                     Self::NON_AUTO_COLUMNS,
-                    &self.non_auto_values(false),
+                    &pkcol,
+                    &self.non_auto_values(true),
                 )
                 .await?;
-            } else {
-                // invalid pk, do an insert
-                let pk = conn
-                    .insert_returning_pk(
-                        Self::TABLE,
-                        Self::NON_AUTO_COLUMNS,
-                        &pkcol,
-                        &self.non_auto_values(true),
-                    )
-                    .await?;
-                self.pk_mut().initialize(pk)?;
-            };
+            self.pk_mut().initialize(pk)?;
+        } else if Self::AUTO_PK {
+            // The AutoPk is already valid, so do an upsert including the pk
+            let mut columns = Self::NON_AUTO_COLUMNS.to_vec();
+            columns.push(pkcol.clone());
+            let mut values = self.non_auto_values(false);
+            values.push(self.pk().to_sql_ref());
+            conn.insert_or_replace(Self::TABLE, &columns, &pkcol, &values)
+                .await?;
         } else {
             // No AutoPk to worry about, do an upsert
             conn.insert_or_replace(
-- 
2.43.0


From 583788787955d9e8dfe3cfe32f0e53e403351752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:53 +0000
Subject: [PATCH 05/38] fix: SQLite insert_returning_pk inserts and reads the
 pk in one statement

---
 butane_core/src/db/sqlite.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index ec0c987..1bb8534 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -295,21 +295,27 @@ impl ConnectionMethods for rusqlite::Connection {
             &mut SQLitePlaceholderSource::new(),
             &mut sql,
         );
+        // Returning the pk from the insert itself makes inserting the row and
+        // learning its pk a single step, which fails or succeeds as a whole.
+        write!(
+            &mut sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
             #[cfg(feature = "debug")]
             debug!("values {values:?}");
         }
-        self.execute(&sql, rusqlite::params_from_iter(values))?;
-        let pk: SqlVal = self.query_row_and_then(
-            &format!(
-                "SELECT {} FROM {} WHERE ROWID = last_insert_rowid()",
-                helper::quote_reserved_word(pkcol.name()),
-                helper::quote_reserved_word(table),
-            ),
-            [],
-            |row| sql_val_from_rusqlite(row.get_ref_unwrap(0), pkcol),
-        )?;
+        let mut stmt = self.prepare(&sql)?;
+        let mut rows = stmt.query(rusqlite::params_from_iter(values))?;
+        let pk: SqlVal = match rows.next()? {
+            Some(row) => sql_val_from_rusqlite(row.get_ref_unwrap(0), pkcol)?,
+            None => return Err(Error::Internal("could not get pk".to_string())),
+        };
+        // The insert is complete only once the statement has run to its end.
+        while rows.next()?.is_some() {}
         Ok(pk)
     }
     fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
-- 
2.43.0


From 8ffe568df7d26a1294a76fd29f41100f0c4f2753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:53 +0000
Subject: [PATCH 06/38] fix: refuse statements on a transaction SQLite has
 already rolled back

---
 butane_core/src/db/sqlite.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 1bb8534..28bd66c 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -417,7 +417,16 @@ impl<'c> SqliteTransaction<'c> {
         }
     }
     fn wrapped_connection_methods(&self) -> Result<&rusqlite::Connection> {
-        Ok(self.get()?.deref())
+        let trans = self.get()?;
+        if trans.is_autocommit() {
+            // SQLite rolls a transaction back by itself on some errors
+            // (e.g. I/O errors or a full disk). Later statements must not
+            // take effect outside of it.
+            return Err(Error::Internal(
+                "transaction has been rolled back by an earlier error".to_string(),
+            ));
+        }
+        Ok(trans.deref())
     }
     fn already_consumed() -> Error {
         Error::Internal("transaction has already been consumed".to_string())
-- 
2.43.0


From a22d228273ab41b207e9d6e958930a72f0425028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 07/38] fix: threads sharing a foreign key may convert it to a
 database value at once

---
 butane_core/src/fkey.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/fkey.rs b/butane_core/src/fkey.rs
index 532cac4..119e492 100644
--- a/butane_core/src/fkey.rs
+++ b/butane_core/src/fkey.rs
@@ -80,14 +80,11 @@ impl<T: DataObject> ForeignKey<T> {
     }
 
     fn ensure_valpk(&self) -> &SqlVal {
-        match self.valpk.get() {
-            Some(sqlval) => return sqlval,
-            None => match self.val.get() {
-                Some(val) => self.valpk.set(val.pk().to_sql()).unwrap(),
-                None => panic!("Invalid foreign key state"),
-            },
-        }
-        self.valpk.get().unwrap()
+        // Another thread may initialize it at the same time: both have the same value.
+        self.valpk.get_or_init(|| match self.val.get() {
+            Some(val) => val.pk().to_sql(),
+            None => panic!("Invalid foreign key state"),
+        })
     }
 }
 
-- 
2.43.0


From 8f1cbd100d0fdbf9f5d743f06fa8ffcc7ed3f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:21 +0000
Subject: [PATCH 08/38] fix: an abandoned async operation no longer leaves its
 arguments or a transaction with the worker

Dropping the future of an operation on an async adapter left the worker
with references into the dropped future, and dropping that of
transaction() left the transaction open for good.
---
 butane_core/src/db/adapter.rs | 78 ++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index b4f2c6f..efa01c5 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -6,7 +6,7 @@
 
 use super::*;
 use crate::query::Order;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex, PoisonError};
 use std::thread;
 use std::thread::JoinHandle;
 
@@ -69,13 +69,15 @@ impl AsyncAdapterEnv {
         // it. So despite fact that we pass the context pointer back
         // and forth, it's essentially owned by the worker thread -- all operations
         // with context occur on that worker thread.
-        let (tx, rx) = tokio::sync::oneshot::channel();
+        let (tx, mut rx) = tokio::sync::oneshot::channel();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
+        let wrapped_func = move || _ = tx.send(func_taking_ptr(unsafe { context.clone_unsafe() }));
+        // Declared after rx so that a result which nobody awaits is dropped here, not on the worker.
+        let call = PendingCall::new(wrapped_func);
         unsafe {
-            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
-            self.invoke_internal_unsafe(wrapped_func)?;
+            self.invoke_internal_unsafe(call.runner())?;
         }
-        rx.await?
+        (&mut rx).await?
     }
 
     async fn invoke_mut<'c, 's, 'result, F, T, U>(
@@ -91,13 +93,15 @@ impl AsyncAdapterEnv {
         's: 'result,
         'c: 'result,
     {
-        let (tx, rx) = tokio::sync::oneshot::channel();
+        let (tx, mut rx) = tokio::sync::oneshot::channel();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_mut().unwrap() });
+        let wrapped_func = move || _ = tx.send(func_taking_ptr(unsafe { context.clone_unsafe() }));
+        // Declared after rx so that a result which nobody awaits is dropped here, not on the worker.
+        let call = PendingCall::new(wrapped_func);
         unsafe {
-            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
-            self.invoke_internal_unsafe(wrapped_func)?;
+            self.invoke_internal_unsafe(call.runner())?;
         }
-        rx.await?
+        (&mut rx).await?
     }
 
     fn invoke_blocking<'c, 's, 'result, F, T, U>(&'s self, context: *const T, func: F) -> Result<U>
@@ -129,10 +133,10 @@ impl AsyncAdapterEnv {
         // step) solely to transform it's lifetime. The lifetime is an
         // issue here because Rust itself has no way of knowing how
         // long our sync worker thread is going to use it for.  But
-        // *we* know that our worker thread will immediately execute
-        // the function and the caller to this method will wait to
+        // *we* know that the caller to this method will wait to
         // hear from the worker thread before proceeding (and thus
-        // before letting the lifetime lapse)
+        // before letting the lifetime lapse), or will hold a
+        // PendingCall, which does so even if the caller's future is dropped.
         // https://stackoverflow.com/questions/52424449/
         let boxed_func: Box<dyn FnOnce() + Send + 'result> = Box::new(wrapped_func);
         let static_func: Box<dyn FnOnce() + Send + 'static> =
@@ -155,6 +159,39 @@ impl Drop for AsyncAdapterEnv {
     }
 }
 
+/// A call handed to the worker thread, which may borrow from the future that awaits it.
+///
+/// Dropping it, which also happens when that future is dropped before it
+/// is finished, takes the call back if the worker has not begun it, and
+/// otherwise waits for its end.
+struct PendingCall<F> {
+    // The worker holds the lock while it executes the function.
+    func: Arc<Mutex<Option<F>>>,
+}
+impl<F: FnOnce() + Send> PendingCall<F> {
+    fn new(func: F) -> Self {
+        Self {
+            func: Arc::new(Mutex::new(Some(func))),
+        }
+    }
+    /// The function for the worker to execute.
+    fn runner(&self) -> impl FnOnce() + Send {
+        let func = self.func.clone();
+        move || {
+            let mut guard = func.lock().unwrap_or_else(PoisonError::into_inner);
+            if let Some(func) = guard.take() {
+                func();
+            }
+        }
+    }
+}
+impl<F> Drop for PendingCall<F> {
+    fn drop(&mut self) {
+        let mut guard = self.func.lock().unwrap_or_else(PoisonError::into_inner);
+        drop(guard.take());
+    }
+}
+
 /// Wrapper around a raw pointer that we assert is [`Send`].
 ///
 /// Needless to say, this requires care. See comments on [`AsyncAdapterEnv::invoke`]
@@ -208,14 +245,6 @@ pub(super) struct AsyncAdapter<T: ?Sized> {
 }
 
 impl<T: ?Sized> AsyncAdapter<T> {
-    /// Create an `AsyncAdapter` with the given context, using the same `env` as self.
-    fn create_with_same_env<U: ?Sized>(&self, context_ptr: SyncSendPtrMut<U>) -> AsyncAdapter<U> {
-        AsyncAdapter {
-            env: self.env.clone(),
-            context: context_ptr,
-        }
-    }
-
     /// Invokes the provided function with a sync method.
     async fn invoke<'c, 's, 'result, F, U>(&'s self, func: F) -> Result<U>
     where
@@ -373,14 +402,17 @@ where
     T: BackendConnection,
 {
     async fn transaction<'c>(&'c mut self) -> Result<TransactionAsync<'c>> {
-        let transaction_ptr: SyncSendPtrMut<dyn BackendTransaction> = self
+        let env = self.env.clone();
+        // The adapter is created along with the transaction, so that the
+        // transaction is dropped if this future is.
+        let transaction_adapter: AsyncAdapter<dyn BackendTransaction> = self
             .invoke_mut(|conn| {
                 let transaction: Transaction = conn.transaction()?;
                 let transaction_ptr: *mut dyn BackendTransaction = Box::into_raw(transaction.trans);
-                Ok(unsafe { SyncSendPtrMut::new(transaction_ptr) })
+                let context = unsafe { SyncSendPtrMut::new(transaction_ptr) };
+                Ok(AsyncAdapter { env, context })
             })
             .await?;
-        let transaction_adapter = self.create_with_same_env(transaction_ptr);
         Ok(TransactionAsync::new(Box::new(transaction_adapter)))
     }
 
-- 
2.43.0


From ffd9742706c1bf1f10987a64e976f97fa7430ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:43 +0000
Subject: [PATCH 09/38] fix: quote text, JSON and date literals in generated
 column defaults

---
 butane_core/src/db/helper.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 4640f6d..bba703c 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -316,6 +316,11 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
     .unwrap()
 }
 
+/// Writes `s` as a SQL string literal.
+fn quote_literal(s: &str) -> String {
+    format!("'{}'", s.replace('\'', "''"))
+}
+
 pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
     use SqlVal::*;
     match val {
@@ -324,12 +329,12 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         Int(val) => Ok(val.to_string()),
         BigInt(val) => Ok(val.to_string()),
         Real(val) => Ok(val.to_string()),
-        Text(val) => Ok(format!("'{val}'")),
+        Text(val) => Ok(quote_literal(val)),
         Blob(val) => Ok(format!("x'{}'", hex::encode_upper(val))),
         #[cfg(feature = "json")]
-        Json(val) => Ok(format!("{val}")),
+        Json(val) => Ok(quote_literal(&val.to_string())),
         #[cfg(feature = "datetime")]
-        Date(val) => Ok(format!("'{}'", val.format("'%Y-%m-%d'"))),
+        Date(val) => Ok(val.format("'%Y-%m-%d'").to_string()),
         #[cfg(feature = "datetime")]
         Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
         #[cfg(feature = "pg")]
-- 
2.43.0


From 87b947438154f6126c3dc6dcb60fea85cb1f12c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 10/38] fix: report an unreadable migration instead of ending a
 rollback early

---
 butane_core/src/migrations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 87fe3c5..782a265 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -147,7 +147,7 @@ pub trait Migrations: Clone {
         };
         migration.downgrade(connection)?;
 
-        while let Ok(Some(migration_name)) = migration.migration_from() {
+        while let Some(migration_name) = migration.migration_from()? {
             migration = self
                 .get_migration(&migration_name)
                 .ok_or(Error::MigrationError("Migration not in chain".to_string()))?;
-- 
2.43.0


From 533093d709bbe36a01c7b8183e9a844a4be4cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 11/38] fix: write timestamp defaults in the format they are
 read in

---
 butane_core/src/db/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index bba703c..59c61cf 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -336,7 +336,7 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         #[cfg(feature = "datetime")]
         Date(val) => Ok(val.format("'%Y-%m-%d'").to_string()),
         #[cfg(feature = "datetime")]
-        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
+        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%d %H:%M:%S%.f'").to_string()),
         #[cfg(feature = "pg")]
         Custom(val) => Err(Error::LiteralForCustomUnsupported(*(*val).clone())),
     }
-- 
2.43.0


From 2c51915f35b1c73d500e20ff6cba037ccfe13946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 12/38] fix: remove tables in an order that their references
 permit

---
 butane_core/src/migrations/adb.rs | 59 ++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 4afeb16..f428506 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -327,6 +327,12 @@ impl ATable {
     pub fn pk(&self) -> Option<&AColumn> {
         self.columns.iter().find(|c| c.is_pk())
     }
+    /// Whether any column refers to the named table.
+    fn refers_to(&self, table_name: &str) -> bool {
+        self.columns
+            .iter()
+            .any(|c| matches!(&c.reference, Some(ARef::Literal(r)) if r.table_name == table_name))
+    }
 }
 
 /// SqlType which may not yet be known.
@@ -617,15 +623,19 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
         ));
     }
 
-    // Remove tables
-    let removed_tables = old_names.difference(&new_names);
-    for removed in removed_tables.clone() {
-        let removed: &str = removed.as_ref();
-        let table = old.tables.get(removed).expect("no table").clone();
-        ops.push(Operation::RemoveTableConstraints(table));
+    // Remove the constraints of removed tables
+    let removed_tables: Vec<&ATable> = old_names
+        .difference(&new_names)
+        .map(|name| old.tables.get(*name).expect("no table"))
+        .collect();
+    for removed in &removed_tables {
+        ops.push(Operation::RemoveTableConstraints((*removed).clone()));
     }
-    for removed in removed_tables {
-        ops.push(Operation::RemoveTable((*removed).to_string()));
+
+    // Remove tables, except those that remaining tables still refer to
+    let (removed_first, removed_last) = removal_order(old, removed_tables);
+    for removed in removed_first {
+        ops.push(Operation::RemoveTable(removed.name.clone()));
     }
 
     // Change existing tables
@@ -636,6 +646,11 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
             new.tables.get(table).expect("no table"),
         ));
     }
+
+    // Remove the rest, now that no remaining table refers to them
+    for removed in removed_last {
+        ops.push(Operation::RemoveTable(removed.name.clone()));
+    }
     for added in new_tables {
         let added: &str = added.as_ref();
         let table = new.tables.get(added).expect("no table");
@@ -646,6 +661,34 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
     ops
 }
 
+/// Order the `removed` tables of `old` so that each comes before those it refers to.
+/// Those that can only be removed after remaining tables were changed come second.
+fn removal_order<'a>(
+    old: &'a ADB,
+    mut removed: Vec<&'a ATable>,
+) -> (Vec<&'a ATable>, Vec<&'a ATable>) {
+    let remaining: Vec<&ATable> = old.tables().filter(|t| !removed.contains(t)).collect();
+    let referred = |to: &ATable, from: &[&ATable]| {
+        from.iter()
+            .any(|t| t.name != to.name && t.refers_to(&to.name))
+    };
+
+    let mut first = Vec::new();
+    while let Some(next) = removed
+        .iter()
+        .position(|t| !referred(t, &removed) && !referred(t, &remaining))
+    {
+        first.push(removed.remove(next));
+    }
+
+    let mut last = Vec::new();
+    while !removed.is_empty() {
+        let next = removed.iter().position(|t| !referred(t, &removed));
+        last.push(removed.remove(next.unwrap_or(0)));
+    }
+    (first, last)
+}
+
 fn col_by_name<'a>(columns: &'a [AColumn], name: &str) -> Option<&'a AColumn> {
     columns.iter().find(|c| c.name == name)
 }
-- 
2.43.0


From 681f85c8cab278390cf98198b5374c8628690aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 13/38] fix: replace files of the migrations directory in one
 step

A file was truncated and then written, so a build or command that was
interrupted, or whose write failed, left a torn info.json, state.json,
types.json or .table file. Readers then failed, and so did every later
build, which reads types.json before it adds to it. A reader beside a
build could also see a file half written. Write a temporary file beside
it and rename that.
---
 butane_core/src/migrations/fs.rs           | 23 ++++++++++++++++++++++
 butane_core/src/migrations/fsmigrations.rs | 15 ++++----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/butane_core/src/migrations/fs.rs b/butane_core/src/migrations/fs.rs
index 1433063..3806a3d 100644
--- a/butane_core/src/migrations/fs.rs
+++ b/butane_core/src/migrations/fs.rs
@@ -1,6 +1,7 @@
 use std::fmt::Debug;
 use std::io::{Read, Write};
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicU64, Ordering};
 
 /// Filesystem abstraction for [`Migrations`].
 ///
@@ -14,6 +15,10 @@ pub trait Filesystem: Debug {
     fn list_dir(&self, path: &Path) -> std::io::Result<Vec<PathBuf>>;
     /// Opens a file for writing. Creates it if it does not exist. Truncates it otherwise.
     fn write(&self, path: &Path) -> std::io::Result<Box<dyn Write>>;
+    /// Replaces the contents of a file in one step. Creates it if it does not exist.
+    ///
+    /// Whenever this is interrupted, the file has either its previous contents or the new ones.
+    fn replace(&self, path: &Path, contents: &[u8]) -> std::io::Result<()>;
     /// Opens a file for reading.
     fn read(&self, path: &Path) -> std::io::Result<Box<dyn Read>>;
     /// Delete a file.
@@ -36,6 +41,24 @@ impl Filesystem for OsFilesystem {
     fn write(&self, path: &Path) -> std::io::Result<Box<dyn Write>> {
         std::fs::File::create(path).map(|f| Box::new(f) as Box<dyn Write>)
     }
+    fn replace(&self, path: &Path, contents: &[u8]) -> std::io::Result<()> {
+        // Write a file beside it and rename that. Each writer, in whichever process or
+        // thread it is, needs a file of its own.
+        static WRITES: AtomicU64 = AtomicU64::new(0);
+        let mut name = std::ffi::OsString::from(".");
+        name.push(path.file_name().unwrap_or_default());
+        name.push(format!(
+            ".{}-{}.tmp",
+            std::process::id(),
+            WRITES.fetch_add(1, Ordering::Relaxed)
+        ));
+        let temporary = path.with_file_name(name);
+        std::fs::write(&temporary, contents)
+            .and_then(|()| std::fs::rename(&temporary, path))
+            .inspect_err(|_| {
+                let _ = std::fs::remove_file(&temporary);
+            })
+    }
     fn read(&self, path: &Path) -> std::io::Result<Box<dyn Read>> {
         std::fs::File::open(path).map(|f| Box::new(f) as Box<dyn Read>)
     }
diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index a1dc4a5..86f537d 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::collections::BTreeMap;
 use std::fs::{File, OpenOptions};
-use std::io::{Read, Write};
+use std::io::Read;
 use std::path::{Path, PathBuf};
 
 use fs2::FileExt;
@@ -118,12 +118,7 @@ impl FsMigration {
         if contents[contents.len() - 1] != b'\n' {
             contents.push(b'\n');
         }
-        self.fs
-            .write(&path)?
-            .write_all(&contents)
-            .map_err(<std::io::Error as Into<Error>>::into)?;
-
-        Ok(())
+        Ok(self.fs.replace(&path, &contents)?)
     }
 
     fn ensure_dir(&self) -> Result<()> {
@@ -375,14 +370,12 @@ impl FsMigrations {
     fn save_state(&mut self, state: &MigrationsState) -> Result<()> {
         let path = self.root.join(".gitignore");
         if !path.exists() {
-            let mut f = self.fs.write(&path)?;
-            f.write_all(b"lock\n")?;
+            self.fs.replace(&path, b"lock\n")?;
         }
         let path = self.root.join("state.json");
-        let mut f = self.fs.write(&path)?;
         let mut contents = serde_json::to_string_pretty(state)?;
         contents.push('\n');
-        f.write_all(contents.as_bytes()).map_err(|e| e.into())
+        Ok(self.fs.replace(&path, contents.as_bytes())?)
     }
     /// Detach the latest migration from the list of migrations.
     ///
-- 
2.43.0


From 16fe1bec641ac5db736d8884ca9a602b0309950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 14/38] fix: report a series of migrations that cannot be read

FsMigrations::latest() answered None when state.json could not be read,
and a migration missing from the chain ended the chain early. The list
of migrations then was empty or short without an error: migrations were
applied again or created again from nothing. Determine the latest and
the previous migration fallibly, and use that wherever the series is
walked.
---
 butane_cli/src/lib.rs                      | 12 +++----
 butane_core/src/migrations/fsmigrations.rs | 17 ++++++---
 butane_core/src/migrations/mod.rs          | 40 ++++++++++++++--------
 3 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 4088bc6..3aa75ff 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -89,7 +89,7 @@ pub fn make_migration(base_dir: &Path, name: Option<&String>) -> Result<()> {
     }
     let backends = load_backends(base_dir)?;
 
-    let created = ms.create_migration(&backends, &name, ms.latest().as_ref())?;
+    let created = ms.create_migration(&backends, &name, ms.try_latest()?.as_ref())?;
     if created {
         update_embedded(base_dir)?;
         println!("Created migration {name}");
@@ -185,7 +185,7 @@ pub fn print_ops(ops: Vec<Operation>) -> Result<()> {
 pub fn describe_current_migration(base_dir: &Path) -> Result<()> {
     let mut ms = get_migrations(base_dir)?;
     let to_db = ms.current().db()?;
-    let from_db = if let Some(latest) = ms.latest() {
+    let from_db = if let Some(latest) = ms.try_latest()? {
         latest.db()?
     } else {
         ADB::new()
@@ -235,7 +235,7 @@ pub fn detach_latest_migration(base_dir: &PathBuf) -> Result<()> {
         eprintln!("There are no migrations");
         std::process::exit(1);
     });
-    let top_migration = ms.latest().expect("Latest should exist");
+    let top_migration = ms.try_latest()?.expect("Latest should exist");
     if initial_migration == &top_migration {
         eprintln!("Can not detach initial migration");
         std::process::exit(1);
@@ -528,7 +528,7 @@ pub fn regenerate_migrations(base_dir: &Path) -> Result<()> {
 /// Error if there are no existing migrations.
 pub fn load_latest_migration_backends(base_dir: &Path) -> Result<NonEmpty<Box<dyn Backend>>> {
     if let Ok(ms) = get_migrations(base_dir) {
-        if let Some(latest_migration) = ms.latest() {
+        if let Some(latest_migration) = ms.try_latest()? {
             let backend_names = latest_migration.sql_backends()?;
             assert!(!backend_names.is_empty());
             log::info!(
@@ -604,7 +604,7 @@ pub fn collapse_migrations(base_dir: &PathBuf, new_initial_name: Option<&String>
         eprintln!("There are no migrations to collapse");
         std::process::exit(1);
     });
-    let latest_migration = ms.latest().expect("Latest should exist");
+    let latest_migration = ms.try_latest()?.expect("Latest should exist");
     if initial_migration == &latest_migration {
         eprintln!("Can not collapse a single migration");
         std::process::exit(1);
@@ -626,7 +626,7 @@ pub fn collapse_migrations(base_dir: &PathBuf, new_initial_name: Option<&String>
     let latest_db = latest.unwrap().db()?;
     ms.clear_migrations(&conn)?;
     ms.create_migration_to(&backends, &name, None, latest_db)?;
-    let new_migration = ms.latest().unwrap();
+    let new_migration = ms.try_latest()?.unwrap();
     new_migration.mark_applied(&conn)?;
 
     update_embedded(base_dir)?;
diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index 86f537d..d30976d 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -382,7 +382,7 @@ impl FsMigrations {
     /// Leaves the migration on the filesystem.
     pub fn detach_latest_migration(&mut self) -> Result<()> {
         let latest = self
-            .latest()
+            .try_latest()?
             .ok_or(Error::MigrationError("There are no migrations".to_string()))?;
         let from_name =
             latest
@@ -433,10 +433,17 @@ impl Migrations for FsMigrations {
     }
 
     fn latest(&self) -> Option<Self::M> {
-        self.get_state().map_or(None, |state| match state.latest {
-            None => None,
-            Some(name) => self.get_migration(&name),
-        })
+        self.try_latest().unwrap_or(None)
+    }
+
+    fn try_latest(&self) -> Result<Option<Self::M>> {
+        match self.get_state()?.latest {
+            None => Ok(None),
+            Some(name) => self
+                .get_migration(&name)
+                .map(Some)
+                .ok_or(Error::MigrationError(format!("Migration {name} not found"))),
+        }
     }
 }
 
diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 782a265..2a8c128 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -41,16 +41,33 @@ pub trait Migrations: Clone {
     /// no migrations have been created.
     fn latest(&self) -> Option<Self::M>;
 
+    /// Like [`latest`](Self::latest), but reports it when the most recent
+    /// migration cannot be determined.
+    fn try_latest(&self) -> Result<Option<Self::M>> {
+        Ok(self.latest())
+    }
+
+    /// Get the migration which `m` is based on, or `None` if `m` is the first one.
+    fn previous_migration(&self, m: &Self::M) -> Result<Option<Self::M>> {
+        match m.migration_from()? {
+            None => Ok(None),
+            Some(name) => self
+                .get_migration(&name)
+                .map(Some)
+                .ok_or(Error::MigrationError(format!(
+                    "Migration {name} not found, which {} is based on",
+                    m.name()
+                ))),
+        }
+    }
+
     /// Retrieve migrations since the given migration.
     fn migrations_since(&self, since: &Self::M) -> Result<Vec<Self::M>> {
-        let mut last = self.latest();
+        let mut last = self.try_latest()?;
         let mut accum: Vec<Self::M> = Vec::new();
         while let Some(m) = last {
             if m != *since {
-                last = match m.migration_from()? {
-                    None => None,
-                    Some(name) => self.get_migration(&name),
-                };
+                last = self.previous_migration(&m)?;
                 accum.push(m);
                 continue;
             }
@@ -62,13 +79,10 @@ pub trait Migrations: Clone {
 
     /// Retrieve all migrations.
     fn all_migrations(&self) -> Result<Vec<Self::M>> {
-        let mut last = self.latest();
+        let mut last = self.try_latest()?;
         let mut accum: Vec<Self::M> = Vec::new();
         while let Some(m) = last {
-            last = match m.migration_from()? {
-                None => None,
-                Some(name) => self.get_migration(&name),
-            };
+            last = self.previous_migration(&m)?;
             accum.push(m);
         }
         Ok(accum.into_iter().rev().collect())
@@ -101,16 +115,14 @@ pub trait Migrations: Clone {
             .mapped(ButaneMigration::from_row)
             .collect()?;
 
-        let mut m_opt = self.latest();
+        let mut m_opt = self.try_latest()?;
         while let Some(m) = m_opt {
             if migrations.contains(&ButaneMigration {
                 name: m.name().to_string(),
             }) {
                 return Ok(Some(m));
             }
-            m_opt = m
-                .migration_from()?
-                .and_then(|name| self.get_migration(&name))
+            m_opt = self.previous_migration(&m)?;
         }
         Ok(None)
     }
-- 
2.43.0


From 7fc9d4c7a8143816a0c66b680bf4413364558662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 15/38] fix: tell missing files of a migration from unreadable
 ones

Any failure to read types.json counted as there being no types, so the
next write dropped all recorded ones; any failure to look at info.json
or a script counted as there being none. Only a file that does not
exist is missing. Also, recording a type went ahead when the lock could
not be taken, as when the directory did not exist yet, so that parallel
builds lost each other's types.
---
 butane_core/src/migrations/fsmigrations.rs | 35 ++++++++++++++--------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index d30976d..943f644 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -93,11 +93,13 @@ impl FsMigration {
     fn read_sql(&self, backend: &str, direction: &str) -> Result<Option<String>> {
         let path = self.sql_path(backend, direction);
         let mut buf = String::new();
-        if !path.is_file() {
-            return Ok(None);
+        match self.read_existing(&path)? {
+            None => Ok(None),
+            Some(mut file) => {
+                file.read_to_string(&mut buf)?;
+                Ok(Some(buf))
+            }
         }
-        self.fs.read(&path)?.read_to_string(&mut buf)?;
-        Ok(Some(buf))
     }
 
     fn sql_path(&self, backend: &str, direction: &str) -> PathBuf {
@@ -127,11 +129,19 @@ impl FsMigration {
 
     fn info(&self) -> Result<MigrationInfo> {
         let path = self.root.join("info.json");
-        if !path.is_file() {
-            return Ok(MigrationInfo::new());
+        match self.read_existing(&path)? {
+            None => Ok(MigrationInfo::new()),
+            Some(file) => Ok(serde_json::from_reader(file)?),
+        }
+    }
+
+    /// Opens a file for reading, or returns `None` if there is no such file.
+    fn read_existing(&self, path: &Path) -> Result<Option<Box<dyn Read>>> {
+        match self.fs.read(path) {
+            Ok(file) => Ok(Some(file)),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+            Err(e) => Err(e.into()),
         }
-        let info: MigrationInfo = serde_json::from_reader(self.fs.read(&path)?)?;
-        Ok(info)
     }
 
     fn lock_exclusive(&self) -> Result<MigrationLock> {
@@ -236,14 +246,15 @@ impl MigrationMut for FsMigration {
     }
 
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
-        let _lock = self.lock_exclusive();
+        self.ensure_dir()?;
+        let _lock = self.lock_exclusive()?;
         let typefile = self.root.join(TYPES_FILENAME);
 
-        let mut types: SqlTypeMap = match self.fs.read(&typefile) {
-            Ok(reader) => serde_json::from_reader(reader).inspect_err(|_| {
+        let mut types: SqlTypeMap = match self.read_existing(&typefile)? {
+            Some(reader) => serde_json::from_reader(reader).inspect_err(|_| {
                 eprintln!("failed to read types {typefile:?}");
             })?,
-            Err(_) => BTreeMap::new(),
+            None => BTreeMap::new(),
         };
         types.insert(key, sqltype);
         self.write_contents(
-- 
2.43.0


From 684fd7cfdb6eded9476595608b2e4408b81e0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 16/38] fix: remove the SQL of a backend also if a part of it
 is gone

---
 butane_core/src/migrations/fsmigrations.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index 943f644..4177cab 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -106,11 +106,14 @@ impl FsMigration {
         self.root.join(format!("{backend}_{direction}.sql"))
     }
 
+    /// Deletes a file, which may be gone already.
     fn delete_file(&self, fname: &str) -> Result<()> {
         self.ensure_dir()?;
         let path = self.root.join(fname);
-        self.fs.delete(&path)?;
-        Ok(())
+        match self.fs.delete(&path) {
+            Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(e.into()),
+            _ => Ok(()),
+        }
     }
 
     fn write_contents(&self, fname: &str, contents: &[u8]) -> Result<()> {
-- 
2.43.0


From 9e1e1f590ee2efef0122a758a063fda6bdd57bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 17/38] fix: keep migrations complete while they are
 regenerated

---
 butane_cli/src/lib.rs                      | 19 ++++++--
 butane_core/src/migrations/fsmigrations.rs | 51 +++++++++++-----------
 2 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 3aa75ff..0f81706 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -500,15 +500,19 @@ pub fn regenerate_migrations(base_dir: &Path) -> Result<()> {
 
     let mut from_migration_name: Option<String> = None;
 
-    for m in migration_list {
+    for m in &migration_list {
         println!("Updating {}", m.name());
         let to_db = m.db()?;
         let mut from_migration = None;
         if let Some(from_migration_name) = from_migration_name {
-            from_migration = migrations.get_migration(&from_migration_name);
+            from_migration = Some(
+                migrations
+                    .get_migration(&from_migration_name)
+                    .ok_or(anyhow::anyhow!("Migration {from_migration_name} not found"))?,
+            );
         }
 
-        m.delete_db()?;
+        m.prepare_recreate()?;
         migrations.create_migration_to(
             &backends,
             &m.name(),
@@ -519,6 +523,15 @@ pub fn regenerate_migrations(base_dir: &Path) -> Result<()> {
         from_migration_name = Some(m.name().to_string());
     }
 
+    for mut m in migration_list {
+        m.remove_unused()?;
+        for backend_name in m.sql_backends()? {
+            if !backends.iter().any(|b| b.name() == backend_name) {
+                m.remove_sql(&backend_name)?;
+            }
+        }
+    }
+
     update_embedded(base_dir)?;
 
     Ok(())
diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index 4177cab..fb0c317 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -155,42 +155,41 @@ impl FsMigration {
         MigrationLock::new_shared(&self.root.join("lock"))
     }
 
-    /// Delete all of the files except `info.json` which is recreated.
+    /// Describe all tables in this migration's own files, so that it can be created again in place.
     ///
-    /// `info.json` is created with only `from_name` set to allow migration series traversal.
-    pub fn delete_db(&self) -> Result<()> {
-        let entries = self.fs.list_dir(&self.root)?;
-        for entry in entries {
-            match entry.file_name() {
-                None => continue,
-                Some(name) => {
-                    let name = name.to_string_lossy();
-                    if name == "info.json" {
-                        // Re-create info.json using the minimum required to allow
-                        // `all_migrations` to traverse the list.
-                        let info = self.info()?;
-                        let info = MigrationInfo {
-                            from_name: info.from_name,
-                            ..Default::default()
-                        };
-                        self.write_info(&info)?;
-                    } else {
-                        self.fs.delete(&entry)?;
-                    }
-                }
-            }
+    /// The migration stays what it is, also if creating it again is interrupted.
+    /// Call [`Self::remove_unused`] when it has been created.
+    pub fn prepare_recreate(&self) -> Result<()> {
+        for table in self.db()?.tables() {
+            self.write_table(table)?;
+        }
+        let info = MigrationInfo {
+            table_bases: BTreeMap::new(),
+            ..self.info()?
+        };
+        self.write_info(&info)
+    }
+
+    /// Delete the descriptions of tables that this migration did not modify.
+    pub fn remove_unused(&self) -> Result<()> {
+        for table_name in self.info()?.table_bases.keys() {
+            self.delete_file(&format!("{table_name}.table"))?;
         }
         Ok(())
     }
-}
 
-impl MigrationMut for FsMigration {
-    fn add_modified_table(&mut self, table: &ATable) -> Result<()> {
+    fn write_table(&self, table: &ATable) -> Result<()> {
         self.write_contents(
             &format!("{}.table", table.name),
             serde_json::to_string_pretty(table)?.as_bytes(),
         )
     }
+}
+
+impl MigrationMut for FsMigration {
+    fn add_modified_table(&mut self, table: &ATable) -> Result<()> {
+        self.write_table(table)
+    }
 
     fn add_unmodified_table(&mut self, table: &ATable, from_migration_name: &str) -> Result<()> {
         // Fetches a FsMigration for the from_migration_name, and retrieves its MigrationInfo.
-- 
2.43.0


From 17bd9d89a57ea529f416eac5cc093f8d3afea679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 18/38] fix: collapse migrations without a time at which none
 are recorded

---
 butane_cli/src/lib.rs                      | 20 ++++++++++++++++----
 butane_core/src/migrations/fsmigrations.rs | 15 +++++++++++++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 0f81706..f8357cb 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -22,7 +22,7 @@ use butane::migrations::adb::{diff, AColumn, ARef, Operation, ADB};
 use butane::migrations::{
     copy_migration, FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut,
 };
-use butane::query::BoolExpr;
+use butane::query::{BoolExpr, Expr};
 use butane::{db, migrations};
 use cargo_metadata::MetadataCommand;
 use chrono::Utc;
@@ -637,13 +637,25 @@ pub fn collapse_migrations(base_dir: &PathBuf, new_initial_name: Option<&String>
     }
 
     let latest_db = latest.unwrap().db()?;
-    ms.clear_migrations(&conn)?;
-    ms.create_migration_to(&backends, &name, None, latest_db)?;
-    let new_migration = ms.try_latest()?.unwrap();
+    // Keep the old migrations, and the record of them, until the new one has taken their place,
+    // so that at any time the list of migrations matches the database.
+    if !ms.create_migration_to(&backends, &name, None, latest_db)? {
+        return Err(anyhow::anyhow!("There is nothing to collapse"));
+    }
+    let new_migration = ms
+        .get_migration(&name)
+        .ok_or(anyhow::anyhow!("Migration {name} not found"))?;
     new_migration.mark_applied(&conn)?;
+    ms.set_only_migration(&new_migration)?;
 
     update_embedded(base_dir)?;
 
+    conn.delete_where(
+        &migrations::migrations_table().name,
+        BoolExpr::Ne("name", Expr::Val(name.clone().into())),
+    )?;
+    ms.delete_detached_migrations()?;
+
     println!("Collapsed all changes into new single migration '{name}'");
     Ok(())
 }
diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index fb0c317..1d4db19 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -409,6 +409,21 @@ impl FsMigrations {
         self.save_state(&state)?;
         Ok(())
     }
+    /// Make `m`, which is not based on another migration, the only migration of the list.
+    ///
+    /// Leaves the other migrations on the filesystem.
+    pub fn set_only_migration(&mut self, m: &FsMigration) -> Result<()> {
+        let mut state = self.get_state()?;
+        state.latest = Some(m.name().to_string());
+        self.save_state(&state)
+    }
+    /// Delete all migrations that are not in the list of migrations.
+    pub fn delete_detached_migrations(&mut self) -> Result<()> {
+        for path in self.detached_migration_paths()? {
+            std::fs::remove_dir_all(path)?;
+        }
+        Ok(())
+    }
     /// Provides a Vec of migration directories that have been detached.
     pub fn detached_migration_paths(&self) -> Result<Vec<String>> {
         let migration_series = self.all_migrations()?;
-- 
2.43.0


From e5b5f063d15c99c42f6758b6985db36c84f09b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:16 +0000
Subject: [PATCH 19/38] fix: replace the CLI's files in one step and embed
 after an interruption

---
 butane_cli/src/lib.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index f8357cb..df1695c 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -11,7 +11,6 @@ extern crate alloc;
 
 use std::{
     fs::File,
-    io::Write,
     path::{Path, PathBuf},
 };
 
@@ -41,20 +40,31 @@ impl CliState {
         let file = File::open(path);
         match file {
             Ok(file) => Ok(serde_json::from_reader(file)?),
-            Err(_) => Ok(CliState::default()),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(CliState::default()),
+            Err(e) => Err(e.into()),
         }
     }
 
     pub fn save(&self, base_dir: &Path) -> Result<()> {
         let path = base_dir.join("clistate.json");
-        let mut file = File::create(path)?;
         let mut contents = serde_json::to_string_pretty(self)?;
         contents.push('\n');
-        file.write_all(contents.as_bytes())?;
-        Ok(())
+        replace_file(&path, contents.as_bytes())
     }
 }
 
+/// Replace the contents of a file in one step.
+fn replace_file(path: &Path, contents: &[u8]) -> Result<()> {
+    let mut temporary = path.as_os_str().to_owned();
+    temporary.push(format!(".{}.tmp", std::process::id()));
+    std::fs::write(&temporary, contents)
+        .and_then(|()| std::fs::rename(&temporary, path))
+        .inspect_err(|_| {
+            let _ = std::fs::remove_file(&temporary);
+        })?;
+    Ok(())
+}
+
 pub fn default_name() -> String {
     Utc::now().format("%Y%m%d_%H%M%S%3f").to_string()
 }
@@ -90,8 +100,9 @@ pub fn make_migration(base_dir: &Path, name: Option<&String>) -> Result<()> {
     let backends = load_backends(base_dir)?;
 
     let created = ms.create_migration(&backends, &name, ms.try_latest()?.as_ref())?;
+    // Also if there are no changes: making the latest migration may have been interrupted
+    update_embedded(base_dir)?;
     if created {
-        update_embedded(base_dir)?;
         println!("Created migration {name}");
     } else {
         println!("No changes to migrate");
@@ -385,8 +396,7 @@ pub fn get_migrations() -> Result<MemMigrations, butane::Error> {{
 "
     );
 
-    let mut f = std::fs::File::create(path)?;
-    f.write_all(src.as_bytes())?;
+    replace_file(&path, src.as_bytes())?;
 
     let mut cli_state = CliState::load(base_dir)?;
     cli_state.embedded = true;
-- 
2.43.0


From 1302e8b00537f1d40104700ffc2d5d275634efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:27 +0000
Subject: [PATCH 20/38] fix: report migrations that cannot be read instead of
 assuming none

---
 butane_cli/src/lib.rs | 72 ++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index df1695c..a71991d 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -547,40 +547,56 @@ pub fn regenerate_migrations(base_dir: &Path) -> Result<()> {
     Ok(())
 }
 
-/// Load the [`db::Backend`]s used in the latest migration.
-/// Error if there are no existing migrations.
-pub fn load_latest_migration_backends(base_dir: &Path) -> Result<NonEmpty<Box<dyn Backend>>> {
-    if let Ok(ms) = get_migrations(base_dir) {
-        if let Some(latest_migration) = ms.try_latest()? {
-            let backend_names = latest_migration.sql_backends()?;
-            assert!(!backend_names.is_empty());
-            log::info!(
-                "Latest migration contains backends: {}",
-                backend_names.join(", ")
-            );
+/// Names of the backends used in the latest migration, or `None` if there are no migrations.
+fn latest_migration_backend_names(base_dir: &Path) -> Result<Option<Vec<String>>> {
+    let ms = match get_migrations(base_dir) {
+        Ok(ms) => ms,
+        Err(e) if e.is::<CliError>() => return Ok(None),
+        Err(e) => return Err(e),
+    };
+    let Some(latest_migration) = ms.try_latest()? else {
+        return Ok(None);
+    };
+    let backend_names = latest_migration.sql_backends()?;
+    assert!(!backend_names.is_empty());
+    log::info!(
+        "Latest migration contains backends: {}",
+        backend_names.join(", ")
+    );
+    Ok(Some(backend_names))
+}
 
-            let mut backends: Vec<Box<dyn Backend>> = vec![];
+fn get_backends(backend_names: &[String]) -> Result<NonEmpty<Box<dyn Backend>>> {
+    let mut backends: Vec<Box<dyn Backend>> = vec![];
 
-            for backend_name in backend_names {
-                backends.push(
-                    db::get_backend(&backend_name)
-                        .ok_or(anyhow::anyhow!("Backend {backend_name} not found"))?,
-                );
-            }
+    for backend_name in backend_names {
+        backends.push(
+            db::get_backend(backend_name)
+                .ok_or(anyhow::anyhow!("Backend {backend_name} not found"))?,
+        );
+    }
 
-            return Ok(NonEmpty::<Box<dyn Backend>>::from_vec(backends).unwrap());
-        }
+    Ok(NonEmpty::<Box<dyn Backend>>::from_vec(backends).unwrap())
+}
+
+/// Load the [`db::Backend`]s used in the latest migration.
+/// Error if there are no existing migrations.
+pub fn load_latest_migration_backends(base_dir: &Path) -> Result<NonEmpty<Box<dyn Backend>>> {
+    match latest_migration_backend_names(base_dir)? {
+        Some(backend_names) => get_backends(&backend_names),
+        None => Err(anyhow::anyhow!("There are no exiting migrations.")),
     }
-    Err(anyhow::anyhow!("There are no exiting migrations."))
 }
 
 /// Load [`db::Backend`]s selected in the latest migration, or when there are no migrations,
 /// fallback to the backend named in the connection.
 pub fn load_backends(base_dir: &Path) -> Result<NonEmpty<Box<dyn Backend>>> {
     // Try to use the same backends as the latest migration.
-    let backends = load_latest_migration_backends(base_dir);
-    if backends.is_ok() {
-        return backends;
+    if let Some(backend_names) = latest_migration_backend_names(base_dir)? {
+        let backends = get_backends(&backend_names);
+        if backends.is_ok() {
+            return backends;
+        }
     }
 
     // Otherwise use the backend used during `init`.
@@ -701,10 +717,10 @@ pub fn clean(base_dir: &Path) -> Result<()> {
 
 pub fn get_migrations(base_dir: &Path) -> Result<FsMigrations> {
     let root = base_dir.join("migrations");
-    if root.is_dir() {
-        Ok(migrations::from_root(root))
-    } else {
-        Err(anyhow::Error::new(CliError::NoButaneMigrationsDir))
+    match root.metadata() {
+        Ok(metadata) if metadata.is_dir() => Ok(migrations::from_root(root)),
+        Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(e.into()),
+        _ => Err(anyhow::Error::new(CliError::NoButaneMigrationsDir)),
     }
 }
 
-- 
2.43.0


From 25c07985540fc9ae025ef30ae98abaed6264e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 21/38] fix: clear data in an order that references permit

---
 butane_cli/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index a71991d..f167d31 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -703,9 +703,12 @@ pub fn clear_data(base_dir: &PathBuf) -> Result<()> {
             std::process::exit(1);
         }
     };
-    for table in latest.db()?.tables() {
-        println!("Deleting data from {}", table.name);
-        conn.delete_where(&table.name, BoolExpr::True)?;
+    // In the order in which the tables could be removed, which their references permit
+    for op in diff(&latest.db()?, &ADB::new()) {
+        if let Operation::RemoveTable(table_name) = op {
+            println!("Deleting data from {table_name}");
+            conn.delete_where(&table_name, BoolExpr::True)?;
+        }
     }
     Ok(())
 }
-- 
2.43.0


From c0c2a5292875b7770e691ea7611dc00fa5edcf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 22/38] fix: run Turso queries to their end

Turso rolls back the transaction if the statement that opened its snapshot is
dropped before: has_table() as the first operation did that.
---
 butane_core/src/db/turso.rs | 55 +++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 38635c5..66bc9dc 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -145,6 +145,28 @@ pub struct TursoConnection {
     conn: turso::Connection,
 }
 
+/// Run the query to its end, even if a row can't be converted. Turso rolls back the transaction
+/// if the statement that opened its snapshot is dropped before.
+async fn all_rows<T>(
+    rows: &mut turso::Rows,
+    convert: impl Fn(&turso::Row) -> Result<T>,
+) -> Result<Vec<T>> {
+    let mut result = Ok(Vec::new());
+    while let Some(row) = rows
+        .next()
+        .await
+        .map_err(|e| Error::Internal(e.to_string()))?
+    {
+        if let Ok(converted) = &mut result {
+            match convert(&row) {
+                Ok(val) => converted.push(val),
+                Err(e) => result = Err(e),
+            }
+        }
+    }
+    result
+}
+
 impl TursoConnection {
     async fn open(path: impl AsRef<str>) -> Result<Self> {
         let path_str = path.as_ref();
@@ -280,19 +302,13 @@ impl TursoConnection {
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
 
-        let mut result_values = Vec::new();
-        while let Some(row) = rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-        {
+        all_rows(&mut rows, |row| {
             let val = row
                 .get_value(0)
                 .map_err(|e| Error::Internal(e.to_string()))?;
-            result_values.push(turso_value_to_sqlval_untyped(&val)?);
-        }
-
-        Ok(result_values)
+            turso_value_to_sqlval_untyped(&val)
+        })
+        .await
     }
 
     /// Transform subqueries in both sides of a binary boolean expression.
@@ -395,12 +411,7 @@ impl ConnectionMethods for TursoConnection {
             .map_err(|e| Error::Internal(e.to_string()))?;
 
         // Collect all rows into a Vec to avoid lifetime issues
-        let mut vec_rows = Vec::new();
-        while let Some(row) = rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-        {
+        let vec_rows = all_rows(&mut rows, |row| {
             // Convert turso row to VecRow
             let mut values = Vec::new();
             for (i, col) in columns.iter().enumerate() {
@@ -409,8 +420,9 @@ impl ConnectionMethods for TursoConnection {
                     .map_err(|e| Error::Internal(e.to_string()))?;
                 values.push(turso_value_to_sqlval_typed(&val, col.ty())?);
             }
-            vec_rows.push(TursoRow { values });
-        }
+            Ok(TursoRow { values })
+        })
+        .await?;
 
         Ok(Box::new(VecRows::new(vec_rows)))
     }
@@ -573,11 +585,8 @@ impl ConnectionMethods for TursoConnection {
             .query(sql, params)
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
-        Ok(rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-            .is_some())
+        let found = all_rows(&mut rows, |_| Ok(())).await?;
+        Ok(!found.is_empty())
     }
 }
 
-- 
2.43.0


From ca630e3ac29281fe6119031e1369e4e8f1750e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 23/38] fix: replace the subqueries of deletions, and nested
 ones, on Turso

---
 butane_core/src/db/turso.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 66bc9dc..1e7d803 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -240,6 +240,8 @@ impl TursoConnection {
         tbl2_col: &'static str,
         inner_expr: Box<BoolExpr>,
     ) -> Result<BoolExpr> {
+        // The condition of a subquery may hold further ones
+        let inner_expr = Box::pin(self.transform_subqueries(*inner_expr)).await?;
         let mut sql = format!(
             "SELECT DISTINCT {} FROM {} WHERE ",
             helper::quote_reserved_word(tbl2_col),
@@ -247,7 +249,7 @@ impl TursoConnection {
         );
         let mut values: Vec<SqlVal> = Vec::new();
         sql_for_expr(
-            query::Expr::Condition(inner_expr),
+            query::Expr::Condition(Box::new(inner_expr)),
             &mut values,
             &mut TursoPlaceholderSource::new(),
             &mut sql,
@@ -266,6 +268,8 @@ impl TursoConnection {
         joins: Vec<query::Join>,
         inner_expr: Box<BoolExpr>,
     ) -> Result<BoolExpr> {
+        // The condition of a subquery may hold further ones
+        let inner_expr = Box::pin(self.transform_subqueries(*inner_expr)).await?;
         let mut sql = String::new();
         write!(&mut sql, "SELECT DISTINCT ").unwrap();
         helper::sql_column(col2, &mut sql);
@@ -275,7 +279,7 @@ impl TursoConnection {
 
         let mut values: Vec<SqlVal> = Vec::new();
         sql_for_expr(
-            query::Expr::Condition(inner_expr),
+            query::Expr::Condition(Box::new(inner_expr)),
             &mut values,
             &mut TursoPlaceholderSource::new(),
             &mut sql,
@@ -556,6 +560,8 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
+        // Transform Subquery expressions since Turso doesn't support them
+        let expr = self.transform_subqueries(expr).await?;
         let mut sql = format!("DELETE FROM {}", helper::quote_reserved_word(table));
         let mut values: Vec<SqlVal> = Vec::new();
         sql.write_str(" WHERE ").unwrap();
-- 
2.43.0


From 21691d991ff8b42108a62d97d16cd8993ed3283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 24/38] fix: don't split SQL at semicolons inside literals on
 Turso

---
 butane_core/src/db/turso.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 1e7d803..7514668 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -343,15 +343,13 @@ impl ConnectionMethods for TursoConnection {
         if cfg!(feature = "log") {
             debug!("execute sql {sql}");
         }
-        // Turso doesn't have execute_batch, so we need to execute statements one by one
-        // Split on semicolons and execute each statement separately
-        for statement in sql.split(';').map(str::trim).filter(|s| !s.is_empty()) {
-            self.conn()?
-                .execute(statement, ())
-                .await
-                .map_err(|e| Error::Internal(e.to_string()))?;
+        if sql.trim().is_empty() {
+            return Ok(());
         }
-        Ok(())
+        self.conn()?
+            .execute_batch(sql)
+            .await
+            .map_err(|e| Error::Internal(e.to_string()))
     }
 
     async fn query<'c>(
-- 
2.43.0


From 113a35c53fdae5448051c20240ae941cdff2cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 25/38] fix: read the pk of an inserted row on Turso before
 anything else runs

---
 butane_core/src/db/turso.rs | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 7514668..8dc2d06 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -450,34 +450,15 @@ impl ConnectionMethods for TursoConnection {
         }
 
         let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
-
-        // Get the last inserted rowid
-        let query = "SELECT last_insert_rowid()".to_string();
-        let mut rows = self
-            .conn()?
-            .query(&query, ())
+        let conn = self.conn()?;
+        conn.execute(&sql, params)
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
 
-        if let Some(row) = rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-        {
-            let val = row
-                .get_value(0)
-                .map_err(|e| Error::Internal(e.to_string()))?;
-            // Use the pkcol type to ensure correct SqlVal type
-            Ok(turso_value_to_sqlval_typed(&val, pkcol.ty())?)
-        } else {
-            Err(Error::Internal(
-                "Failed to retrieve last insert rowid".to_string(),
-            ))
-        }
+        // Nothing else can have inserted in between, since there is no await point here
+        let rowid = turso::Value::Integer(conn.last_insert_rowid());
+        // Use the pkcol type to ensure correct SqlVal type
+        turso_value_to_sqlval_typed(&rowid, pkcol.ty())
     }
 
     async fn insert_only(
-- 
2.43.0


From a8a1ad86bb3da6849c0e78c36466d13c1c61cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 26/38] fix: rows with NULL don't match a list of values on
 Turso

---
 butane_core/src/db/turso.rs | 41 +++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 8dc2d06..fb5ba69 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -1212,8 +1212,45 @@ fn sql_for_expr(
     out: &mut impl Write,
 ) {
     // Subqueries should already be transformed by transform_subqueries before reaching here
-    // So we can just use the default helper implementation
-    helper::sql_for_expr(expr, sql_for_expr, values, placeholder_source, out)
+    // So except for IN we can just use the default helper implementation
+    match expr {
+        query::Expr::Condition(cond) => match *cond {
+            BoolExpr::In(col, vals) if !vals.is_empty() => {
+                sql_any_of(col, vals, values, placeholder_source, out)
+            }
+            cond => helper::sql_for_expr(
+                query::Expr::Condition(Box::new(cond)),
+                sql_for_expr,
+                values,
+                placeholder_source,
+                out,
+            ),
+        },
+        expr => helper::sql_for_expr(expr, sql_for_expr, values, placeholder_source, out),
+    }
+}
+
+/// Write what `col IN (vals)` means without using IN, as Turso takes `NULL IN (1, 2)` to be true.
+fn sql_any_of(
+    col: &'static str,
+    mut vals: Vec<SqlVal>,
+    values: &mut Vec<SqlVal>,
+    placeholder_source: &mut TursoPlaceholderSource,
+    out: &mut impl Write,
+) {
+    if vals.len() == 1 {
+        write!(out, "{} = ", helper::quote_reserved_word(col)).unwrap();
+        let val = query::Expr::Val(vals.remove(0));
+        sql_for_expr(val, values, placeholder_source, out);
+    } else {
+        // Halving the list keeps the nesting low
+        let rest = vals.split_off(vals.len() / 2);
+        write!(out, "(").unwrap();
+        sql_any_of(col, vals, values, placeholder_source, out);
+        write!(out, " OR ").unwrap();
+        sql_any_of(col, rest, values, placeholder_source, out);
+        write!(out, ")").unwrap();
+    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From d11a5035cf23dc1a703924ae892061ee384291e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 27/38] fix: roll back every Turso transaction that is not
 committed

Dropping one outside of a multi-threaded tokio runtime panicked or left it open,
as did a commit that failed and a transaction() future that was abandoned.
What came next became part of the old transaction. Statements are refused on a
transaction Turso has rolled back by itself.
---
 butane_core/src/db/turso.rs | 97 +++++++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 30 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index fb5ba69..174c8ec 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -5,6 +5,10 @@
 
 use std::borrow::Cow;
 use std::fmt::{Debug, Write};
+use std::future::Future;
+use std::pin::pin;
+use std::sync::Arc;
+use std::task::{Context, Poll, Wake, Waker};
 
 use async_trait::async_trait;
 #[cfg(feature = "datetime")]
@@ -167,6 +171,12 @@ async fn all_rows<T>(
     result
 }
 
+/// Wakes nobody.
+struct NoWake;
+impl Wake for NoWake {
+    fn wake(self: Arc<Self>) {}
+}
+
 impl TursoConnection {
     async fn open(path: impl AsRef<str>) -> Result<Self> {
         let path_str = path.as_ref();
@@ -195,6 +205,27 @@ impl TursoConnection {
         Ok(TursoConnection { conn })
     }
 
+    /// Is there an open transaction?
+    fn in_transaction(&self) -> bool {
+        matches!(self.conn.is_autocommit(), Ok(false))
+    }
+
+    /// Roll back the open transaction, if there is one, without the help of an async runtime.
+    fn rollback_now(&self) -> Result<()> {
+        if !self.in_transaction() {
+            return Ok(());
+        }
+        // Turso performs its I/O while it is polled, so that no waker is needed to make progress.
+        let waker = Waker::from(Arc::new(NoWake));
+        let mut cx = Context::from_waker(&waker);
+        let mut rollback = pin!(self.conn.execute("ROLLBACK", ()));
+        loop {
+            if let Poll::Ready(r) = rollback.as_mut().poll(&mut cx) {
+                return r.map(|_| ()).map_err(|e| Error::Internal(e.to_string()));
+            }
+        }
+    }
+
     /// Transform Subquery expressions into In expressions by executing the subquery first.
     /// This is necessary because Turso/libSQL doesn't support subqueries in WHERE clauses.
     async fn transform_subqueries(&self, expr: BoolExpr) -> Result<BoolExpr> {
@@ -578,9 +609,13 @@ impl ConnectionMethods for TursoConnection {
 #[async_trait]
 impl BackendConnection for TursoConnection {
     async fn transaction(&mut self) -> Result<Transaction<'_>> {
-        // Begin transaction
-        self.execute("BEGIN TRANSACTION").await?;
-        let trans = Box::new(TursoTransaction::new(self));
+        // Exists already while BEGIN runs, so that abandoning this leaves no transaction open
+        let mut trans = Box::new(TursoTransaction::new(self));
+        if let Err(e) = trans.begin().await {
+            // Nothing was begun
+            trans.conn = None;
+            return Err(e);
+        }
         Ok(Transaction::new(trans))
     }
 
@@ -600,20 +635,33 @@ impl BackendConnection for TursoConnection {
 /// Turso transaction.
 #[derive(Debug)]
 struct TursoTransaction<'c> {
+    /// None once committed or rolled back
     conn: Option<&'c TursoConnection>,
-    committed: bool,
 }
 
 impl<'c> TursoTransaction<'c> {
     fn new(conn: &'c TursoConnection) -> Self {
-        TursoTransaction {
-            conn: Some(conn),
-            committed: false,
+        TursoTransaction { conn: Some(conn) }
+    }
+
+    async fn begin(&self) -> Result<()> {
+        match self.conn {
+            Some(conn) => conn.execute("BEGIN TRANSACTION").await,
+            None => Err(Self::already_consumed()),
         }
     }
 
+    /// The connection, with this transaction still open on it.
     fn get(&self) -> Result<&'c TursoConnection> {
-        self.conn.ok_or_else(Self::already_consumed)
+        let conn = self.conn.ok_or_else(Self::already_consumed)?;
+        if !conn.in_transaction() {
+            // Turso rolls back by itself on some errors. Without this, what follows would run, and
+            // be kept, outside any transaction.
+            return Err(Error::Internal(
+                "Transaction was already rolled back because of an earlier error".to_string(),
+            ));
+        }
+        Ok(conn)
     }
 
     fn already_consumed() -> Error {
@@ -703,15 +751,18 @@ impl<'c> ConnectionMethods for TursoTransaction<'c> {
 #[async_trait]
 impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
     async fn commit(&mut self) -> Result<()> {
-        let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("COMMIT").await?;
-        self.committed = true;
+        // Unless it succeeds, dropping self rolls back
+        self.get()?.execute("COMMIT").await?;
+        self.conn = None;
         Ok(())
     }
 
     async fn rollback(&mut self) -> Result<()> {
-        let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("ROLLBACK").await?;
+        let conn = self.conn.ok_or_else(Self::already_consumed)?;
+        if conn.in_transaction() {
+            conn.execute("ROLLBACK").await?;
+        }
+        self.conn = None;
         Ok(())
     }
 
@@ -722,24 +773,10 @@ impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
 
 impl<'c> Drop for TursoTransaction<'c> {
     fn drop(&mut self) {
+        // Neither committed nor rolled back
         if let Some(conn) = self.conn.take() {
-            if !self.committed {
-                // If transaction was not committed or rolled back, roll it back
-                // Use block_in_place to execute async rollback in a sync Drop context
-                if tokio::runtime::Handle::try_current().is_ok() {
-                    let conn_clone = conn.conn.clone();
-                    let _ = tokio::task::block_in_place(|| {
-                        tokio::runtime::Handle::current().block_on(async move {
-                            conn_clone
-                                .execute("ROLLBACK", Vec::<turso::Value>::new())
-                                .await
-                        })
-                    });
-                } else {
-                    eprintln!(
-                        "Warning: TursoTransaction dropped without commit or rollback and no tokio runtime available"
-                    );
-                }
+            if let Err(_e) = conn.rollback_now() {
+                crate::warn!("Rolling back a dropped Turso transaction failed: {_e}");
             }
         }
     }
-- 
2.43.0


From f70b3fb389cd4f54534941b34ae339cfb9db0dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:34 +0000
Subject: [PATCH 28/38] fix: finish Turso operations that are abandoned

---
 butane_core/src/db/turso.rs | 122 +++++++++++++++++++++++-------------
 1 file changed, 77 insertions(+), 45 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 174c8ec..46c8c05 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -6,7 +6,7 @@
 use std::borrow::Cow;
 use std::fmt::{Debug, Write};
 use std::future::Future;
-use std::pin::pin;
+use std::pin::{pin, Pin};
 use std::sync::Arc;
 use std::task::{Context, Poll, Wake, Waker};
 
@@ -155,20 +155,23 @@ async fn all_rows<T>(
     rows: &mut turso::Rows,
     convert: impl Fn(&turso::Row) -> Result<T>,
 ) -> Result<Vec<T>> {
-    let mut result = Ok(Vec::new());
-    while let Some(row) = rows
-        .next()
-        .await
-        .map_err(|e| Error::Internal(e.to_string()))?
-    {
-        if let Ok(converted) = &mut result {
-            match convert(&row) {
-                Ok(val) => converted.push(val),
-                Err(e) => result = Err(e),
+    Finish::new(async {
+        let mut result = Ok(Vec::new());
+        while let Some(row) = rows
+            .next()
+            .await
+            .map_err(|e| Error::Internal(e.to_string()))?
+        {
+            if let Ok(converted) = &mut result {
+                match convert(&row) {
+                    Ok(val) => converted.push(val),
+                    Err(e) => result = Err(e),
+                }
             }
         }
-    }
-    result
+        result
+    })
+    .await
 }
 
 /// Wakes nobody.
@@ -177,6 +180,54 @@ impl Wake for NoWake {
     fn wake(self: Arc<Self>) {}
 }
 
+/// Wait for the future without the help of an async runtime. Turso performs its I/O while it is
+/// polled, so that no waker is needed to make progress.
+fn wait_now<F: Future>(mut f: Pin<&mut F>) -> F::Output {
+    let waker = Waker::from(Arc::new(NoWake));
+    let mut cx = Context::from_waker(&waker);
+    loop {
+        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
+            return r;
+        }
+    }
+}
+
+/// An operation of Turso which, once started, runs to its end even if it is abandoned. Turso does
+/// not take back what a statement that is dropped halfway has done.
+struct Finish<F: Future> {
+    /// None once it ended
+    operation: Option<Pin<Box<F>>>,
+    started: bool,
+}
+impl<F: Future> Finish<F> {
+    fn new(operation: F) -> Self {
+        Finish {
+            operation: Some(Box::pin(operation)),
+            started: false,
+        }
+    }
+}
+impl<F: Future> Future for Finish<F> {
+    type Output = F::Output;
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
+        self.started = true;
+        // Taken out, so that it is not resumed if it panics
+        let mut operation = self.operation.take().expect("polled after it ended");
+        let r = operation.as_mut().poll(cx);
+        if r.is_pending() {
+            self.operation = Some(operation);
+        }
+        r
+    }
+}
+impl<F: Future> Drop for Finish<F> {
+    fn drop(&mut self) {
+        if let (true, Some(mut operation)) = (self.started, self.operation.take()) {
+            wait_now(operation.as_mut());
+        }
+    }
+}
+
 impl TursoConnection {
     async fn open(path: impl AsRef<str>) -> Result<Self> {
         let path_str = path.as_ref();
@@ -215,15 +266,9 @@ impl TursoConnection {
         if !self.in_transaction() {
             return Ok(());
         }
-        // Turso performs its I/O while it is polled, so that no waker is needed to make progress.
-        let waker = Waker::from(Arc::new(NoWake));
-        let mut cx = Context::from_waker(&waker);
-        let mut rollback = pin!(self.conn.execute("ROLLBACK", ()));
-        loop {
-            if let Poll::Ready(r) = rollback.as_mut().poll(&mut cx) {
-                return r.map(|_| ()).map_err(|e| Error::Internal(e.to_string()));
-            }
-        }
+        wait_now(pin!(self.conn.execute("ROLLBACK", ())))
+            .map(|_| ())
+            .map_err(|e| Error::Internal(e.to_string()))
     }
 
     /// Transform Subquery expressions into In expressions by executing the subquery first.
@@ -331,9 +376,7 @@ impl TursoConnection {
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect();
 
-        let mut rows = self
-            .conn()?
-            .query(sql, params)
+        let mut rows = Finish::new(self.conn()?.query(sql, params))
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
 
@@ -377,8 +420,7 @@ impl ConnectionMethods for TursoConnection {
         if sql.trim().is_empty() {
             return Ok(());
         }
-        self.conn()?
-            .execute_batch(sql)
+        Finish::new(self.conn()?.execute_batch(sql))
             .await
             .map_err(|e| Error::Internal(e.to_string()))
     }
@@ -437,9 +479,7 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect();
-        let mut rows = self
-            .conn()?
-            .query(&sqlquery, params)
+        let mut rows = Finish::new(self.conn()?.query(&sqlquery, params))
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
 
@@ -482,7 +522,7 @@ impl ConnectionMethods for TursoConnection {
 
         let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
         let conn = self.conn()?;
-        conn.execute(&sql, params)
+        Finish::new(conn.execute(&sql, params))
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
 
@@ -506,8 +546,7 @@ impl ConnectionMethods for TursoConnection {
             &mut sql,
         );
         let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
-        self.conn()?
-            .execute(&sql, params)
+        Finish::new(self.conn()?.execute(&sql, params))
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
         Ok(())
@@ -523,8 +562,7 @@ impl ConnectionMethods for TursoConnection {
         let mut sql = String::new();
         sql_insert_or_update(table, columns, pkcol, &mut sql);
         let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
-        self.conn()?
-            .execute(&sql, params)
+        Finish::new(self.conn()?.execute(&sql, params))
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
         Ok(())
@@ -548,8 +586,7 @@ impl ConnectionMethods for TursoConnection {
         );
         let mut params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
         params.push(sqlval_to_turso(&pk));
-        self.conn()?
-            .execute(&sql, params)
+        Finish::new(self.conn()?.execute(&sql, params))
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
         Ok(())
@@ -562,8 +599,7 @@ impl ConnectionMethods for TursoConnection {
             helper::quote_reserved_word(pkcol)
         );
         let params = vec![sqlval_to_turso(&pk.as_ref())];
-        self.conn()?
-            .execute(&sql, params)
+        Finish::new(self.conn()?.execute(&sql, params))
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
         Ok(())
@@ -585,9 +621,7 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect();
-        let rows_affected = self
-            .conn()?
-            .execute(&sql, params)
+        let rows_affected = Finish::new(self.conn()?.execute(&sql, params))
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
         Ok(rows_affected as usize)
@@ -596,9 +630,7 @@ impl ConnectionMethods for TursoConnection {
     async fn has_table(&self, table: &str) -> Result<bool> {
         let sql = "SELECT name FROM sqlite_master WHERE type='table' AND name=?";
         let params = vec![turso::Value::Text(table.to_string())];
-        let mut rows = self
-            .conn()?
-            .query(sql, params)
+        let mut rows = Finish::new(self.conn()?.query(sql, params))
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
         let found = all_rows(&mut rows, |_| Ok(())).await?;
-- 
2.43.0


From 1ddc64fb32e042617d6636766f82a03f34fcb1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 29/38] fix: committing a failed PostgreSQL transaction is an
 error

---
 butane_core/src/db/pg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index ce1accb..6836c27 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -395,7 +395,12 @@ impl<'c> BackendTransaction<'c> for PgTransaction<'c> {
     async fn commit(&mut self) -> Result<()> {
         match self.trans.take() {
             None => Err(Self::already_consumed()),
-            Some(trans) => Ok(trans.commit().await?),
+            Some(trans) => {
+                // The server answers COMMIT in a failed transaction by rolling
+                // it back, which is no error to it. Any other statement fails.
+                trans.batch_execute("SELECT 1").await?;
+                Ok(trans.commit().await?)
+            }
         }
     }
 
-- 
2.43.0


From 8bbf839129be21815fba7df5eb2c23c8afc700f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 30/38] fix: has_table finds PostgreSQL tables with upper case
 names

---
 butane_core/src/db/pg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 6836c27..a7ed0c7 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -350,7 +350,12 @@ where
             .client()?
             .prepare("SELECT table_name FROM information_schema.tables WHERE table_name=$1;");
         let stmt = future.await?;
-        let tableref: &[&(dyn postgres::types::ToSql + Sync)] = &[&table];
+        // The server folds names that we do not quote to lower case.
+        let name = match helper::quote_reserved_word(table) {
+            Cow::Borrowed(unquoted) => unquoted.to_ascii_lowercase(),
+            Cow::Owned(_) => table.to_string(),
+        };
+        let tableref: &[&(dyn postgres::types::ToSql + Sync)] = &[&name];
         let future = self.client()?.query(&stmt, tableref);
         let rows = future.await?;
         Ok(!rows.is_empty())
-- 
2.43.0


From e4a50b86e7d32fd364da0628fd3a29963799ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 31/38] fix: a filter for an empty list of values matches
 nothing

---
 butane_core/src/db/helper.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 59c61cf..759684c 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -144,6 +144,8 @@ where
                 write!(w, ")").unwrap();
                 Ok(())
             }
+            // Not every database accepts an empty list.
+            In(_, vals) if vals.is_empty() => write!(w, "FALSE"),
             In(col, vals) => {
                 write!(w, "{} IN (", quote_reserved_word(col)).unwrap();
                 let mut remaining = vals.len();
-- 
2.43.0


From 4249acb5189b792260d560240edd131244f81f68 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 32/38] fix: PostgreSQL statements with more than 126 values

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index a7ed0c7..0b0ff48 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -945,7 +945,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
 
 #[derive(Debug)]
 struct PgPlaceholderSource {
-    n: i8,
+    n: u32,
 }
 impl PgPlaceholderSource {
     fn new() -> Self {
-- 
2.43.0


From cec992bb0aadf48ed8af0c8b64c6afb7199ae85c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 33/38] fix: automatic PostgreSQL keys named by a reserved word

---
 butane_core/src/db/pg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 0b0ff48..c3e7aeb 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -241,7 +241,12 @@ where
             &mut PgPlaceholderSource::new(),
             &mut sql,
         );
-        write!(&mut sql, " RETURNING {}", pkcol.name()).unwrap();
+        write!(
+            &mut sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
         }
-- 
2.43.0


From a3fa70a5314619caaae737ead50a102adb751762 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 34/38] fix: an insert that fails after returning its key is an
 error

---
 butane_core/src/db/pg.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index c3e7aeb..60e9836 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -259,10 +259,16 @@ where
             .await
             .map_err(Error::Postgres)?
             .map(|r| r.map(|x| sql_val_from_postgres(&x, 0, pkcol)));
-        Box::pin(pk_stream)
+        let mut pk_stream = Box::pin(pk_stream);
+        let pk = pk_stream
             .next()
             .await
-            .ok_or(Error::Internal(("could not get pk").to_string()))??
+            .ok_or(Error::Internal(("could not get pk").to_string()))??;
+        // The statement has not succeeded before the end of its results.
+        while let Some(r) = pk_stream.next().await {
+            let _ = r?;
+        }
+        pk
     }
     async fn insert_only(
         &self,
-- 
2.43.0


From b1b83561b4b7697a676741481a1446ba36f38fad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:49:52 +0000
Subject: [PATCH 35/38] fix: PostgreSQL queries that filter by a JSON value

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 60e9836..a077657 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -942,7 +942,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
         Some(SqlType::Text) => postgres::types::Type::TEXT,
         Some(SqlType::Blob) => postgres::types::Type::BYTEA,
         #[cfg(feature = "json")]
-        Some(SqlType::Json) => postgres::types::Type::JSON,
+        Some(SqlType::Json) => postgres::types::Type::JSONB,
         #[cfg(feature = "datetime")]
         Some(SqlType::Date) => postgres::types::Type::DATE,
         #[cfg(feature = "datetime")]
-- 
2.43.0


From a440c111bb13c7ec71bacd289f6342ebb5f69d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:28 +0000
Subject: [PATCH 36/38] fix: blob defaults in PostgreSQL migrations

x'..' is a bit string on PostgreSQL, so that a migration adding a blob
column that is required, or has a default, always failed.
---
 butane_core/src/db/pg.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index a077657..9369d50 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -760,7 +760,7 @@ fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
         define_column(col)?,
-        helper::sql_literal_value(&default)?
+        literal_value(&default)?
     )];
     if col.reference().is_some() {
         stmts.push(define_fkey_constraint(tbl_name, col));
@@ -769,6 +769,15 @@ fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
     Ok(result)
 }
 
+/// SQL of a literal of the value `val`.
+fn literal_value(val: &SqlVal) -> Result<String> {
+    match val {
+        // x'..' would be a bit string
+        SqlVal::Blob(val) => Ok(format!("'\\x{}'", hex::encode(val))),
+        _ => helper::sql_literal_value(val),
+    }
+}
+
 fn remove_column(tbl_name: &str, name: &str) -> String {
     format!(
         "ALTER TABLE {} DROP COLUMN {};",
@@ -863,7 +872,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
                 "ALTER TABLE {} ALTER COLUMN {} SET DEFAULT {};",
                 quote_reserved_word(tbl_name),
                 quote_reserved_word(old.name()),
-                helper::sql_literal_value(val)?
+                literal_value(val)?
             ),
         });
     }
-- 
2.43.0


From 81491757d236b957b00a5506271c23b64ac35c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:36 +0000
Subject: [PATCH 37/38] fix: drop PostgreSQL constraints of tables with
 reserved names

A table or column whose name is quoted keeps its upper case letters, and
so does the constraint that the server names after it.
---
 butane_core/src/db/pg.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 9369d50..11f06d9 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -750,6 +750,25 @@ fn col_sqltype(col: &AColumn) -> Result<Cow<'_, str>> {
     }
 }
 
+/// The name that the server gives to a constraint of the table and column `of`.
+fn constraint_name(of: &[&str], suffix: &str) -> String {
+    // The server folds names that we do not quote to lower case.
+    let folded: Vec<Cow<'_, str>> = of
+        .iter()
+        .map(|name| match helper::quote_reserved_word(name) {
+            Cow::Borrowed(unquoted) => unquoted.to_ascii_lowercase().into(),
+            Cow::Owned(_) => Cow::Borrowed(*name),
+        })
+        .collect();
+    let unquoted = format!("{}_{}", of.join("_"), suffix);
+    let actual = format!("{}_{}", folded.join("_"), suffix);
+    if actual == unquoted.to_ascii_lowercase() {
+        unquoted
+    } else {
+        format!("\"{actual}\"")
+    }
+}
+
 fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
@@ -826,9 +845,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         if new.is_pk() {
             // Drop the old primary key
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {}_pkey;",
+                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {};",
                 quote_reserved_word(tbl_name),
-                tbl_name
+                constraint_name(&[tbl_name], "pkey")
             ));
 
             // add the new primary key
@@ -853,10 +872,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         } else {
             // Standard constraint naming scheme
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_key;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                constraint_name(&[tbl_name, old.name()], "key")
             ));
         }
     }
@@ -881,10 +899,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         if old.reference().is_some() {
             // Drop the old reference
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_fkey;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                constraint_name(&[tbl_name, old.name()], "fkey")
             ));
         }
         if new.reference().is_some() {
-- 
2.43.0


From d98df849eea4e8b2ff4aea6eafa3505e1ee84e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:25 +0000
Subject: [PATCH 38/38] fix: change the type of automatic PostgreSQL keys

SERIAL and BIGSERIAL are not types that a column can be changed to, so that
such a migration always failed. The sequence changes its type as well, lest
it end where the old type did.
---
 butane_core/src/db/pg.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 11f06d9..dc2dcc7 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -750,8 +750,8 @@ fn col_sqltype(col: &AColumn) -> Result<Cow<'_, str>> {
     }
 }
 
-/// The name that the server gives to a constraint of the table and column `of`.
-fn constraint_name(of: &[&str], suffix: &str) -> String {
+/// The name that the server gives to a constraint, or a sequence, of the table and column `of`.
+fn default_name(of: &[&str], suffix: &str) -> String {
     // The server folds names that we do not quote to lower case.
     let folded: Vec<Cow<'_, str>> = of
         .iter()
@@ -822,12 +822,25 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
     }
     if old.typeid()? != new.typeid()? {
         // column type change
+        let sqltype = match col_sqltype(new)?.as_ref() {
+            // These can only be the type of a new column.
+            "SERIAL" => Cow::Borrowed("INTEGER"),
+            "BIGSERIAL" => Cow::Borrowed("BIGINT"),
+            other => Cow::Owned(other.to_string()),
+        };
         stmts.push(format!(
             "ALTER TABLE {} ALTER COLUMN {} SET DATA TYPE {};",
             quote_reserved_word(tbl_name),
             quote_reserved_word(old.name()),
-            col_sqltype(new)?,
+            sqltype,
         ));
+        if old.is_auto() && new.is_auto() {
+            stmts.push(format!(
+                "ALTER SEQUENCE IF EXISTS {} AS {};",
+                default_name(&[tbl_name, old.name()], "seq"),
+                sqltype,
+            ));
+        }
     }
     if old.nullable() != new.nullable() {
         stmts.push(format!(
@@ -847,7 +860,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
             stmts.push(format!(
                 "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {};",
                 quote_reserved_word(tbl_name),
-                constraint_name(&[tbl_name], "pkey")
+                default_name(&[tbl_name], "pkey")
             ));
 
             // add the new primary key
@@ -874,7 +887,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
             stmts.push(format!(
                 "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                constraint_name(&[tbl_name, old.name()], "key")
+                default_name(&[tbl_name, old.name()], "key")
             ));
         }
     }
@@ -901,7 +914,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
             stmts.push(format!(
                 "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                constraint_name(&[tbl_name, old.name()], "fkey")
+                default_name(&[tbl_name, old.name()], "fkey")
             ));
         }
         if new.reference().is_some() {
-- 
2.43.0


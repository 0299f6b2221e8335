From 2bcb95aab86c8747847a0a5c97a7671d599bb9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 01/22] fix: resume voucher redemption from the recorded group
 after a transient failure

A voucher in the Error state was never retried (start_at_counter raised) and one
which had ever been Unpaid was always restarted from group 0, even when groups
had already been redeemed, submitting fresh random tokens for a spent group.
---
 src/_zkapauthorizer/controller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index aa728e2..d4def80 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -928,7 +928,10 @@ class PaymentController(object):
             real_num_tokens = voucher_obj.expected_tokens
             # Determine the starting point from the state.
             if voucher_obj.state.should_start_redemption():
-                counter_start = voucher_obj.state.start_at_counter()
+                # The transient states (Unpaid, Error) only describe the most
+                # recent attempt.  How much progress has been made is known
+                # only to the store.
+                counter_start = self.store.get(voucher).state.start_at_counter()
             else:
                 self._log.info(
                     "Cannot redeem voucher in state {state}.",
@@ -1002,6 +1005,9 @@ class PaymentController(object):
                 started=self.store.now(),
                 counter=voucher.state.counter,
             )
+            # The outcome of this attempt supersedes that of any earlier one.
+            self._unpaid.pop(voucher.number, None)
+            self._error.pop(voucher.number, None)
             result = await self.redeemer.redeemWithCounter(
                 voucher, counter, random_tokens
             )
-- 
2.43.0


From bccc84a4df224204d70e62ba7767334de6b0718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 02/22] fix: do not replicate the statements of a rolled back
 transaction

---
 src/_zkapauthorizer/replicate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 94383f7..2c73743 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -445,7 +445,11 @@ class _ReplicationCapableConnection:
         exc_tb: Optional[Any],
     ) -> bool:
         propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
-        if exc_type is None:
+        if exc_type is not None:
+            # The transaction was rolled back so none of the changes recorded
+            # for it ever happened.
+            self._mutations = list()
+        else:
             # There was no exception, signal observers that a change has been
             # committed.
             post_txn_fns: list[Callable[[], None]] = []
-- 
2.43.0


From 1eb1d3116c9dc8748ea429ba02ac3038e5d63d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 03/22] fix: do not discard the first event if it arrives
 during the first snapshot upload

---
 src/_zkapauthorizer/replicate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 2c73743..3de9ac0 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -943,7 +943,7 @@ class _ReplicationService(Service):
         from the replica that are no longer relevant.
         """
         # extract sequence-number and snapshot data
-        seqnum = 1
+        seqnum = 0
         rows = (
             self._connection.cursor()
             .execute(
-- 
2.43.0


From 5fa175f362b67662a79d4a7a8d6ecbdaacb3c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 04/22] fix: record replication events in the same transaction
 as the changes

---
 src/_zkapauthorizer/replicate.py | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 3de9ac0..5d2d1b5 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -419,8 +419,11 @@ class _ReplicationCapableConnection:
         """
         Add another observer of changes made through this connection.
 
-        :param fn: An object to call after any transaction with changes is
-            committed on this connection.
+        :param fn: An object to call at the end of any transaction with
+            changes on this connection.  It is called with a cursor which can
+            be used to make further (unobserved) changes in that transaction.
+            The object it returns is called after the transaction is
+            committed.
         """
         self._observers = self._observers + (fn,)
 
@@ -444,21 +447,30 @@ class _ReplicationCapableConnection:
         exc_value: Optional[BaseException],
         exc_tb: Optional[Any],
     ) -> bool:
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
         if exc_type is not None:
-            # The transaction was rolled back so none of the changes recorded
+            # The transaction is rolled back so none of the changes recorded
             # for it ever happened.
             self._mutations = list()
-        else:
-            # There was no exception, signal observers that a change has been
-            # committed.
-            post_txn_fns: list[Callable[[], None]] = []
-            with self._conn:
+            return self._conn.__exit__(exc_type, exc_value, exc_tb)
+
+        # There was no exception, signal observers about the changes that are
+        # about to be committed.  Let them make their own changes as part of
+        # the same transaction so that either both the changes and the record
+        # of the changes are committed or neither is.
+        post_txn_fns: list[Callable[[], None]] = []
+        try:
+            if self._mutations:
                 curse = self._conn.cursor()
-                curse.execute("BEGIN IMMEDIATE TRANSACTION")
+                if not self._conn.in_transaction:
+                    curse.execute("BEGIN IMMEDIATE TRANSACTION")
                 post_txn_fns.extend(self._maybe_signal_observers(curse))
-            for f in post_txn_fns:
-                f()
+        except BaseException as e:
+            self._conn.__exit__(type(e), e, e.__traceback__)
+            raise
+
+        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        for f in post_txn_fns:
+            f()
         # Respect the underlying propagation decision.
         return propagate
 
-- 
2.43.0


From 05b5141adb22f2fe92c9b63ef55fef18786dcf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 05/22] fix: apply each change in a replica at most once during
 recovery

---
 src/_zkapauthorizer/recover.py | 39 +++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 3081636..527242d 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -224,8 +224,45 @@ def recover(
     streams against the given cursor.
     """
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
+    # The replica may still contain event streams with changes that are already
+    # part of the snapshot or of another event stream (for example, because
+    # replication was interrupted before it could prune something).  Each
+    # change must be applied only once.
+    applied = snapshot_sequence(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
-        recover_event_stream(event_stream, cursor)
+        recover_event_stream(
+            EventStream(
+                changes=[c for c in event_stream.changes if c.sequence > applied]
+            ),
+            cursor,
+        )
+        highest = event_stream.highest_sequence()
+        assert highest is not None
+        applied = max(applied, highest)
+
+
+def snapshot_sequence(cursor: Cursor) -> int:
+    """
+    Find the sequence number of the last change which is included in the
+    snapshot which was just loaded into a database.
+
+    :return: The sequence number or 0 if the snapshot does not include any
+        numbered changes.
+    """
+    cursor.execute(
+        "SELECT [name] FROM [sqlite_master] WHERE [name] = 'sqlite_sequence'", ()
+    )
+    if len(cursor.fetchall()) == 0:
+        return 0
+    cursor.execute(
+        "SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ()
+    )
+    rows = cursor.fetchall()
+    if len(rows) == 0:
+        return 0
+    (seq,) = rows[0]
+    assert isinstance(seq, int)
+    return seq
 
 
 def sorted_event_streams(event_streams: Iterable[EventStream]) -> list[EventStream]:
-- 
2.43.0


From 5258b0d127e9c1936c75d5b7dd3d14389d8418d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 06/22] fix: make token in-use marks in a replica harmless to
 recovery

---
 src/_zkapauthorizer/model.py   |  5 ++++-
 src/_zkapauthorizer/recover.py | 13 +++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 47fa3a1..09196df 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -711,9 +711,12 @@ class VoucherStore(ConnectionHaver):
         if len(texts) < count:
             raise NotEnoughTokens()
 
+        # This statement may also be replayed during recovery.  There, unlike
+        # here, marks left by a process that did not live long enough to clear
+        # them are still present.
         cursor.executemany(
             """
-            INSERT INTO [in-use] VALUES (?)
+            INSERT OR IGNORE INTO [in-use] VALUES (?)
             """,
             texts,
         )
diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 527242d..50be0e5 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -239,6 +239,19 @@ def recover(
         highest = event_stream.highest_sequence()
         assert highest is not None
         applied = max(applied, highest)
+    discard_temporary_state(cursor)
+
+
+def discard_temporary_state(cursor: Cursor) -> None:
+    """
+    Forget everything in the database's temporary tables.
+
+    They hold state which belonged to the process which made the replica (for
+    example, which tokens it was busy spending).
+    """
+    cursor.execute("SELECT [name] FROM [sqlite_temp_master] WHERE [type] = 'table'", ())
+    for (table_name,) in cursor.fetchall():
+        cursor.execute(f"DELETE FROM temp.{escape_identifier(table_name)}", ())
 
 
 def snapshot_sequence(cursor: Cursor) -> int:
-- 
2.43.0


From 3ebd3a7b636f37cfecb4a43b72c5596872ece28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 07/22] fix: do not let other database use interrupt the
 recovery transaction

---
 src/_zkapauthorizer/model.py     |  7 +++++++
 src/_zkapauthorizer/replicate.py | 11 ++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 09196df..02f3efb 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -225,6 +225,9 @@ def with_cursor_async(
 
     @wraps(f)
     async def with_cursor_async(self: _S, /, *a: _P.args, **kw: _P.kwargs) -> _T:
+        if self._connection.in_transaction:
+            # As for ``with_cursor``.
+            raise OperationalError("another transaction is still in progress")
         with self._connection:
             cursor = self._connection.cursor()
             try:
@@ -249,6 +252,10 @@ def with_cursor(
 
     @wraps(f)
     def with_cursor(self: _S, /, *a: _P.args, **kw: _P.kwargs) -> _T:
+        if self._connection.in_transaction:
+            # Someone else is in the middle of a transaction (see
+            # ``with_cursor_async``).  Fail without rolling it back.
+            raise OperationalError("another transaction is still in progress")
         with self._connection:
             cursor = self._connection.cursor()
             try:
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 5d2d1b5..a0e1a7b 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -437,6 +437,14 @@ class _ReplicationCapableConnection:
     def close(self) -> None:
         return self._conn.close()
 
+    @property
+    def in_transaction(self) -> bool:
+        """
+        ``True`` if and only if there is a transaction which has not yet been
+        committed or rolled back.
+        """
+        return self._conn.in_transaction
+
     def __enter__(self) -> _ReplicationCapableConnection:
         self._conn.__enter__()
         return self
@@ -464,11 +472,12 @@ class _ReplicationCapableConnection:
                 if not self._conn.in_transaction:
                     curse.execute("BEGIN IMMEDIATE TRANSACTION")
                 post_txn_fns.extend(self._maybe_signal_observers(curse))
+            propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
         except BaseException as e:
+            # Do not leave the transaction open if it cannot be committed.
             self._conn.__exit__(type(e), e, e.__traceback__)
             raise
 
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
         for f in post_txn_fns:
             f()
         # Respect the underlying propagation decision.
-- 
2.43.0


From e4be5e40dabd6aa2d1e765f8921b4517870aaebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 08/22] fix: close the recovery WebSocket of late and
 mismatched clients

---
 src/_zkapauthorizer/resource.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 5a1b892..f6a54cb 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -367,8 +367,8 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
 
         Otherwise, error.
         """
-        self.clients.append(client)
         if self.recovering_d is None:
+            self.clients.append(client)
             self.recovering_cap = cap
             self.recovering_d = Deferred.fromCoroutine(self._recover(self.store, cap))
 
@@ -396,7 +396,7 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             self.recovering_d.addCallbacks(happy, err)
 
         elif self.recovering_cap != cap:
-            self.sendClose(
+            client.sendClose(
                 code=4000, reason="Ongoing recovery with different capability"
             )
 
@@ -405,8 +405,12 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             # capability, so be idempotent by acting the same as if this
             # was the first client. That means sending this client all the
             # status updates we've sent so far.
+            self.clients.append(client)
             for update in self.sent_updates:
                 client.sendMessage(update)
+            if self.recovering_d.called:
+                # There will be no more updates.
+                client.sendClose()
 
     def buildProtocol(self, addr: object) -> RecoverProtocol:
         """
-- 
2.43.0


From f530db2d23a3ef425e7eb9d8eafc0174329d7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 09/22] fix: report the recovery capability when replication is
 already set up

---
 src/_zkapauthorizer/replicate.py | 13 ++++++++++---
 src/_zkapauthorizer/resource.py  |  5 ++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index a0e1a7b..8153c0a 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -272,11 +272,16 @@ class ReplicationAlreadySetup(Exception):
     """
     An attempt was made to setup of replication but it is already set up.
 
-    :ivar cap_str: The read-only capability of the replica that was already
-        set up.
+    :ivar cap_str: A string identifying the replica that was already set up.
+
+    :ivar recovery_cap: The read-only capability of the replica that was
+        already set up.
     """
 
     cap_str: str
+    recovery_cap: Optional[DirectoryReadCapability] = field(
+        default=None, eq=False, repr=False
+    )
 
 
 async def fail_setup_replication() -> NoReturn:
@@ -308,7 +313,9 @@ async def setup_tahoe_lafs_replication(client: ITahoeClient) -> DirectoryReadCap
             rwcap_obj = writeable_directory_from_string(
                 config_path.getContent().decode("ascii")  # type: ignore[no-untyped-call]
             )
-            raise ReplicationAlreadySetup(digested_capability_string(rwcap_obj))
+            raise ReplicationAlreadySetup(
+                digested_capability_string(rwcap_obj), rwcap_obj.reader
+            )
 
         # Create a directory with it
         rw_cap = await client.make_directory()
diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index f6a54cb..77088a9 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -243,7 +243,10 @@ class ReplicateResource(Resource):
             cap_obj = await self._setup()
         except ReplicationAlreadySetup as e:
             status = CONFLICT
-            cap_obj = readonly_directory_from_string(e.cap_str)
+            if e.recovery_cap is None:
+                cap_obj = readonly_directory_from_string(e.cap_str)
+            else:
+                cap_obj = e.recovery_cap
         else:
             status = CREATED
 
-- 
2.43.0


From 39c6482f95ba210e9c42eb58dc3c2fd60bfd0b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 10/22] fix: keep replicating after a failed upload

---
 src/_zkapauthorizer/replicate.py | 49 +++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 8153c0a..5a55cda 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -862,6 +862,7 @@ class _ReplicationService(Service):
 
     _changes: AccumulatedChanges = AccumulatedChanges.no_changes()
     _jobs: DeferredQueue[ReplicationJob] = field(factory=DeferredQueue)
+    _failed_jobs: list[ReplicationJob] = field(init=False, factory=list)
 
     @property
     def _unreplicated_connection(self) -> _SQLite3Connection:
@@ -911,10 +912,12 @@ class _ReplicationService(Service):
     def queue_job(self, job: ReplicationJob) -> None:
         """
         Queue a job, if it is not already queued, to be executed after any other
-        queued jobs.
+        queued jobs.  Any jobs which failed before are queued ahead of it.
         """
-        if job not in self._jobs.pending:
-            self._jobs.put(job)
+        failed, self._failed_jobs = self._failed_jobs, []
+        for j in failed + [job]:
+            if j not in self._jobs.pending:
+                self._jobs.put(j)
 
     @log_call(action_type="zkapauthorizer:replicate:queue-event-upload")
     def queue_event_upload(self) -> None:
@@ -939,16 +942,36 @@ class _ReplicationService(Service):
         """
         while True:
             job = await self._jobs.get()
-            if job == ReplicationJob.event_stream:
-                await self._do_one_event_upload()
-            elif job == ReplicationJob.snapshot:
-                await self._do_one_snapshot_upload()
-            elif job == ReplicationJob.consider_snapshot:
-                await self._do_consider_snapshot()
-            elif job == ReplicationJob.startup:
-                await self._do_startup()
-            else:
-                raise Exception("internal error")  # pragma: nocover
+            try:
+                await self._do_one_job(job)
+            except CancelledError:
+                raise
+            except Exception:
+                if not self.running:
+                    # The failure may be a consequence of stopService.
+                    raise
+                # Failing to do one thing (eg because the grid is not
+                # reachable at the moment) does not mean everything else will
+                # fail from now on.  Make the failure visible and do the same
+                # thing again along with whatever needs to be done next.
+                self._logger.failure("unexpected {job} error", job=job.name)
+                if job not in self._failed_jobs:
+                    self._failed_jobs.append(job)
+
+    async def _do_one_job(self, job: ReplicationJob) -> None:
+        """
+        Do the work for a single queued job.
+        """
+        if job == ReplicationJob.event_stream:
+            await self._do_one_event_upload()
+        elif job == ReplicationJob.snapshot:
+            await self._do_one_snapshot_upload()
+        elif job == ReplicationJob.consider_snapshot:
+            await self._do_consider_snapshot()
+        elif job == ReplicationJob.startup:
+            await self._do_startup()
+        else:
+            raise Exception("internal error")  # pragma: nocover
 
     async def _do_startup(self) -> None:
         """
-- 
2.43.0


From edf67925219277df4ff6f94f794dd97fa5e68109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 11/22] fix: make lease maintenance cope with directory cycles
 and literal nodes

---
 src/_zkapauthorizer/lease_maintenance.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 0746a33..aa87ae2 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -95,10 +95,20 @@ async def visit_storage_indexes(
             )
 
     stack = root_nodes[:]
+    seen_directories: set[StorageIndex] = set()
     while stack:
         elem = stack.pop()
-        visit(elem.get_storage_index())
+        storage_index = elem.get_storage_index()
+        # Nodes without a storage index (eg literals) have nothing stored on
+        # any server.
+        if storage_index is not None:
+            visit(storage_index)
         if IDirectoryNode.providedBy(elem):
+            # The directory graph may have cycles.
+            if storage_index is not None:
+                if storage_index in seen_directories:
+                    continue
+                seen_directories.add(storage_index)
             children = await elem.list()
             # Produce consistent results by forcing some consistent ordering
             # here.  This will sort by name.
-- 
2.43.0


From 26d28238e9332fb796b46d5b3a2548947c9a9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 12/22] fix: let the lease maintenance service be stopped
 during a run

---
 src/_zkapauthorizer/lease_maintenance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index aa87ae2..e4f6f19 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -379,6 +379,8 @@ class _FuzzyTimerService(Service, Generic[_C]):
         """
         Run the operation once and then schedule it to run again.
         """
+        # The delayed call has run now so it can no longer be cancelled.
+        self._call = None
 
         async def go() -> None:
             try:
@@ -386,7 +388,8 @@ class _FuzzyTimerService(Service, Generic[_C]):
             except:
                 f = Failure()  # type: ignore[no-untyped-call]
                 err(f, f"Fuzzy timer service ({self.name})")  # type: ignore[no-untyped-call]
-            self._schedule()
+            if self.running:
+                self._schedule()
 
         Deferred.fromCoroutine(go())
 
-- 
2.43.0


From afa3e8dff3999b6c4335bb08b67319fb8b914bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 13/22] fix: upgrade the time at which vouchers reached a
 terminal state

---
 src/_zkapauthorizer/schema.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index a4362b5..695367e 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -277,4 +277,13 @@ _UPGRADES = {
         ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'
         """,
     ],
+    9: [
+        # The upgrade from version 7 overlooked this column.  Values written
+        # since then already have a timezone marker.
+        """
+        UPDATE [vouchers]
+        SET [finished] = datetime([finished], "utc") || "+00:00"
+        WHERE [finished] IS NOT NULL AND [finished] NOT LIKE "%+00:00"
+        """,
+    ],
 }
-- 
2.43.0


From 9d806fb5dd5bfa072c4e16179d82e6757450e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 14/22] fix: keep tokens of partially redeemed vouchers
 spendable after an upgrade

---
 src/_zkapauthorizer/schema.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index 695367e..98b3ced 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -186,12 +186,13 @@ _UPGRADES = {
         )
         """,
         """
-        -- Create one redemption group for every existing, redeemed voucher.
-        -- These tokens were probably *not* all redeemed in one group but
-        -- we've only preserved one public key for them so we can't do much
-        -- better than this.
+        -- Create one redemption group for every existing voucher which has
+        -- been at least partially redeemed.  These tokens were probably *not*
+        -- all redeemed in one group but we've only preserved one public key
+        -- for them so we can't do much better than this.
         INSERT INTO [redemption-groups] ([voucher], [public-key], [spendable])
-            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers] WHERE [state] = "redeemed"
+            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers]
+            WHERE [state] = "redeemed" OR [counter] > 0
         """,
         """
         -- Give each voucher a count of "sequestered" tokens.  Currently,
-- 
2.43.0


From 7acbccd1bf44a37ffa49972de9b714d7d4f93e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 15/22] fix: charge the full size of a share when a write
 renews its expired lease

---
 src/_zkapauthorizer/_storage_client.py | 24 +++++++++++---------
 src/_zkapauthorizer/_storage_server.py | 31 +++++++++++++-------------
 src/_zkapauthorizer/storage_common.py  | 12 ++++++++--
 3 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 19c8ee2..5d82216 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -622,23 +622,25 @@ class ZKAPAuthorizerStorageClient(object):
             # of the current size of all of the specified shares (keys of
             # tw_vectors).
             [stats] = await stat_shares(rref, [storage_index])
-            # Filter down to only the shares that have an active lease.  If
-            # we're going to write to any other shares we will have to pay to
-            # renew their leases.
+            # Separate the shares that have an active lease from those that
+            # don't.  If we're going to write to any of the latter we will
+            # have to pay to renew their leases.
             now = self._clock.seconds()
-            current_sizes = {
-                sharenum: stat.size
-                for (sharenum, stat) in stats.items()
-                if stat.lease_expiration > now
-                # Also, the size of any share we're not writing to doesn't
-                # matter.
-                and sharenum in write_sharenums
-            }
+            current_sizes = {}
+            expired_sizes = {}
+            for (sharenum, stat) in stats.items():
+                # The size of any share we're not writing to doesn't matter.
+                if sharenum in write_sharenums:
+                    if stat.lease_expiration > now:
+                        current_sizes[sharenum] = stat.size
+                    else:
+                        expired_sizes[sharenum] = stat.size
             # Determine the cost of the new storage for the operation.
             num_passes = get_required_new_passes_for_mutable_write(
                 self._pass_value,
                 current_sizes,
                 old_tw_vectors,
+                expired_sizes,
             )
 
         async def call(passes: IPassGroup) -> tuple[bool, dict[int, list[bytes]]]:
diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index e60b193..c164c5a 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -1050,21 +1050,21 @@ def get_writev_price(
         ),
     )
 
-    # Zero out the size of any share without an unexpired lease.  We will
-    # renew the lease on this share along with the write but the client
-    # must supply the necessary passes to do so.
-    current_sizes.update(
-        {
-            sharenum: 0
-            for sharenum in current_sizes
-            if not share_has_active_leases(
-                storage_server,
-                storage_index,
-                sharenum,
-                now,
-            )
-        }
-    )
+    # Separate out any share without an unexpired lease.  We will renew the
+    # lease on this share along with the write but the client must supply the
+    # necessary passes to do so.
+    expired_sizes = {
+        sharenum: size
+        for (sharenum, size) in current_sizes.items()
+        if not share_has_active_leases(
+            storage_server,
+            storage_index,
+            sharenum,
+            now,
+        )
+    }
+    for sharenum in expired_sizes:
+        del current_sizes[sharenum]
 
     # Compute the number of passes required to execute the given writev
     # against these existing shares.
@@ -1072,4 +1072,5 @@ def get_writev_price(
         pass_value,
         current_sizes,
         tw_vectors,
+        expired_sizes,
     )
diff --git a/src/_zkapauthorizer/storage_common.py b/src/_zkapauthorizer/storage_common.py
index 6d8882a..02a8ed0 100644
--- a/src/_zkapauthorizer/storage_common.py
+++ b/src/_zkapauthorizer/storage_common.py
@@ -17,7 +17,7 @@ Functionality shared between the storage client and server.
 """
 
 from base64 import b64encode
-from typing import Callable, TypedDict, Union, ValuesView, cast
+from typing import Callable, Optional, TypedDict, Union, ValuesView, cast
 
 from attrs import define
 from pyutil.mathutil import div_ceil
@@ -273,6 +273,7 @@ def get_required_new_passes_for_mutable_write(
     pass_value: int,
     current_sizes: dict[int, int],
     tw_vectors: dict[int, ServerTestWriteVector],
+    expired_sizes: Optional[dict[int, int]] = None,
 ) -> int:
     """
     Get the number of new passes required to authorize a given write to a
@@ -280,10 +281,15 @@ def get_required_new_passes_for_mutable_write(
 
     :param pass_value: The value of a single pass in byte-months.
 
-    :param current_sizes: The current size of the mutable's shares.
+    :param current_sizes: The current size of the mutable's shares for which
+        storage is already paid.
 
     :param tw_vectors: The test-and-write vectors that make up the write.
 
+    :param expired_sizes: The current size of the mutable's written shares for
+        which storage is not paid anymore.  The write gives them a new lease
+        and these shares will be at least as large as they are now.
+
     :return: The number of new passes which must be spent.
     """
     current_passes = required_passes(
@@ -292,6 +298,8 @@ def get_required_new_passes_for_mutable_write(
     )
 
     new_sizes = current_sizes.copy()
+    if expired_sizes is not None:
+        new_sizes.update(expired_sizes)
     size_updates = {
         sharenum: get_implied_data_length(data_vector, new_length)
         for (sharenum, (_, data_vector, new_length)) in tw_vectors.items()
-- 
2.43.0


From fc38fb95a198f4f0ff9a38fcf4e3e82bf2e9bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 16/22] fix: replay serialized event streams with the arguments
 as tuples

The arguments of a change which was loaded from a serialized event stream are
a list but the wallet's cursor only accepts tuples.  Recovery from a replica
with any event stream in it failed.
---
 src/_zkapauthorizer/recover.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 50be0e5..f240fe1 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -310,7 +310,9 @@ def recover_event_stream(event_stream: EventStream, cursor: Cursor) -> None:
     """
     for change in event_stream.changes:
         if change.statement not in ("BEGIN TRANSACTION;", "COMMIT;"):
-            cursor.execute(change.statement, change.arguments)
+            # The arguments are a list when they come out of a serialized event
+            # stream but a cursor requires a tuple.
+            cursor.execute(change.statement, tuple(change.arguments))
 
 
 def recover_snapshot(statements: Iterator[str], cursor: Cursor) -> None:
-- 
2.43.0


From a19fc03bd3808c5db781c59abc949eb3d1b404e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 17/22] fix: do not count changes which could not be committed
 towards an upload

When the commit of a transaction failed its changes still counted, so that the
next transaction caused an upload which nothing called for.
---
 src/_zkapauthorizer/replicate.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 5a55cda..1c2aa04 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -62,6 +62,7 @@ __all__ = [
 import os
 import re
 from enum import Enum
+from functools import partial
 from io import BytesIO
 from sqlite3 import Connection as _SQLite3Connection
 from sqlite3 import Cursor as _SQLite3Cursor
@@ -1130,20 +1131,21 @@ class _ReplicationService(Service):
                 events.append((sql, args))
         add_events(unobserved_cursor, events, any_important)
         changes = AccumulatedChanges.from_statements(any_important, events)
-        self._changes = self._changes + changes
-        if self.should_upload_eventstream(self._changes):
-            return self._complete_upload
-        else:
-            return lambda: None
+        return partial(self._changes_committed, changes)
 
-    def _complete_upload(self) -> None:
+    def _changes_committed(self, changes: AccumulatedChanges) -> None:
         """
         This is called after the transaction closes (because we return it
         from our observer function). See
         _ReplicationCapableConnection.__exit__
+
+        It is not called for changes which could not be committed so they do
+        not count.
         """
-        self.queue_event_upload()
-        self._changes = AccumulatedChanges.no_changes()
+        self._changes = self._changes + changes
+        if self.should_upload_eventstream(self._changes):
+            self.queue_event_upload()
+            self._changes = AccumulatedChanges.no_changes()
 
     async def should_upload_snapshot(self) -> bool:
         """
-- 
2.43.0


From 565e3355d088cedf12391f4e7277d24db4cae38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 18/22] fix: do not end someone else's transaction from the
 replication service

Reading and pruning the recorded events committed whatever transaction was
open on the connection.  If replication was set up while a recovery was in
progress then this ended the recovery's transaction, so that changes made
by others (eg adding a voucher) were accepted and then wiped out by the
recovery.
---
 src/_zkapauthorizer/replicate.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 1c2aa04..f99f42e 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -61,6 +61,7 @@ __all__ = [
 
 import os
 import re
+from contextlib import nullcontext
 from enum import Enum
 from functools import partial
 from io import BytesIO
@@ -73,6 +74,7 @@ from typing import (
     Awaitable,
     Callable,
     ClassVar,
+    ContextManager,
     Generator,
     Iterable,
     Iterator,
@@ -736,11 +738,24 @@ def add_events(
     )
 
 
+def _join_transaction(conn: _SQLite3Connection) -> ContextManager[object]:
+    """
+    Get a context manager which ends the transaction used inside of it.
+
+    If someone else already has a transaction in progress on this connection
+    (eg for a recovery) then what is done inside becomes a part of it and it is
+    left for them to commit it or roll it back.
+    """
+    if conn.in_transaction:
+        return nullcontext()
+    return conn
+
+
 def get_events(conn: _SQLite3Connection) -> EventStream:
     """
     Return all events currently in our event-log.
     """
-    with conn:
+    with _join_transaction(conn):
         cursor = conn.cursor()
         cursor.execute(
             """
@@ -761,7 +776,7 @@ def prune_events_to(conn: _SQLite3Connection, sequence_number: int) -> None:
     """
     Remove all events <= sequence_number
     """
-    with conn:
+    with _join_transaction(conn):
         cursor = conn.cursor()
         cursor.execute(
             """
-- 
2.43.0


From dd380fbdc18584eefe9fb22195fc1e2e1e4e15f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 19/22] fix: do not report a recovery as succeeded before it is
 committed

Committing what was recovered may still fail (eg when the replica violates
a foreign key constraint, these are only enforced then).  The clients were
told that the recovery succeeded before that, and that it failed afterwards.
---
 src/_zkapauthorizer/resource.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 77088a9..7765f82 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -351,6 +351,17 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
         """
         Whenever the state of recovery changes, update all our clients
         """
+        if state.stage == RecoveryStages.succeeded:
+            # It did not succeed before the recovered state is committed.  See
+            # initiate_recovery.
+            return
+        self._update_clients(state)
+
+    def _update_clients(self, state: RecoveryState) -> None:
+        """
+        Tell all our clients, including the ones still to come, about a state
+        of recovery.
+        """
         update_msg = dumps(state.marshal()).encode("utf8")
         self.sent_updates.append(update_msg)
         for client in self.clients:
@@ -394,6 +405,8 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
                 disconnect_clients()
 
             def happy(_: object) -> None:
+                if self.recoverer.state().stage == RecoveryStages.succeeded:
+                    self._update_clients(self.recoverer.state())
                 disconnect_clients()
 
             self.recovering_d.addCallbacks(happy, err)
-- 
2.43.0


From ee2ee724e994cf97fc16667e2ae4f68d237b4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 20/22] fix: report a failure to take on a voucher

---
 src/_zkapauthorizer/resource.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 7765f82..194837e 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -717,7 +717,23 @@ class _VoucherCollection(Resource):
         self._log.info(
             "Accepting a voucher ({voucher}) for redemption.", voucher=voucher
         )
-        Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        failures: list[Failure] = []
+
+        def redeem_failed(reason: Failure) -> None:
+            self._log.failure(
+                "Redeeming a voucher ({voucher}) failed.", reason, voucher=voucher
+            )
+            failures.append(reason)
+
+        Deferred.fromCoroutine(
+            self._controller.redeem(voucher.encode("ascii"))
+        ).addErrback(redeem_failed)
+        if failures:
+            # It could not even be recorded.  Do not let the client believe
+            # otherwise.
+            set_response_code(request, INTERNAL_SERVER_ERROR)
+            application_json(request)
+            return dumps_utf8({"reason": failures[0].getErrorMessage()})
         return b""
 
     def render_GET(self, request: IRequest) -> bytes:
-- 
2.43.0


From 506595a65e6255ba226c4720ae0f5afd7ffe2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 21/22] fix: answer requests for undecodable vouchers with a
 client error

---
 src/_zkapauthorizer/resource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 194837e..3451912 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -748,7 +748,10 @@ class _VoucherCollection(Resource):
         )
 
     def getChild(self, segment: bytes, request: IRequest) -> IResource:
-        voucher_str = segment.decode("utf-8")
+        try:
+            voucher_str = segment.decode("utf-8")
+        except UnicodeDecodeError:
+            return bad_request()
         if not is_syntactic_voucher(voucher_str):
             return bad_request()
         try:
-- 
2.43.0


From 758f7295bf0c612dd8202d41f7bbf25a42392d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 22/22] fix: upgrade the database in one transaction

The sqlite3 module does not begin a transaction for statements like CREATE
TABLE and ALTER TABLE.  A process which died during an upgrade, or during the
creation of the database, left behind a database which could never be opened
again.
---
 src/_zkapauthorizer/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 02f3efb..e5f8e5a 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -160,6 +160,12 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
         # schema.
         cursor.execute("PRAGMA foreign_keys = ON", ())
 
+        # The sqlite3 module does not begin a transaction on account of
+        # statements like CREATE TABLE and ALTER TABLE.  If the process is
+        # interrupted, do not leave behind a partially upgraded database which
+        # can never be upgraded again.
+        cursor.execute("BEGIN IMMEDIATE TRANSACTION", ())
+
         # Upgrade the database to the most recent version of the schema.  That
         # is the only schema the Python code will actually work against.
         actual_version = get_schema_version(cursor)
-- 
2.43.0


From 5d56c1fcbe3c8243d585889016411474fa6d99b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 01/51] fix: keep scheduling while tasks are still being
 submitted

The scheduler stopped as soon as all tasks stored so far had finished,
even if the submitter was still reading input, so tasks arriving later
were stored but never run.  An input without any task made the server
wait forever.
---
 src/hypershell/server.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index abff879..ddd3e53 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -125,6 +125,7 @@ class Scheduler(StateMachine):
     states = SchedulerState
 
     startup_phase: bool = True
+    submitter_active: bool = False  # set by parent thread while tasks are still being submitted
 
     def __init__(self: Scheduler, queue: QueueServer, bundlesize: int = DEFAULT_BUNDLESIZE,
                  attempts: int = DEFAULT_ATTEMPTS, eager: bool = DEFAULT_EAGER_MODE,
@@ -178,8 +179,9 @@ class Scheduler(StateMachine):
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
-        # An empty database must wait for at least one task
-        elif not self.forever_mode and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
+        # An empty database must wait for at least one task (unless our own submitter had none to offer)
+        elif (not self.forever_mode and not self.submitter_active
+              and not self.startup_phase and Task.count_remaining() == 0):
             return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
@@ -223,6 +225,15 @@ class SchedulerThread(Thread):
         """Run machine."""
         self.machine.run()
 
+    def signal_submitter_active(self: SchedulerThread) -> None:
+        """Set flag to tell scheduler that more tasks are on their way."""
+        self.machine.submitter_active = True
+
+    def signal_submitter_done(self: SchedulerThread) -> None:
+        """Set flag to tell scheduler that all tasks have been submitted."""
+        self.machine.startup_phase = False
+        self.machine.submitter_active = False
+
     def stop(self: SchedulerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
         log.warning('Stopping (scheduler)')
@@ -723,6 +734,8 @@ class ServerThread(Thread):
             self.submitter = None if not source else SubmitThread(source, bundlesize=bundlesize, bundlewait=bundlewait)
             self.scheduler = SchedulerThread(queue=self.queue, bundlesize=bundlesize, attempts=max_retries + 1,
                                              eager=eager, forever_mode=forever_mode, restart_mode=restart_mode)
+            if self.submitter is not None:
+                self.scheduler.signal_submitter_active()
         if self.no_confirm:
             self.confirm = None
         else:
@@ -760,6 +773,8 @@ class ServerThread(Thread):
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
             self.submitter.join()
+            if self.scheduler is not None:
+                self.scheduler.signal_submitter_done()
 
     def wait_scheduler(self: ServerThread) -> None:
         """Wait scheduling until complete."""
-- 
2.43.0


From 6f83f9e16f587e2e9204d74efee0cc2bd952b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 02/51] fix: dismiss late clients and do not block on dead ones
 at shutdown

A client that registered after the shutdown sentinels were posted was never
told to leave and kept the server alive for good, and posting sentinels for
clients that had died blocked the heart monitor forever.
---
 src/hypershell/server.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index ddd3e53..41edff8 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -42,7 +42,7 @@ Warning:
 
 # type annotations
 from __future__ import annotations
-from typing import List, Dict, Tuple, Iterable, IO, Optional, Callable, Type, Final
+from typing import List, Dict, Set, Tuple, Iterable, IO, Optional, Callable, Type, Final
 from types import TracebackType
 
 # standard libs
@@ -458,6 +458,7 @@ class HeartMonitor(StateMachine):
     no_confirm: bool
     queue: QueueServer
     beats: Dict[str, Heartbeat]
+    signaled: Set[str]
     last_check: datetime
     wait_check: timedelta
     evict_after: timedelta
@@ -476,6 +477,7 @@ class HeartMonitor(StateMachine):
         self.queue = queue
         self.last_check = datetime.now().astimezone()
         self.beats = {}
+        self.signaled = set()
         self.in_memory = in_memory
         self.no_confirm = no_confirm
         if evict_after >= 10:
@@ -547,14 +549,14 @@ class HeartMonitor(StateMachine):
         """Decide to bail, signal, check, or get another heartbeat."""
         if self.startup_phase:
             return HeartbeatState.NEXT
-        if self.should_signal:
-            return HeartbeatState.SIGNAL
-        if not self.beats and self.scheduler_done:
+        if not self.beats and self.scheduler_done and self.queue.heartbeat.empty():
             return HeartbeatState.FINAL
         now = datetime.now().astimezone()
         if (now - self.last_check) > self.wait_check:
             self.last_check = now
             return HeartbeatState.CHECK
+        elif self.should_signal and not self.signaled.issuperset(self.beats):
+            return HeartbeatState.SIGNAL
         else:
             return HeartbeatState.NEXT
 
@@ -575,13 +577,17 @@ class HeartMonitor(StateMachine):
         return HeartbeatState.SWITCH
 
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
-        """Send shutdown signal to all connected clients."""
+        """Send shutdown signal to all connected clients (including those that only just registered)."""
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
-        for hb in self.beats.values():
-            self.queue.scheduled.put(None)
-            log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
-        self.should_signal = False
-        return HeartbeatState.SWITCH
+        for uuid, hb in self.beats.items():
+            if uuid not in self.signaled:
+                try:
+                    self.queue.scheduled.put(None, timeout=2)
+                except QueueFull:
+                    break  # NOTE: keep up with heartbeats and evictions, nobody may be left to take it
+                self.signaled.add(uuid)
+                log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
+        return HeartbeatState.NEXT
 
     @staticmethod
     def finalize() -> HeartbeatState:
-- 
2.43.0


From 090df76141b0ee07df0e65d9fe420cb90084e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 03/51] fix: revert tasks confirmed by a client that was
 already evicted

When a confirmation was processed after its client had been evicted, the
task was assigned to the dead client for good and the server never ended.
---
 src/hypershell/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 41edff8..e521921 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -305,6 +305,11 @@ class Confirm(StateMachine):
         """Update client info in database for confirmed task bundle."""
         if not self.in_memory:
             Task.update_all(self.client_info.transpose())
+            client_id = self.client_info.client_id
+            if Client.query().filter_by(id=client_id, evicted=True).count() > 0:
+                # NOTE: client was already given up on before its confirmation was processed
+                log.warning(f'Reverting orphaned tasks ({self.client_info.client_host}: {client_id})')
+                Task.revert_orphaned(client_id)
         return ConfirmState.UNLOAD
 
     @staticmethod
-- 
2.43.0


From 86a98b6509cb59a33abb62f60272d2e5af94f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 04/51] fix: create retries already scheduled and linked in one
 transaction

With the eager option a retry was selected twice within the same bundle, and a
crash between the commits left a retry behind that its predecessor did not
know about (so it was created again, violating the unique constraint).
---
 src/hypershell/data/model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a5ef391..706703e 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -362,15 +362,21 @@ class Task(Entity):
         failed_tasks = cls.select_failed(attempts=attempts, limit=limit)
         if failed_tasks:
             log.trace(f'Selected {len(failed_tasks)} previously failed tasks')
+            # NOTE: new attempts are created already scheduled and linked with the previous attempt within the same
+            # transaction, otherwise they could be selected twice or left behind without their link.
             new_tasks = [cls.new(args=task.args,
                                  attempt=task.attempt + 1,
                                  previous_id=task.id,
+                                 schedule_time=datetime.now().astimezone(),
                                  tag=task.tag)
                          for task in failed_tasks]
+            Session.add_all(new_tasks)
+            Session.flush()
+            for old_task, new_task in zip(failed_tasks, new_tasks):
+                old_task.retried = True
+                old_task.next_id = new_task.id
+                log.trace(f'Added {cls.__tablename__} ({new_task.id})')
             tasks.extend(new_tasks)
-            cls.add_all(tasks)
-            cls.update_all([{'id': old_task.id, 'retried': True, 'next_id': new_task.id}
-                            for old_task, new_task in zip(failed_tasks, new_tasks)])
         return tasks
 
     @classmethod
-- 
2.43.0


From bee96a42b566355b3acc5addb4554bf6894286c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 05/51] fix: look for failed tasks again before the scheduler
 finishes

A task whose failure was recorded between selecting tasks and counting the
remaining ones was never retried.
---
 src/hypershell/server.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index e521921..59a91db 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -175,14 +175,17 @@ class Scheduler(StateMachine):
         if check_signal() in (SIGUSR1, SIGUSR2):
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
+        # An empty database must wait for at least one task (unless our own submitter had none to offer)
+        can_finish = not self.forever_mode and not self.submitter_active and not self.startup_phase
         self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
+        if not self.tasks and can_finish and Task.count_remaining() == 0:
+            # NOTE: the last of them might have failed after we looked, check again now that nothing is running
+            self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
+            if not self.tasks:
+                return SchedulerState.FINAL
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
-        # An empty database must wait for at least one task (unless our own submitter had none to offer)
-        elif (not self.forever_mode and not self.submitter_active
-              and not self.startup_phase and Task.count_remaining() == 0):
-            return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
             return SchedulerState.LOAD
-- 
2.43.0


From 4898f1e7f98863be8fd3faad1e04d7f4847a85a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 06/51] fix: leave cancelled tasks out of the remaining,
 interrupted, orphaned and failed ones

A cancelled task kept the server from ever finishing, was scheduled again by a
restarted server, and was retried as if it had failed.
---
 src/hypershell/data/model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 706703e..a1cd46a 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -317,6 +317,7 @@ class Task(Entity):
                 .order_by(cls.completion_time)
                 .filter(cls.exit_status.isnot(None))
                 .filter(cls.exit_status != 0)
+                .filter(cls.completion_time.isnot(None))  # NOTE: otherwise cancelled
                 .filter(cls.attempt < attempts)
                 .filter(cls.retried.is_(False))
                 .limit(limit).all())
@@ -382,7 +383,12 @@ class Task(Entity):
     @classmethod
     def count_remaining(cls: Type[Task]) -> int:
         """Count of remaining unfinished tasks."""
-        return cls.query().filter(cls.completion_time.is_(None)).count()
+        return (
+            cls.query()
+            .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))  # NOTE: otherwise cancelled
+            .count()
+        )
 
     @classmethod
     def count_interrupted(cls: Type[Task]) -> int:
@@ -391,6 +397,7 @@ class Task(Entity):
             cls.query()
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .count()
         )
 
@@ -402,6 +409,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .limit(limit)
             .all()
         )
@@ -469,6 +477,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .filter(cls.client_id == client_id)
             .limit(limit)
             .all()
-- 
2.43.0


From 616c27ce2f75761c237a518c79aae345214f7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 07/51] fix: do not overwrite fields edited while a task was
 running

The returned task was written back entirely, undoing changes to its tags or
arguments and its links to other attempts.
---
 src/hypershell/server.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 59a91db..b11cb7d 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -341,6 +341,11 @@ class ConfirmThread(Thread):
         super().stop(wait=wait, timeout=timeout)
 
 
+RESULT_FIELDS: Final[List[str]] = ['server_id', 'server_host', 'schedule_time', 'client_id', 'client_host', 'command',
+                                   'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'waited', 'duration']
+"""Fields of a task determined by the server and client that ran it."""
+
+
 class ReceiverState(State, Enum):
     """Finite states for receiver."""
     START = 0
@@ -405,7 +410,9 @@ class Receiver(StateMachine):
     def update_tasks(self: Receiver) -> ReceiverState:
         """Update tasks in database with run details."""
         if not self.in_memory:
-            Task.update_all([task.to_dict() for task in self.tasks])
+            # NOTE: the other fields may have been altered in the meantime
+            Task.update_all([{'id': task.id, **{field: getattr(task, field) for field in RESULT_FIELDS}}
+                             for task in self.tasks])
         for task in self.tasks:
             log.debug(f'Completed task ({task.id})')
             if task.exit_status != 0:
-- 
2.43.0


From 8a5bccbb6a57d5ab36ddc96f715d81bf0fb00fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 08/51] fix: survive the deletion of tasks that are confirmed,
 returned or reverted

---
 src/hypershell/data/model.py | 14 +++++++++++++-
 src/hypershell/server.py     |  6 +++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a1cd46a..8fe9b92 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -175,6 +175,18 @@ class Entity(DeclarativeBase):
             Session.commit()  # NOTE: why is this necessary?
             log.trace(f'Updated {len(changes)} {cls.__tablename__}s')
 
+    @classmethod
+    def update_existing(cls: Type[Entity], changes: List[Dict[str, Any]]) -> None:
+        """Bulk update ignoring records that have been deleted in the meantime."""
+        try:
+            for change in changes:
+                cls.query().filter_by(id=change['id']).update(change, synchronize_session=False)
+            Session.commit()
+        except Exception:
+            Session.rollback()
+            raise
+        log.trace(f'Updated {len(changes)} {cls.__tablename__}s')
+
     @classmethod
     def update(cls: Type[Entity], id: str, **changes) -> None:
         """Update by `id` with `changes`."""
@@ -417,7 +429,7 @@ class Task(Entity):
     @classmethod
     def revert_all(cls: Type[Task], ids: List[str]) -> None:
         """Revert all tasks identified by `ids`."""
-        cls.update_all([
+        cls.update_existing([
             {
                 'id': id,
                 'schedule_time': None,
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index b11cb7d..a6b5197 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -307,7 +307,7 @@ class Confirm(StateMachine):
     def update_info(self: Confirm) -> ConfirmState:
         """Update client info in database for confirmed task bundle."""
         if not self.in_memory:
-            Task.update_all(self.client_info.transpose())
+            Task.update_existing(self.client_info.transpose())
             client_id = self.client_info.client_id
             if Client.query().filter_by(id=client_id, evicted=True).count() > 0:
                 # NOTE: client was already given up on before its confirmation was processed
@@ -411,8 +411,8 @@ class Receiver(StateMachine):
         """Update tasks in database with run details."""
         if not self.in_memory:
             # NOTE: the other fields may have been altered in the meantime
-            Task.update_all([{'id': task.id, **{field: getattr(task, field) for field in RESULT_FIELDS}}
-                             for task in self.tasks])
+            Task.update_existing([{'id': task.id, **{field: getattr(task, field) for field in RESULT_FIELDS}}
+                                  for task in self.tasks])
         for task in self.tasks:
             log.debug(f'Completed task ({task.id})')
             if task.exit_status != 0:
-- 
2.43.0


From 433b5364aaaf7a4a134aa6a5715e4413e4f331b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 09/51] fix: do not schedule tasks cancelled or deleted while
 they were being selected

---
 src/hypershell/data/model.py | 36 +++++++++++++++++++++++++-----------
 src/hypershell/server.py     | 16 +++++++++++-----
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 8fe9b92..8617e7f 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -17,7 +17,7 @@ from datetime import datetime
 # external libs
 from sqlalchemy import Column, Index, func
 from sqlalchemy.orm import Query, DeclarativeBase, Mapped, mapped_column
-from sqlalchemy.orm.exc import NoResultFound, MultipleResultsFound
+from sqlalchemy.orm.exc import NoResultFound, MultipleResultsFound, StaleDataError
 from sqlalchemy.ext.declarative import declared_attr
 from sqlalchemy.types import Integer, DateTime, Text, Boolean, JSON as _JSON
 from sqlalchemy.dialects.postgresql import UUID as POSTGRES_UUID, JSONB as POSTGRES_JSON
@@ -337,16 +337,30 @@ class Task(Entity):
     @classmethod
     def next(cls: Type[Task], limit: int, attempts: int = 1, eager: bool = False) -> List[Task]:
         """Select tasks for scheduling including failed tasks for re-scheduling."""
-        if eager:
-            tasks = cls.__next_eager(attempts=attempts, limit=limit)
-        else:
-            tasks = cls.__next_not_eager(attempts, limit)
-        for task in tasks:
-            task.server_id = INSTANCE
-            task.server_host = HOSTNAME
-            task.schedule_time = datetime.now().astimezone()
-        Session.commit()
-        return tasks
+        try:
+            if eager:
+                tasks = cls.__next_eager(attempts=attempts, limit=limit)
+            else:
+                tasks = cls.__next_not_eager(attempts, limit)
+            # NOTE: new tasks may have been cancelled or deleted since we selected them
+            tasks = [task for task in tasks if task.schedule_time is not None or cls.__claim(task.id)]
+            for task in tasks:
+                task.server_id = INSTANCE
+                task.server_host = HOSTNAME
+                task.schedule_time = datetime.now().astimezone()
+            Session.commit()
+            return tasks
+        except StaleDataError:
+            Session.rollback()
+            log.warning('Failed tasks were deleted before they could be retried')
+            return cls.next(limit=limit, attempts=attempts, eager=eager)
+
+    @classmethod
+    def __claim(cls: Type[Task], id: str) -> bool:
+        """Mark task as scheduled within current transaction unless no longer available."""
+        return bool(cls.query()
+                    .filter(cls.id == id, cls.schedule_time.is_(None))
+                    .update({'schedule_time': datetime.now().astimezone()}, synchronize_session=False))
 
     @classmethod
     def __next_eager(cls: Type[Task], attempts: int, limit: int) -> List[Task]:
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index a6b5197..ac3b818 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -57,6 +57,7 @@ from queue import Empty as QueueEmpty, Full as QueueFull
 # external libs
 from cmdkit.app import Application
 from cmdkit.cli import Interface, ArgumentError
+from sqlalchemy.orm.exc import ObjectDeletedError
 
 # internal libs
 from hypershell.core.exceptions import get_shared_exception_mapping
@@ -192,16 +193,21 @@ class Scheduler(StateMachine):
 
     def pack_bundle(self: Scheduler) -> SchedulerState:
         """Pack tasks into bundle (list)."""
-        self.bundle = [task.pack() for task in self.tasks]
-        return SchedulerState.POST
+        self.bundle = []
+        for task in self.tasks:
+            try:
+                self.bundle.append(task.pack())
+            except ObjectDeletedError:
+                log.warning('Task was deleted after it was scheduled')
+        return SchedulerState.POST if self.bundle else SchedulerState.LOAD
 
     def post_bundle(self: Scheduler) -> SchedulerState:
         """Put bundle on outbound queue."""
         try:
             self.queue.scheduled.put(self.bundle, timeout=2)
-            log.debug(f'Scheduled {len(self.tasks)} tasks')
-            for task in self.tasks:
-                log.debug(f'Scheduled task ({task.id})')
+            log.debug(f'Scheduled {len(self.bundle)} tasks')
+            for data in self.bundle:
+                log.debug(f'Scheduled task ({Task.unpack(data).id})')
             return SchedulerState.LOAD
         except QueueFull:
             return SchedulerState.POST
-- 
2.43.0


From a2eaf017d64aa958438250463b23cd2b30c6629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 10/51] fix: flush submitted tasks after the bundle wait even
 if the source is idle

---
 src/hypershell/submit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f1e88d0..8c41916 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -231,7 +231,9 @@ class DatabaseCommitter(StateMachine):
         try:
             task = self.queue.get(timeout=1)
         except QueueEmpty:
-            return DatabaseCommitterState.GET
+            # NOTE: do not hold on to tasks while the source is idle
+            since_last = (datetime.now() - self.previous_submit).total_seconds()
+            return DatabaseCommitterState.COMMIT if self.tasks and since_last >= self.bundlewait else DatabaseCommitterState.GET
         if task is not None:
             self.tasks.append(task)
             since_last = (datetime.now() - self.previous_submit).total_seconds()
@@ -424,7 +426,9 @@ class QueueCommitter(StateMachine):
         try:
             task = self.local.get(timeout=1)
         except QueueEmpty:
-            return QueueCommitterState.GET
+            # NOTE: do not hold on to tasks while the source is idle
+            since_last = (datetime.now() - self.previous_submit).total_seconds()
+            return QueueCommitterState.PACK if self.tasks and since_last >= self.bundlewait else QueueCommitterState.GET
         if task is not None:
             self.tasks.append(task)
             since_last = (datetime.now() - self.previous_submit).total_seconds()
-- 
2.43.0


From e36110e938bf81f9a271489338d88f8729cba8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 11/51] fix: end the submission with an error when its tasks
 cannot be stored

---
 src/hypershell/submit.py | 62 +++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index 8c41916..7653de1 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -340,11 +340,29 @@ class SubmitThread(Thread):
         log.debug(f'Started ({self.source_name})')
         self.loader.start()
         self.committer.start()
-        self.loader.join()
-        self.queue.put(None)
-        self.committer.join()
+        self.wait_loader()
+        self.wait_committer()
         log.debug('Done')
 
+    def wait_loader(self: SubmitThread) -> None:
+        """Wait for loader to finish (unless its tasks are no longer taken)."""
+        while self.loader.is_alive() and self.committer.is_alive():
+            self.loader.join(timeout=1)
+        if self.loader.is_alive():
+            self.loader.stop()
+        else:
+            self.loader.join()
+
+    def wait_committer(self: SubmitThread) -> None:
+        """Signal end of tasks and wait for committer to finish."""
+        while self.committer.is_alive():
+            try:
+                self.queue.put(None, timeout=1)
+                break
+            except QueueFull:
+                pass
+        self.committer.join()
+
     @functools.cached_property
     def source_name(self: SubmitThread) -> str:
         """Log details of source."""
@@ -359,7 +377,10 @@ class SubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        self.queue.put(None)
+        try:
+            self.queue.put(None, timeout=1)
+        except QueueFull:
+            pass  # NOTE: committer is no longer taking tasks
         self.committer.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
@@ -558,13 +579,31 @@ class LiveSubmitThread(Thread):
         with self.client:
             self.loader.start()
             self.committer.start()
-            log.trace('Waiting (loader)')
-            self.loader.join()
-            self.local.put(None)
-            log.trace('Waiting (committer)')
-            self.committer.join()
+            self.wait_loader()
+            self.wait_committer()
         log.debug('Done')
 
+    def wait_loader(self: LiveSubmitThread) -> None:
+        """Wait for loader to finish (unless its tasks are no longer taken)."""
+        log.trace('Waiting (loader)')
+        while self.loader.is_alive() and self.committer.is_alive():
+            self.loader.join(timeout=1)
+        if self.loader.is_alive():
+            self.loader.stop()
+        else:
+            self.loader.join()
+
+    def wait_committer(self: LiveSubmitThread) -> None:
+        """Signal end of tasks and wait for committer to finish."""
+        log.trace('Waiting (committer)')
+        while self.committer.is_alive():
+            try:
+                self.local.put(None, timeout=1)
+                break
+            except QueueFull:
+                pass
+        self.committer.join()
+
     @functools.cached_property
     def source_name(self: LiveSubmitThread) -> str:
         """Log details of source."""
@@ -579,7 +618,10 @@ class LiveSubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        self.local.put(None)
+        try:
+            self.local.put(None, timeout=1)
+        except QueueFull:
+            pass  # NOTE: committer is no longer taking tasks
         self.committer.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
-- 
2.43.0


From b6a03f0bec88aa686337189b03dedd23d34b7ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 12/51] fix: return all finished tasks before the client leaves

---
 src/hypershell/client.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index f3406ae..21b86a8 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -309,6 +309,7 @@ class ClientCollector(StateMachine):
     bundlesize: int
     bundlewait: int
     previous_send: datetime
+    final: bool = False  # no more tasks are coming
 
     state = CollectorState.START
     states = CollectorState
@@ -349,7 +350,8 @@ class ClientCollector(StateMachine):
                 self.tasks.append(task)
                 return CollectorState.CHECK_BUNDLE
             else:
-                return CollectorState.FINAL
+                self.final = True
+                return CollectorState.PACK_BUNDLE
         except QueueEmpty:
             return CollectorState.CHECK_BUNDLE
 
@@ -382,13 +384,13 @@ class ClientCollector(StateMachine):
                 self.previous_send = datetime.now()
             else:
                 log.trace('Bundle empty')
-            return CollectorState.GET_LOCAL
+            return CollectorState.FINAL if self.final else CollectorState.GET_LOCAL
         except QueueFull:
             return CollectorState.PUT_REMOTE
 
-    def finalize(self: ClientCollector) -> CollectorState:
-        """Push out any remaining tasks and halt."""
-        self.put_remote()
+    @staticmethod
+    def finalize() -> CollectorState:
+        """Stop collector."""
         log.debug('Done (collector)')
         return CollectorState.HALT
 
-- 
2.43.0


From ade80b080a62fdeec4a56c3352eb00592ea02499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 13/51] fix: do not enforce the walltime limit early

---
 src/hypershell/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 21b86a8..47947a7 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -581,9 +581,9 @@ class TaskExecutor(StateMachine):
                 self.redirect_errors.close()
             return TaskState.PUT_LOCAL
         except TimeoutExpired:
-            # Only display time elapsed to the nearest second
-            self.elapsed = timedelta(seconds=round((datetime.now().astimezone() -
-                                                    self.task.start_time).total_seconds()))
+            # Only display time elapsed in whole seconds (do not round up, the limit would be enforced early)
+            self.elapsed = timedelta(seconds=int((datetime.now().astimezone() -
+                                                  self.task.start_time).total_seconds()))
             log.trace(f'Waiting on task ({self.task.id}: {self.elapsed})')
             if self.stop_requested:
                 return TaskState.WAIT_SIGNAL
-- 
2.43.0


From 45aed7d2e773a669361ce2de45c65382e87e1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 14/51] fix: end the server on a signal even if no client is
 left or none has connected

---
 src/hypershell/server.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index ac3b818..1a495b1 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -210,6 +210,10 @@ class Scheduler(StateMachine):
                 log.debug(f'Scheduled task ({Task.unpack(data).id})')
             return SchedulerState.LOAD
         except QueueFull:
+            if check_signal() in (SIGUSR1, SIGUSR2):
+                log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
+                Task.revert_all([Task.unpack(data).id for data in self.bundle])  # NOTE: nobody may be left to take them
+                return SchedulerState.FINAL
             return SchedulerState.POST
 
     @staticmethod
@@ -568,11 +572,15 @@ class HeartMonitor(StateMachine):
 
     def switch_mode(self: HeartMonitor) -> HeartbeatState:
         """Decide to bail, signal, check, or get another heartbeat."""
+        now = datetime.now().astimezone()
         if self.startup_phase:
+            if not self.scheduler_done or check_signal() not in (SIGUSR1, SIGUSR2):
+                self.last_check = now
+            elif (now - self.last_check) > self.wait_check:
+                self.startup_phase = False  # NOTE: interrupted before the first client
             return HeartbeatState.NEXT
         if not self.beats and self.scheduler_done and self.queue.heartbeat.empty():
             return HeartbeatState.FINAL
-        now = datetime.now().astimezone()
         if (now - self.last_check) > self.wait_check:
             self.last_check = now
             return HeartbeatState.CHECK
-- 
2.43.0


From f6a69d9a134d14dc2cf34668f6aec0dd630bc04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 15/51] fix: report a task that cannot be started as failed

Errors while preparing or starting a task (unwritable capture files, null bytes, text that is too long,
no process or memory left) ended the executor thread: the task was lost and the client hung.
---
 src/hypershell/client.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 47947a7..0caf177 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -465,6 +465,7 @@ class TaskExecutor(StateMachine):
     redirect_output: IO
     redirect_errors: IO
     capture: bool
+    capture_files: List[IO]
 
     elapsed: timedelta
     timeout: Optional[int]
@@ -498,6 +499,7 @@ class TaskExecutor(StateMachine):
         self.redirect_output = redirect_output or sys.stdout
         self.redirect_errors = redirect_errors or sys.stderr
         self.capture = capture
+        self.capture_files = []
         self.timeout = timeout
         self.signalwait = signalwait
 
@@ -551,24 +553,38 @@ class TaskExecutor(StateMachine):
         # NOTE: enforce tz aware submit_time (in case of sqlite backend)
         self.task.start_time = datetime.now().astimezone()
         self.task.waited = int((self.task.start_time - self.task.submit_time.astimezone()).total_seconds())
-        env = task_env(self.task)
-        if self.capture:
-            self.task.outpath = env['TASK_OUTPATH']
-            self.task.errpath = env['TASK_ERRPATH']
-            self.redirect_output = open(self.task.outpath, mode='w')
-            self.redirect_errors = open(self.task.errpath, mode='w')
         self.stop_requested = None
         self.attempted_sigint = False
         self.attempted_sigterm = False
         self.attempted_sigkill = False
-        self.process = Popen(self.task.command, shell=True,
-                             stdout=self.redirect_output, stderr=self.redirect_errors,
-                             cwd=config.task.cwd, env=env)
+        try:
+            env = task_env(self.task)
+            output, errors = self.redirect_output, self.redirect_errors
+            if self.capture:
+                self.task.outpath = env['TASK_OUTPATH']
+                self.task.errpath = env['TASK_ERRPATH']
+                for path in (self.task.outpath, self.task.errpath):
+                    self.capture_files.append(open(path, mode='w'))
+                output, errors = self.capture_files
+            self.process = Popen(self.task.command, shell=True,
+                                 stdout=output, stderr=errors,
+                                 cwd=config.task.cwd, env=env)
+        except Exception as error:
+            log.error(f'Failed to start task ({self.task.id}) - {error.__class__.__name__}: {error}')
+            self.task.completion_time = datetime.now().astimezone()
+            self.task.exit_status = -1
+            self.close_capture_files()
+            return TaskState.PUT_LOCAL
         log.info(f'Running task ({self.task.id})')
         log.debug(f'Running task ({self.task.id}: {self.task.command})')
         log.trace(f'Running task ({self.task.id}: pid={self.process.pid}, argv={self.task.command})')
         return TaskState.WAIT_TASK
 
+    def close_capture_files(self: TaskExecutor) -> None:
+        """Close files opened for the output and errors of the current task (if any)."""
+        while self.capture_files:
+            self.capture_files.pop().close()
+
     def wait_task(self: TaskExecutor) -> TaskState:
         """Wait for current task to complete."""
         try:
@@ -576,9 +592,7 @@ class TaskExecutor(StateMachine):
             self.task.completion_time = datetime.now().astimezone()
             self.task.duration = int((self.task.completion_time - self.task.start_time).total_seconds())
             log.debug(f'Completed task ({self.task.id})')
-            if self.capture:
-                self.redirect_output.close()
-                self.redirect_errors.close()
+            self.close_capture_files()
             return TaskState.PUT_LOCAL
         except TimeoutExpired:
             # Only display time elapsed in whole seconds (do not round up, the limit would be enforced early)
-- 
2.43.0


From dad2b48008a34236822b6c9daf9b11fa70b9c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 16/51] fix: leave the redirected output open when an executor
 ends

The files are shared by all executors of a client and belong to its caller: closing them when the first
executor had finished made every task started later by another executor fail.
---
 src/hypershell/client.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 0caf177..91d157e 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -670,10 +670,7 @@ class TaskExecutor(StateMachine):
     def finalize(self: TaskExecutor) -> TaskState:
         """Push out any remaining tasks and halt."""
         log.debug(f'Done (executor-{self.id})')
-        if self.redirect_output is not sys.stdout:
-            self.redirect_output.close()
-        if self.redirect_errors is not sys.stderr:
-            self.redirect_errors.close()
+        self.close_capture_files()
         return TaskState.HALT
 
 
-- 
2.43.0


From fd66135bdfa9cbedaa6bc33c3a62629732d189c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 17/51] fix: do not turn text that looks like a date into a
 timestamp on the wire

The argument text (and any other text field) of a task was converted to a datetime when it happened to be
a valid ISO date such as '20240101', and the executor failed on it.
---
 src/hypershell/data/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 8617e7f..f988e9f 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -126,7 +126,9 @@ class Entity(DeclarativeBase):
     @classmethod
     def from_json(cls: Type[Entity], data: Dict[str, JSONValue]) -> Entity:
         """Build from JSON `text` string."""
-        return cls.from_dict({key: from_json_type(value) for key, value in data.items()})
+        # NOTE: only convert timestamps, other text may happen to look like one (e.g., '20240101')
+        return cls.from_dict({key: from_json_type(value) if cls.columns.get(key) is datetime else value
+                              for key, value in data.items()})
 
     @classmethod
     def unpack(cls: Type[Entity], data: bytes) -> Entity:
-- 
2.43.0


From af753d900324bbe8f578cc5a78dbf5aa786d3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 18/51] fix: export variables to tasks with the value given

HYPERSHELL_EXPORT_VERSION=1.10 was parsed as a number and exported as VERSION=1.1 (likewise '007', 'TRUE', '').
---
 src/hypershell/core/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 8e5f855..2e20153 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -354,4 +354,9 @@ def __collapse_lists(ns: Namespace) -> Namespace:
 @functools.cache
 def load_task_env() -> Environ:
     """Export environment defined in `config.export`."""
-    return __collapse_lists(config.export).to_env().flatten()
+    env = __collapse_lists(config.export).to_env().flatten()
+    # Values given by environment variables are exported verbatim (e.g., '1.10' is not '1.1')
+    prefix = 'HYPERSHELL_EXPORT_'
+    env.update({name[len(prefix):].upper(): value for name, value in os.environ.items()
+                if name.startswith(prefix)})
+    return env
-- 
2.43.0


From 26721c6b1ed672dc61e93554b7d8fa4670360f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 19/51] fix: do not count the start delay of a client towards
 its timeout

---
 src/hypershell/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 91d157e..08bf11b 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -190,6 +190,7 @@ class ClientScheduler(StateMachine):
         """Jump to GET_REMOTE state."""
         timeout_label = self.timeout or 'no'
         log.debug(f'Started (scheduler: {timeout_label} timeout)')
+        self.previous_received = datetime.now()  # NOTE: do not count the start delay
         return SchedulerState.GET_REMOTE
 
     def get_remote(self: ClientScheduler) -> SchedulerState:
-- 
2.43.0


From aeb3a42503d661cf7b26b4969771be65ea54b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 20/51] fix: do not register clients in a database that is not
 configured

The heart monitor was given the option as requested instead of as resolved, so the first heartbeat stopped a
server whose database had been disabled automatically.
---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 1a495b1..1a898b8 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -777,7 +777,7 @@ class ServerThread(Thread):
             self.confirm = ConfirmThread(queue=self.queue, in_memory=self.in_memory)
         self.receiver = ReceiverThread(queue=self.queue, in_memory=self.in_memory, redirect_failures=redirect_failures)
         self.heartmonitor = HeartMonitorThread(queue=self.queue, evict_after=evict_after,
-                                               in_memory=in_memory, no_confirm=no_confirm)
+                                               in_memory=self.in_memory, no_confirm=no_confirm)
         super().__init__(name='hypershell-server')
 
     def run_with_exceptions(self: ServerThread) -> None:
-- 
2.43.0


From 519ae4d4f6b7a7d66aaa7e277c3ebe29976ce01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 21/51] fix: do not drop the last tasks if the queue is full
 when the input ends (no database)

---
 src/hypershell/submit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index 7653de1..d48c49d 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -485,7 +485,8 @@ class QueueCommitter(StateMachine):
     def finalize(self) -> QueueCommitterState:
         """Force final commit of tasks and halt."""
         self.pack_bundle()
-        self.commit()
+        if self.commit() is QueueCommitterState.COMMIT:
+            return QueueCommitterState.FINAL  # NOTE: the queue was full, try again
         log.debug('Done (committer: no database)')
         return QueueCommitterState.HALT
 
-- 
2.43.0


From 33eb2e275661401fa88e549b3ec23d90d0e352c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 22/51] fix: do not close standard output when failed tasks are
 printed there

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 1a898b8..107b6fb 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1256,5 +1256,5 @@ class ServerApp(Application):
         """Clean up IO if necessary."""
         if self.input_stream is not None and self.input_stream is not sys.stdin:
             self.input_stream.close()
-        if self.failure_stream is not None and self.failure_path is not sys.stdout:
+        if self.failure_stream is not None and self.failure_stream is not sys.stdout:
             self.failure_stream.close()
-- 
2.43.0


From c45746cc76feeb45862214185c9e0eb567449758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 23/51] fix: templates accept negative slices and match whole
 expressions

The documented {[-1]} and {[-2:]} were rejected, and only the beginning of a pattern was
matched: {= x == 2 =} expanded x alone and {[0]x} dropped the trailing text.
---
 src/hypershell/core/template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index 4a3ed21..cf17fa6 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -97,7 +97,7 @@ class Template:
         """Expand complex (nested) patterns in template against `args`."""
         key_ = '{' + key + '}'
         for pattern, routine in self.complex_patterns.items():
-            if inner_match := re.match(pattern, key):
+            if inner_match := re.fullmatch(pattern, key):
                 try:
                     inner_key, = inner_match.groups()
                     return routine(args, inner_key)
@@ -171,7 +171,7 @@ class Template:
 
     def expand_slice(self: Template, args: str, key: str) -> str:
         """Expand slice `key` ([start][:stop][:step]) against args (on white space)."""
-        if re.match(r'(\d+)?:?(\d+)?:?(\d+)?$', key):
+        if re.fullmatch(r'(-?\d+)?(:(-?\d+)?){0,2}', key):
             result = eval(f'chunks[{key}]', {'chunks': args.split()})
             return ' '.join(result if isinstance(result, list) else [result, ])
         else:
-- 
2.43.0


From 32d10a59e004784f76da780e58e82299eb450977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 24/51] fix: task search conditions parse >= and <= and reject
 unknown fields

The documented 'duration >= 600' was read as '>' with the value '= 600' and never matched,
a condition on a name that is not a field was accepted or crashed, and --failed etc. were
added to the shared default of --where, filtering every later search in the same process.
---
 src/hypershell/task.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index a8c738d..3109813 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -458,18 +458,16 @@ class SearchableMixin:
 
     def __build_filters(self: SearchableMixin) -> List[WhereClause]:
         """Create list of field selectors from command-line arguments."""
+        clauses = list(self.where_clauses or [])  # NOTE: the original may be a shared default
         if self.show_failed:
-            self.where_clauses.append('exit_status != 0')
+            clauses.append('exit_status != 0')
         if self.show_succeeded:
-            self.where_clauses.append('exit_status == 0')
+            clauses.append('exit_status == 0')
         if self.show_completed:
-            self.where_clauses.append('exit_status != null')
+            clauses.append('exit_status != null')
         if self.show_remaining:
-            self.where_clauses.append('exit_status == null')
-        if not self.where_clauses:
-            return []
-        else:
-            return [WhereClause.from_cmdline(arg) for arg in self.where_clauses]
+            clauses.append('exit_status == null')
+        return [WhereClause.from_cmdline(arg) for arg in clauses]
 
     @functools.cached_property
     def fields(self: SearchableMixin) -> List[Column]:
@@ -1057,7 +1055,7 @@ class WhereClause:
     value: Any
     operand: str
 
-    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>|>=|<|<=|~)\s*(.*)$')
+    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>=|>|<=|<|~)\s*(.*)$')
     op_call = {
         '==': lambda lhs, rhs: lhs == rhs,
         '!=': lambda lhs, rhs: lhs != rhs,
@@ -1085,6 +1083,8 @@ class WhereClause:
         match = cls.pattern.match(argument)
         if match:
             field, operand, value = match.groups()
+            if field not in Task.columns:
+                raise ArgumentError(f'Invalid field name "{field}"')
             if Task.columns.get(field) is str:
                 # We want to coerce the value (e.g., as an int or None)
                 # But also allow for, e.g., args==1 which expects type str.
-- 
2.43.0


From 52a8bb91950f967473072a7e4afe912a96bfc558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 25/51] fix: search by tag applies every tag with its exact
 value and type

Only the last of several bare tags was applied (they shared one bind parameter), key:null
matched every task without the key, and 1/0 were not told apart from true/false.
---
 src/hypershell/task.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 3109813..2fb64f3 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -422,23 +422,22 @@ class SearchableMixin:
 
     def __build_where_clause_for_tags(self: SearchableMixin, query: Query) -> Query:
         """Add JSON-based tag where-clauses to query if necessary."""
-        tags_name_only = []
-        tags_with_value = Tag.parse_cmdline_list(self.taglist)
-        for name in list(tags_with_value.keys()):
-            if isinstance(tags_with_value[name], str) and not tags_with_value[name]:
-                tags_name_only.append(name)
-                tags_with_value.pop(name)
-        for name in tags_name_only:
+        for tag in map(Tag.from_cmdline, self.taglist or []):
+            name_only = isinstance(tag.value, str) and not tag.value
             if config.database.provider == 'sqlite':
-                # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
-                # and cannot find a way to exclude `json_quote`, so we do it ourselves
-                query = query.filter(text('json_extract(task.tag, :key) is not null')).params(key=f'$."{name}"')
+                # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?))` which cannot tell
+                # apart missing from null, nor 0/1 from true/false, so we do it ourselves
+                path, value = f'$."{tag.name}"', json.dumps(tag.value)
+                if name_only:
+                    query = query.filter(func.json_type(Task.tag, path).isnot(None))
+                else:
+                    query = query.filter(func.json_type(Task.tag, path) == func.json_type(value))
+                    query = query.filter(func.json_extract(Task.tag, path)
+                                         .is_not_distinct_from(func.json_extract(value, '$')))
+            elif name_only:
+                query = query.filter(Task.tag[tag.name].isnot(None))
             else:
-                query = query.filter(Task.tag[name].isnot(None))
-        for name, value in tags_with_value.items():
-            if config.database.provider == 'sqlite' and value in (True, False):
-                value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
-            query = query.filter(Task.tag[name] == type_coerce(value, JSON))
+                query = query.filter(Task.tag[tag.name] == type_coerce(tag.value, JSON))
         return query
 
     def __build_where_clause(self: SearchableMixin, query: Query) -> Query:
-- 
2.43.0


From 5839c04f797b78c5b9a1dfc801fa62bdfb7358d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 26/51] fix: show task fields as they are stored

Quotes and non-ASCII characters of task lines were shown as JSON escapes (with a final quote cut
off), text in brackets vanished from tables, a waited or duration of zero was shown as null, and
tags with value 0, false or null were shown as bare.
---
 src/hypershell/task.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 2fb64f3..08ee697 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -26,6 +26,7 @@ import yaml
 from rich.console import Console
 from rich.syntax import Syntax
 from rich.table import Table
+from rich.text import Text
 from cmdkit.app import Application, ApplicationGroup, exit_status
 from cmdkit.cli import Interface, ArgumentError
 from sqlalchemy import Column, type_coerce, JSON, text, func, distinct
@@ -179,9 +180,9 @@ class TaskInfoApp(Application):
     def print_field(self: TaskInfoApp) -> None:
         """Print single field."""
         if self.extract_field != 'tag':
-            print(json.dumps(self.task.to_json().get(self.extract_field)).strip('"'))
+            print(format_value(self.task.to_json().get(self.extract_field)))
         elif self.output_format == 'normal':
-            print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
+            print(', '.join(format_tag(k, v) for k, v in self.task.tag.items()))
         else:
             formatter = self.format_method[self.output_format]
             output = formatter(self.task.tag)
@@ -637,7 +638,7 @@ class TaskSearchApp(Application, SearchableMixin):
         for name in self.field_names:
             table.add_column(name)
         for record in results:
-            table.add_row(*[json.dumps(to_json_type(value)).strip('"') for value in record])
+            table.add_row(*[Text(format_value(value)) for value in record])
         Console().print(table)
 
     @staticmethod
@@ -650,8 +651,7 @@ class TaskSearchApp(Application, SearchableMixin):
     def print_plain(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print plain text output with given field names, one task per line."""
         for record in results:
-            data = [json.dumps(to_json_type(value)).strip('"') for value in record]
-            print(self.output_delimiter.join(map(str, data)))
+            print(self.output_delimiter.join(map(format_value, record)))
 
     def print_json(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print in output in JSON format."""
@@ -669,9 +669,7 @@ class TaskSearchApp(Application, SearchableMixin):
         writer = csv.writer(sys.stdout, delimiter=self.output_delimiter)
         writer.writerow(self.field_names)
         for record in results:
-            data = [to_json_type(value) for value in record]
-            data = [value if isinstance(value, str) else json.dumps(value) for value in data]
-            writer.writerow(data)
+            writer.writerow(map(format_value, record))
 
     def check_output_format(self: TaskSearchApp) -> None:
         """Check given output format is valid."""
@@ -1125,9 +1123,9 @@ class Tag:
 
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
-    task_data = {k: json.dumps(to_json_type(v)).strip('"') for k, v in task.to_dict().items()}
-    task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
-    task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
+    task_data = {k: format_value(v) for k, v in task.to_dict().items()}
+    task_data['waited'] = 'null' if task.waited is None else timedelta(seconds=int(task_data['waited']))
+    task_data['duration'] = 'null' if task.duration is None else timedelta(seconds=int(task_data['duration']))
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
     print(f'          id: {task_data["id"]}')
     print(f'        args: {task_data["args"]}')
@@ -1149,6 +1147,12 @@ def print_normal(task: Task) -> None:
     print(f'        tags: {task_data["tag"]}')
 
 
+def format_value(value: Any) -> str:
+    """Format text as it is and anything else as JSON."""
+    value = to_json_type(value)
+    return value if isinstance(value, str) else json.dumps(value)
+
+
 def format_tag(key: str, value: JSONValue) -> str:
     """Format as `key` or `key:value` if not empty string."""
     if isinstance(value, str) and not value:
-- 
2.43.0


From f38b842c8756d63bdc5292217956ac417259b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 27/51] fix: task update applies every change to exactly the
 tasks that matched

Changes were applied one after the other, each searching again, so that e.g. tags were not set if
a field of the condition was changed by the same command; --delete with --limit failed; tags with
a dot in the key were set on a nested path or not at all, and true/false were stored as 1/0.
---
 src/hypershell/task.py | 98 +++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 54 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 08ee697..b531ee8 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -856,7 +856,13 @@ class TaskUpdateApp(Application, SearchableMixin):
                 return
 
         if self.delete_mode:
-            query.delete()
+            if self.limit is not None:
+                # We cannot apply a DELETE query with a LIMIT field
+                ids = iter([task.id for task in query])
+                while batch := tuple(itertools.islice(ids, 100)):
+                    Task.query().filter(Task.id.in_(batch)).delete(synchronize_session=False)
+            else:
+                query.delete(synchronize_session=False)
             Session.commit()
             log.info(f'Deleted {count} tasks')
             return
@@ -890,62 +896,38 @@ class TaskUpdateApp(Application, SearchableMixin):
             # We cannot apply an UPDATE query with a LIMIT field
             # The alternative is to pull the data and batch the update
             # While terribly inefficient at least it has a LIMIT
-            if field_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, **field_updates} for task in batch])
-            if tag_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, 'tag': {**task.tag, **tag_updates}} for task in batch])
-            if self.remove_tag:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([
-                        {'id': task.id, 'tag': self.drop_items(task.tag, *self.remove_tag)}
-                        for task in batch
-                    ])
+            # All changes are made at once because they can affect what matches the query
+            changes = [self.build_changes(task, field_updates, tag_updates) for task in query]
+            changes_it = iter(changes)
+            while batch := list(itertools.islice(changes_it, 100)):
+                Task.update_all(batch)
             log.info(f'Updated {count} tasks')
             return
 
-        if field_updates:
-            query.update(field_updates)
-
-        if tag_updates:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_set(task.tag'
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    tag_changes[f'k{i}'] = f'$.{k}'
-                    tag_changes[f'v{i}'] = v
-                    change_expr += f', :k{i}, :v{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack inserts with Postgres
-                # Instead we do them with individual update queries
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    change_expr = 'jsonb_set(task.tag, :key, :value)'
-                    params = {'key': '{' + k + '}', 'value': json.dumps(to_json_type(v))}
-                    query.update({Task.tag: text(change_expr).params(**params)})
-
-        if self.remove_tag:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_remove(task.tag'
-                for i, name in enumerate(self.remove_tag):
-                    tag_changes[f'k{i}'] = f'$.{name}'
-                    change_expr += f', :k{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack subtractions with Postgres
-                # Instead we do them with individual update queries
-                for name in self.remove_tag:
-                    query.update({Task.tag: text('task.tag - :name').params(name=name)})
+        if config.database.provider == 'sqlite':
+            # A single statement because changes can affect what matches the query
+            values = {getattr(Task, name): value for name, value in field_updates.items()}
+            tag_expr = Task.tag
+            for key, value in tag_updates.items():
+                tag_expr = func.json_set(tag_expr, f'$."{key}"', func.json(json.dumps(value)))
+            for key in self.remove_tag or []:
+                tag_expr = func.json_remove(tag_expr, f'$."{key}"')
+            if tag_expr is not Task.tag:
+                values[Task.tag] = tag_expr
+            if values:
+                query.update(values, synchronize_session=False)
+        else:
+            # We cannot stack inserts or subtractions with Postgres
+            # Instead we do them with individual update queries on the original matches
+            query = Task.query().filter(Task.id.in_([task.id for task in query]))
+            if field_updates:
+                query.update(field_updates, synchronize_session=False)
+            for key, value in tag_updates.items():
+                change_expr = 'jsonb_set(task.tag, :key, :value)'
+                params = {'key': '{' + key + '}', 'value': json.dumps(to_json_type(value))}
+                query.update({Task.tag: text(change_expr).params(**params)}, synchronize_session=False)
+            for name in self.remove_tag or []:
+                query.update({Task.tag: text('task.tag - :name').params(name=name)}, synchronize_session=False)
 
         Session.commit()
         log.info(f'Updated {count} tasks')
@@ -987,6 +969,14 @@ class TaskUpdateApp(Application, SearchableMixin):
 
         return field_updates, tag_updates
 
+    def build_changes(self: TaskUpdateApp, task: Task,
+                      field_updates: Dict[str, Any], tag_updates: Dict[str, Any]) -> Dict[str, Any]:
+        """Combine all changes to the given `task`."""
+        changes = {'id': task.id, **field_updates}
+        if tag_updates or self.remove_tag:
+            changes['tag'] = self.drop_items({**task.tag, **tag_updates}, *(self.remove_tag or []))
+        return changes
+
     @staticmethod
     def drop_items(d: dict, *keys: str) -> dict:
         """Drop items by key if they exist."""
-- 
2.43.0


From 4e83c3f714c7f2b755ef2f1a00c090f6f9751ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 28/51] fix: task update refuses values of the wrong type

Text was stored in number fields and in the tags (e.g., attempt=abc, tag=abc), after which tasks
could not be scheduled or read anymore.
---
 src/hypershell/task.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index b531ee8..4310f5e 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -814,16 +814,14 @@ class TaskUpdateApp(Application, SearchableMixin):
         uuid, field, value = self.update_args
         if field not in Task.columns:
             raise ArgumentError(f'Invalid field name "{field}"')
+        if field == 'id':
+            raise ArgumentError(f'Cannot alter task "id" (given: {value})')
         try:
             if field == 'tag':
                 Task.update(uuid, tag={**Task.from_id(uuid).tag,
                                        **Tag.parse_cmdline_list([value, ])})
             else:
-                if Task.columns.get(field) is str:
-                    value = None if value.lower() in {'none', 'null'} else value
-                else:
-                    value = smart_coerce(value)
-                Task.update(uuid, **{field: value, })
+                Task.update(uuid, **{field: self.coerce_field(field, value), })
         except StaleDataError as err:
             raise Task.NotFound(str(err)) from err
 
@@ -946,13 +944,7 @@ class TaskUpdateApp(Application, SearchableMixin):
                     raise ArgumentError(f'Cannot alter task "id" (given: {field}={value})')
                 if field not in Task.columns:
                     raise ArgumentError(f'Unrecognized task field "{field}"')
-                if Task.columns.get(field) is str:
-                    # We want to coerce the value (e.g., as an int or None)
-                    # But also allow for, e.g., args==1 which expects type str.
-                    value = None if value.lower() in {'none', 'null'} else value
-                else:
-                    value = smart_coerce(value)
-                field_updates[field] = value
+                field_updates[field] = self.coerce_field(field, value)
             elif ':' in arg:
                 key, value = arg.split(':', 1)
                 tag_updates[key] = smart_coerce(value)
@@ -969,6 +961,19 @@ class TaskUpdateApp(Application, SearchableMixin):
 
         return field_updates, tag_updates
 
+    @staticmethod
+    def coerce_field(field: str, value: str) -> JSONValue:
+        """Coerce `value` and check that it is valid for the given `field`."""
+        field_type = Task.columns.get(field)
+        if field_type is str:
+            # We want to coerce the value (e.g., as an int or None)
+            # But also allow for, e.g., args==1 which expects type str.
+            return None if value.lower() in {'none', 'null'} else value
+        typed_value = smart_coerce(value)
+        if typed_value is not None and type(typed_value) is not field_type:
+            raise ArgumentError(f'Invalid value for task field "{field}" ({value})')
+        return typed_value
+
     def build_changes(self: TaskUpdateApp, task: Task,
                       field_updates: Dict[str, Any], tag_updates: Dict[str, Any]) -> Dict[str, Any]:
         """Combine all changes to the given `task`."""
-- 
2.43.0


From 7d64cfe105b2539424788ea2c699c133a5a5376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 29/51] fix: validate every tag and parse tags the same way in
 task update

A bare tag ended the validation of those after it, and blanks around key and value were
kept by task update but not elsewhere.
---
 src/hypershell/data/model.py | 2 +-
 src/hypershell/task.py       | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index f988e9f..5ff505f 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -309,7 +309,7 @@ class Task(Entity):
                 raise TypeError(f'Invalid type for tag value, {type(value)})')
             if isinstance(value, str):
                 if not value.strip():
-                    return  # Empty value is a naked tag (no value).
+                    continue  # Empty value is a naked tag (no value).
                 if len(value) > 120:
                     raise ValueError(f'Tag size ({len(value)}) exceeds 120 characters ({key}: {value})')
                 if not re.match(r'^[A-Za-z0-9_.+-]+$', value):
diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 4310f5e..df5a9af 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -946,8 +946,7 @@ class TaskUpdateApp(Application, SearchableMixin):
                     raise ArgumentError(f'Unrecognized task field "{field}"')
                 field_updates[field] = self.coerce_field(field, value)
             elif ':' in arg:
-                key, value = arg.split(':', 1)
-                tag_updates[key] = smart_coerce(value)
+                tag_updates.update(Tag.from_cmdline(arg).to_dict())
             else:
                 raise ArgumentError(f'Argument not recognized ({arg}): missing "=" or ":"')
 
-- 
2.43.0


From 020e390ab224df1c1ca0b6619a858ec80bdc6e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 30/51] fix: task update refuses null for the tags

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index df5a9af..e0541af 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -969,7 +969,7 @@ class TaskUpdateApp(Application, SearchableMixin):
             # But also allow for, e.g., args==1 which expects type str.
             return None if value.lower() in {'none', 'null'} else value
         typed_value = smart_coerce(value)
-        if typed_value is not None and type(typed_value) is not field_type:
+        if type(typed_value) is not field_type and (typed_value is not None or field_type is dict):
             raise ArgumentError(f'Invalid value for task field "{field}" ({value})')
         return typed_value
 
-- 
2.43.0


From e4e83731f71be93797b0fd601600f1308edd9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 31/51] fix: task info shows captured output byte for byte,
 wherever it was captured

The captured output was read and written as text: carriage returns were altered and bytes that are not UTF-8 ended
the command with an error. The output of a task that ran on this host for another site was looked for in the wrong place.
---
 src/hypershell/task.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index e0541af..ba9aba9 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -208,10 +208,15 @@ class TaskInfoApp(Application):
         """Print file contents, fetch from client if necessary."""
         if task_path is None:
             raise RuntimeError(f'No {out_stream.name} for task ({self.uuid})')
-        if not os.path.exists(local_path) and self.task.client_host != HOSTNAME:
-            self.copy_remote_files()
-        with open(local_path, mode='r') as in_stream:
-            copyfileobj(in_stream, out_stream)
+        if not os.path.exists(local_path):
+            if self.task.client_host != HOSTNAME:
+                self.copy_remote_files()
+            else:
+                local_path = task_path
+        out_stream.flush()
+        with open(local_path, mode='rb') as in_stream:
+            copyfileobj(in_stream, out_stream.buffer)
+        out_stream.buffer.flush()
 
     @functools.cached_property
     def format_method(self: TaskInfoApp) -> Dict[str, Callable[[dict], str]]:
-- 
2.43.0


From 4a865b880e57ed85355fd65ad3948f1446678634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 32/51] fix: config set keeps the file intact whatever form its
 sections have

Updating a section assigned it back, which moved everything below a wrong heading when dotted keys are used and lost
comments when a section is in several parts. A value that cannot be encoded emptied the file before failing. A file
named without a directory could not be edited.
---
 src/hypershell/core/config.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 2e20153..5f741ea 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -20,6 +20,7 @@ import functools
 from datetime import datetime
 
 # external libs
+from tomlkit.container import OutOfOrderTableProxy
 from cmdkit.config import Namespace, Configuration, Environ, ConfigurationError
 from cmdkit.app import exit_status
 
@@ -297,7 +298,7 @@ DEFAULT_CONFIG_HEADERS = f"""\
 def update(scope: str, partial: dict) -> None:
     """Extend the current configuration and commit it to disk."""
     config_path = path[scope].config
-    os.makedirs(os.path.dirname(config_path), exist_ok=True)
+    os.makedirs(os.path.dirname(config_path) or os.curdir, exist_ok=True)
     if os.path.exists(config_path):
         timestamp = datetime.now().strftime('%Y%m%d-%H%M%S')
         config_backup_path = os.path.join(os.path.dirname(config_path), f'.config.{timestamp}.toml')
@@ -310,8 +311,10 @@ def update(scope: str, partial: dict) -> None:
     with open(config_path, mode='r') as stream:
         new_config = tomlkit.parse(stream.read())
     _inplace_update(new_config, partial)
+    content = tomlkit.dumps(new_config)
+    content.encode(stream.encoding)  # NOTE: fail before the file is truncated
     with open(config_path, mode='w') as stream:
-        tomlkit.dump(new_config, stream)
+        stream.write(content)
 
 
 # Re-implemented from `cmdkit.config.Namespace` (but works with `tomlkit`)
@@ -322,7 +325,11 @@ def _inplace_update(original: dict, partial: dict) -> dict:
     """
     for key, value in partial.items():
         if isinstance(value, dict) and isinstance(original.get(key), dict):
-            original[key] = _inplace_update(original.get(key, {}), value)
+            _inplace_update(original[key], value)  # NOTE: assigning it back corrupts dotted keys
+        elif isinstance(original, OutOfOrderTableProxy) and key not in original:
+            # Section in several parts: new members belong to the one with its own header
+            tables = [table for table in original._tables if not table.is_super_table()] or original._tables
+            tables[0][key] = value
         else:
             original[key] = value
     return original
-- 
2.43.0


From 60b06ada641e1b113b8d03d359705297aa4b8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 33/51] fix: config get shows text as it is, config which knows
 the preloaded settings

Text was shown with JSON escapes and without its own quotes. Asking for the origin of the logging format failed.
---
 src/hypershell/config.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 2300b93..e648dfc 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -84,7 +84,7 @@ class ConfigEditApp(Application):
             raise RuntimeError('EDITOR or VISUAL environment variable not defined')
 
         config_path = path[self.site_name].config
-        os.makedirs(os.path.dirname(config_path), exist_ok=True)
+        os.makedirs(os.path.dirname(config_path) or os.curdir, exist_ok=True)
 
         log.debug(f'Opening {config_path}')
         log.debug(f'Editor: {editor}')
@@ -218,15 +218,17 @@ class ConfigGetApp(Application):
 
     def print_output(self: ConfigGetApp, value: Any) -> None:
         """Format and print final `value`."""
-        value = self.format_output(value)
-        if sys.stdout.isatty() and not self.raw_mode:
+        # NOTE: JSON formatting puts quotations - we don't want these on raw output
+        is_formatted = sys.stdout.isatty() and not self.raw_mode
+        if is_formatted or not isinstance(value, str):
+            value = self.format_output(value)
+        if is_formatted:
             output = Syntax(value, 'toml', word_wrap=True,
                             theme = full_config.console.theme,
                             background_color = 'default')
             Console().print(output)
         else:
-            # NOTE: JSON formatting puts quotations - we don't want these on raw output
-            print(value.strip('"'), file=sys.stdout, flush=True)
+            print(value, file=sys.stdout, flush=True)
 
     def format_output(self: ConfigGetApp, value: Any) -> str:
         """Format `value` as appropriate text."""
@@ -382,7 +384,7 @@ class ConfigWhichApp(Application):
             value = '[...]'
         if '[' in default_value:
             default_value = '[...]'
-        if site in ('default', 'logging', ):
+        if site in ('default', 'preload', ):
             print(f'{value} ({site})')
         elif site == 'env':
             env_varname = 'HYPERSHELL_' + self.varpath.upper().replace('.', '_')
-- 
2.43.0


From d66ccd153458ba154dcf2d57d1211b177f108d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 34/51] fix: the dynamic autoscaling policy works with SQLite
 and with instant tasks

---
 src/hypershell/data/model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 5ff505f..70843e2 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -535,18 +535,18 @@ class Task(Entity):
     def effective_rate_by_client(cls: Type[Task]) -> Optional[Dict[str, float]]:
         """Effective completion rate in tasks per second by client."""
         if server_id := cls.latest_server():
-            return {id: 1 / dt.total_seconds() for id, dt in (
-                cls.query(
-                    cls.client_id,
-                    (func.max(cls.completion_time) - func.min(cls.start_time)) / func.count(cls.id)
-                )
+            records = (
+                cls.query(cls.client_id, func.min(cls.start_time), func.max(cls.completion_time), func.count(cls.id))
                 .join(Client, Task.client_id == Client.id)
                 .filter(cls.server_id == server_id)
                 .filter(cls.completion_time.isnot(None))
                 .filter(Client.disconnected_at == None)  # noqa: comparison to None
                 .group_by(cls.client_id)
                 .all()
-            )}
+            )
+            # NOTE: not every database can subtract timestamps
+            return {id: count / (last - first).total_seconds()
+                    for id, first, last, count in records if first is not None and last > first}
         else:
             return None
 
-- 
2.43.0


From 0dc5e2a048277585f49532c9b0084973bea4abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 35/51] fix: launch a client whenever none is left and tasks
 remain, whatever the pressure was

---
 src/hypershell/cluster/remote.py | 37 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 57dee7f..f7fb9e3 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -438,27 +438,26 @@ class AutoScaler(StateMachine):
         if launched_size < self.min_size:
             log.debug(f'Autoscale min-size reached ({launched_size} < {self.min_size})')
             return AutoScalerState.SCALE
-        if pressure is not None:
-            if pressure > 1:
-                log.debug(f'Autoscale pressure high ({pressure:.2f})')
-                if launched_size >= self.max_size:
-                    log.debug(f'Autoscale max-size reached ({launched_size} >= {self.max_size})')
-                    return AutoScalerState.WAIT
-                else:
-                    return AutoScalerState.SCALE
-            else:
-                log.debug(f'Autoscale pressure low ({pressure:.2f})')
-                return AutoScalerState.WAIT
-        else:
-            if launched_size == 0 and task_count == 0:
-                log.debug(f'Autoscale pause (no clients and no tasks)')
+        if launched_size == 0 and task_count == 0:
+            log.debug(f'Autoscale pause (no clients and no tasks)')
+            return AutoScalerState.WAIT
+        if launched_size == 0 and task_count > 0:
+            # NOTE: the pressure may still be that of clients which are gone
+            log.debug(f'Autoscale adding client ({task_count} tasks remaining)')
+            return AutoScalerState.SCALE
+        if pressure is None:
+            log.debug('Autoscale pause (waiting on clients to complete initial tasks)')
+            return AutoScalerState.WAIT
+        if pressure > 1:
+            log.debug(f'Autoscale pressure high ({pressure:.2f})')
+            if launched_size >= self.max_size:
+                log.debug(f'Autoscale max-size reached ({launched_size} >= {self.max_size})')
                 return AutoScalerState.WAIT
-            if launched_size == 0 and task_count > 0:
-                log.debug(f'Autoscale adding client ({task_count} tasks remaining)')
-                return AutoScalerState.SCALE
             else:
-                log.debug('Autoscale pause (waiting on clients to complete initial tasks)')
-                return AutoScalerState.WAIT
+                return AutoScalerState.SCALE
+        else:
+            log.debug(f'Autoscale pressure low ({pressure:.2f})')
+            return AutoScalerState.WAIT
 
     def scale(self: AutoScaler) -> AutoScalerState:
         """Launch new client."""
-- 
2.43.0


From 5826984417f1c8287a7ba6fcb9ab2175b26f91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 36/51] fix: an autoscaling cluster ends when it is signalled
 or its server has failed

---
 src/hypershell/cluster/remote.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index f7fb9e3..4cf8781 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -24,6 +24,7 @@ from hypershell.core.fsm import State, StateMachine
 from hypershell.core.config import default, load_task_env
 from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger, HOSTNAME
+from hypershell.core.signal import check_signal, SIGNAL_MAP, SIGUSR1, SIGUSR2
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.data.model import Task, Client
 from hypershell.client import DEFAULT_DELAY, DEFAULT_SIGNALWAIT
@@ -381,6 +382,9 @@ class AutoScaler(StateMachine):
 
     def init(self: AutoScaler) -> AutoScalerState:
         """Launch initial clients."""
+        if check_signal() in (SIGUSR1, SIGUSR2):
+            log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
+            return AutoScalerState.FINAL
         if len(self.clients) < self.init_size:
             return AutoScalerState.SCALE
         else:
@@ -389,6 +393,9 @@ class AutoScaler(StateMachine):
 
     def wait(self: AutoScaler) -> AutoScalerState:
         """Wait for specified period of time."""
+        if check_signal() in (SIGUSR1, SIGUSR2):
+            log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
+            return AutoScalerState.FINAL
         if self.phase is AutoScalerPhase.STEADY:
             waited = datetime.now() - self.last_check
             if waited > self.wait_check:
@@ -708,7 +715,9 @@ class AutoScalingCluster(Thread):
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
         self.autoscaler.start()
-        self.autoscaler.join()
+        while self.server.is_alive() and self.autoscaler.is_alive():
+            self.autoscaler.join(timeout=1)
+        self.autoscaler.stop(wait=True)
         self.server.join()
 
     def stop(self: AutoScalingCluster, wait: bool = False, timeout: int = None) -> None:
-- 
2.43.0


From 62a320a649ea0221533e8c2b1198b52d8a3db28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 37/51] fix: ssh clients get template and environment as given,
 node patterns may have several ranges, eviction and retries as configured

---
 src/hypershell/cluster/ssh.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 7bda57b..d984ac5 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -26,7 +26,7 @@ from hypershell.core.logging import Logger, HOSTNAME
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.client import DEFAULT_DELAY, DEFAULT_SIGNALWAIT
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT
 
 # public interface
 __all__ = ['run_ssh', 'SSHCluster', 'NodeList', 'DEFAULT_REMOTE_EXE']
@@ -161,6 +161,10 @@ class SSHCluster(Thread):
             Signal escalation waiting period in seconds on task timeout.
             See :const:`~hypershell.client.DEFAULT_SIGNALWAIT`.
 
+        evict_after (int, optional):
+            Eviction period in seconds for clients that fail to register a heartbeat.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
     Example:
         >>> from hypershell.cluster import SSHCluster
         >>> cluster = SSHCluster.new(
@@ -195,14 +199,15 @@ class SSHCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
                  capture: bool = False,
                  client_timeout: int = None,
                  task_timeout: int = None,
-                 task_signalwait: int = DEFAULT_SIGNALWAIT) -> None:
+                 task_signalwait: int = DEFAULT_SIGNALWAIT,
+                 evict_after: int = DEFAULT_EVICT) -> None:
         """Initialize server and client threads."""
         if nodelist is None:
             raise AttributeError('Expected nodelist')
@@ -218,9 +223,10 @@ class SSHCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         launcher = shlex.split(launcher)
-        launcher_env = shlex.split('' if not export_env else compile_env())
+        launcher_env = [] if not export_env else compile_env()
         if launcher_args is None:
             launcher_args = shlex.split(config.ssh.get('args', ''))
         client_args = []
@@ -235,17 +241,17 @@ class SSHCluster(Thread):
         self.client_argv = [
             [*launcher, *launcher_args, host, *launcher_env, remote_exe, 'client', '-H', HOSTNAME,
              '-p', str(bind[1]), '-N', str(num_tasks), '-b', str(bundlesize), '-w', str(bundlewait),
-             '-t', f'\'{template}\'', '-k', auth, '-d', str(delay_start),
+             '-t', shlex.quote(template), '-k', auth, '-d', str(delay_start),
              '-S', str(task_signalwait), *client_args]
             for host in nodelist
         ]
+        self.clients = []
         super().__init__(name='hypershell-cluster')
 
     def run_with_exceptions(self: SSHCluster) -> None:
         """Start child threads, wait."""
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
-        self.clients = []
         for argv in self.client_argv:
             log.debug(f'Launching client: {argv}')
             self.clients.append(Popen(argv, stdout=sys.stdout, stderr=sys.stderr))
@@ -322,9 +328,9 @@ class NodeList(list):
         else:
             if match := cls.range_pattern.search(pattern):
                 range_spec = match.group()
-                prefix, suffix = pattern.split(range_spec)
+                prefix, _, suffix = pattern.partition(range_spec)
                 segments = cls.expand_pattern(range_spec)
-                return cls([f'{prefix}{segment}{suffix}' for segment in segments])
+                return cls([f'{prefix}{segment}{rest}' for segment in segments for rest in cls.from_pattern(suffix)])
             else:
                 return cls([pattern, ])
 
@@ -346,6 +352,6 @@ class NodeList(list):
         return result
 
 
-def compile_env() -> str:
-    """Build environment variable argument expansion for remote client launch command."""
-    return ' '.join([f'{key}="{value}"' for key, value in Namespace.from_env('HYPERSHELL').items()])
+def compile_env() -> List[str]:
+    """Environment variable assignments for remote client launch command (evaluated by the remote shell)."""
+    return [f'{key}={shlex.quote(value)}' for key, value in Namespace.from_env('HYPERSHELL').items()]
-- 
2.43.0


From 88589d978ca1120bae8f16985d94a72667618bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 38/51] fix: clusters pass port, eager, retry, eviction and
 heartbeat settings on to their server and clients

---
 src/hypershell/cluster/__init__.py | 19 ++++++++++-------
 src/hypershell/cluster/local.py    | 34 ++++++++++++++++++++++++------
 src/hypershell/cluster/remote.py   | 29 ++++++++++++++++++-------
 3 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 6ea63b2..e7bc31a 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -26,7 +26,7 @@ from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.core.exceptions import get_shared_exception_mapping
 from hypershell.data import initdb, checkdb
 from hypershell.client import DEFAULT_NUM_TASKS, DEFAULT_DELAY, DEFAULT_SIGNALWAIT
-from hypershell.server import DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import DEFAULT_BIND, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
 from hypershell.submit import DEFAULT_BUNDLEWAIT
 from hypershell.cluster.ssh import run_ssh, SSHCluster, NodeList, DEFAULT_REMOTE_EXE
 from hypershell.cluster.local import run_local, LocalCluster
@@ -128,10 +128,10 @@ class ClusterApp(Application):
     delay_start: float = DEFAULT_DELAY
     interface.add_argument('-d', '--delay-start', type=float, default=delay_start)
 
-    eager_mode: bool = False
-    max_retries: int = DEFAULT_ATTEMPTS - 1
+    eager_mode: bool = config.server.eager
+    max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true', dest='eager_mode')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     in_memory: bool = False
     auto_initdb: bool = False
@@ -168,7 +168,7 @@ class ClusterApp(Application):
     export_env: bool = False
     interface.add_argument('-E', '--env', action='store_true', dest='export_env')
 
-    port: int = QueueConfig.port
+    port: int = config.server.port
     interface.add_argument('-p', '--port', default=port, type=int)
 
     capture: bool = False
@@ -212,7 +212,8 @@ class ClusterApp(Application):
         launcher = self.launchers.get(self.mode)
         launcher(source=self.source, num_tasks=self.num_tasks, template=self.template,
                  bundlesize=self.bundlesize, bundlewait=self.bundlewait, max_retries=self.max_retries,
-                 in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
+                 eager=self.eager_mode, evict_after=config.server.evict, in_memory=self.in_memory,
+                 no_confirm=self.no_confirm, forever_mode=self.forever_mode,
                  restart_mode=self.restart_mode, redirect_failures=self.failure_stream,
                  delay_start=self.delay_start, capture=self.capture,
                  client_timeout=self.client_timeout, task_timeout=self.task_timeout,
@@ -220,7 +221,8 @@ class ClusterApp(Application):
 
     def run_local(self: ClusterApp, **options) -> None:
         """Run local cluster."""
-        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream)
+        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream,
+                  bind=(DEFAULT_BIND, self.port), heartrate=config.client.heartrate)
 
     def run_launch(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher."""
@@ -238,7 +240,8 @@ class ClusterApp(Application):
             nodelist = NodeList.from_config(self.ssh_group)
         else:
             nodelist = NodeList.from_cmdline(self.ssh_mode if self.ssh_mode != '<default>' else None)
-        run_ssh(**options, launcher='ssh', launcher_args=shlex.split(self.ssh_args), nodelist=nodelist,
+        run_ssh(**options, launcher='ssh', nodelist=nodelist,
+                launcher_args=None if not self.ssh_args else shlex.split(self.ssh_args),
                 remote_exe=self.remote_exe, bind=('0.0.0.0', self.port), export_env=self.export_env)
 
     def run_autoscaling(self: ClusterApp, **options) -> None:
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 7ded8b5..1cba668 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Iterable, IO
+from typing import Iterable, IO, Tuple
 
 # standard libs
 import time
@@ -17,8 +17,9 @@ from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
-from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
+from hypershell.server import (ServerThread, DEFAULT_BIND, DEFAULT_PORT, DEFAULT_BUNDLESIZE,
+                               DEFAULT_ATTEMPTS, DEFAULT_EVICT)
+from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, DEFAULT_HEARTRATE, set_client_standalone
 
 # public interface
 __all__ = ['run_local', 'LocalCluster']
@@ -128,6 +129,18 @@ class LocalCluster(Thread):
             Signal escalation waiting period in seconds on task timeout.
             See :const:`~hypershell.client.DEFAULT_SIGNALWAIT`.
 
+        evict_after (int, optional):
+            Eviction period in seconds for clients that fail to register a heartbeat.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
+        heartrate (int, optional):
+            Period in seconds to wait between heartbeats.
+            See :const:`~hypershell.client.DEFAULT_HEARTRATE`.
+
+        bind (tuple, optional):
+            Bind address for server with port number.
+            See :const:`~hypershell.server.DEFAULT_BIND` and :const:`~hypershell.server.DEFAULT_PORT`.
+
     Example:
         >>> from hypershell.cluster import LocalCluster
         >>> cluster = LocalCluster.new(
@@ -155,7 +168,7 @@ class LocalCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  redirect_output: IO = None,
@@ -164,12 +177,16 @@ class LocalCluster(Thread):
                  capture: bool = False,
                  client_timeout: int = None,
                  task_timeout: int = None,
-                 task_signalwait: int = DEFAULT_SIGNALWAIT) -> None:
+                 task_signalwait: int = DEFAULT_SIGNALWAIT,
+                 evict_after: int = DEFAULT_EVICT,
+                 heartrate: int = DEFAULT_HEARTRATE,
+                 bind: Tuple[str, int] = (DEFAULT_BIND, DEFAULT_PORT)) -> None:
         """Initialize with server and single client thread."""
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    in_memory=in_memory,
                                    no_confirm=no_confirm,
@@ -177,11 +194,13 @@ class LocalCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         self.client = ClientThread(num_tasks=num_tasks,
                                    template=template,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    no_confirm=no_confirm,
                                    redirect_output=redirect_output,
@@ -190,7 +209,8 @@ class LocalCluster(Thread):
                                    capture=capture,
                                    client_timeout=client_timeout,
                                    task_timeout=task_timeout,
-                                   task_signalwait=task_signalwait)
+                                   task_signalwait=task_signalwait,
+                                   heartrate=heartrate)
         super().__init__(name='hypershell-cluster')
 
     def run_with_exceptions(self: LocalCluster) -> None:
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 4cf8781..57068e3 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -29,7 +29,7 @@ from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.data.model import Task, Client
 from hypershell.client import DEFAULT_DELAY, DEFAULT_SIGNALWAIT
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS, DEFAULT_EVICT
 
 # public interface
 __all__ = ['run_cluster', 'RemoteCluster', 'AutoScalingCluster',
@@ -171,6 +171,10 @@ class RemoteCluster(Thread):
             Signal escalation waiting period in seconds on task timeout.
             See :const:`~hypershell.client.DEFAULT_SIGNALWAIT`.
 
+        evict_after (int, optional):
+            Eviction period in seconds for clients that fail to register a heartbeat.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
     Example:
         >>> from hypershell.cluster import RemoteCluster
         >>> cluster = RemoteCluster.new(
@@ -185,7 +189,7 @@ class RemoteCluster(Thread):
     """
 
     server: ServerThread
-    clients: Popen
+    clients: Popen = None
     client_argv: List[str]
 
     def __init__(self: RemoteCluster,
@@ -202,14 +206,15 @@ class RemoteCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
                  capture: bool = False,
                  client_timeout: int = None,
                  task_timeout: int = None,
-                 task_signalwait: int = DEFAULT_SIGNALWAIT) -> None:
+                 task_signalwait: int = DEFAULT_SIGNALWAIT,
+                 evict_after: int = DEFAULT_EVICT) -> None:
         """Initialize server and client threads with external launcher."""
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source,
@@ -223,7 +228,8 @@ class RemoteCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
@@ -259,7 +265,8 @@ class RemoteCluster(Thread):
     def stop(self: RemoteCluster, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
         self.server.stop(wait=wait, timeout=timeout)
-        self.clients.terminate()
+        if self.clients is not None:
+            self.clients.terminate()
         super().stop(wait=wait, timeout=timeout)
 
 
@@ -613,6 +620,10 @@ class AutoScalingCluster(Thread):
             Signal escalation waiting period in seconds on task timeout.
             See :const:`~hypershell.client.DEFAULT_SIGNALWAIT`.
 
+        evict_after (int, optional):
+            Eviction period in seconds for clients that fail to register a heartbeat.
+            See :const:`~hypershell.server.DEFAULT_EVICT`.
+
         policy (str, optional):
             Autoscaling policy (either 'fixed' or 'dynamic').
             See :const:`~hypershell.cluster.remote.DEFAULT_AUTOSCALE_POLICY`
@@ -669,7 +680,7 @@ class AutoScalingCluster(Thread):
                  no_confirm: bool = False,  # noqa: ignored (passed by ClusterApp)
                  forever_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
                  restart_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
@@ -683,12 +694,14 @@ class AutoScalingCluster(Thread):
                  init_size: int = DEFAULT_AUTOSCALE_INIT_SIZE,
                  min_size: int = DEFAULT_AUTOSCALE_MIN_SIZE,
                  max_size: int = DEFAULT_AUTOSCALE_MAX_SIZE,
+                 evict_after: int = DEFAULT_EVICT,
                  ) -> None:
         """Initialize server and autoscaler."""
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source, auth=auth, bundlesize=bundlesize, bundlewait=bundlewait,
                                    max_retries=max_retries, eager=eager, address=bind, forever_mode=True,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=evict_after)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
-- 
2.43.0


From 7f5acf49853fa2f205343a328c221c73a0eace41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 39/51] fix: server and client honour --eager, --initdb,
 --no-db, --signalwait and their own settings

---
 src/hypershell/client.py |  7 ++++---
 src/hypershell/server.py | 11 ++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 08bf11b..1f20d96 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1177,10 +1177,10 @@ class ClientApp(Application):
     template: str = DEFAULT_TEMPLATE
     interface.add_argument('-t', '--template', default=template)
 
-    bundlesize: int = config.submit.bundlesize
+    bundlesize: int = config.client.bundlesize
     interface.add_argument('-b', '--bundlesize', type=int, default=bundlesize)
 
-    bundlewait: int = config.submit.bundlewait
+    bundlewait: int = config.client.bundlewait
     interface.add_argument('-w', '--bundlewait', type=int, default=bundlewait)
 
     delay_start: float = DEFAULT_DELAY
@@ -1192,7 +1192,8 @@ class ClientApp(Application):
     interface.add_argument('-W', '--task-timeout', type=int, default=task_timeout, dest='task_timeout')
 
     task_signalwait: int = config.task.signalwait
-    interface.add_argument('-S', '--task-signalwait', type=int, default=task_signalwait, dest='task_signalwait')
+    interface.add_argument('-S', '--signalwait', '--task-signalwait', type=int, default=task_signalwait,
+                           dest='task_signalwait')
 
     no_confirm: bool = False
     interface.add_argument('--no-confirm', action='store_true')
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 107b6fb..c48a2be 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -188,7 +188,7 @@ class Scheduler(StateMachine):
             self.startup_phase = False
             return SchedulerState.PACK
         else:
-            time.sleep(DEFAULT_QUERY_PAUSE)
+            time.sleep(config.server.wait)
             return SchedulerState.LOAD
 
     def pack_bundle(self: Scheduler) -> SchedulerState:
@@ -1150,7 +1150,7 @@ class ServerApp(Application):
     eager_mode: bool = config.server.eager
     max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     forever_mode: bool = False
     interface.add_argument('--forever', action='store_true', dest='forever_mode')
@@ -1224,6 +1224,10 @@ class ServerApp(Application):
             self.filepath = '-'  # NOTE: assume STDIN
         if self.restart_mode and self.forever_mode:
             raise ArgumentError('Using --forever with --restart is invalid')
+        if self.in_memory and self.forever_mode:
+            raise ArgumentError('Using --forever with --no-db is invalid')
+        if self.in_memory and self.restart_mode:
+            raise ArgumentError('Using --restart with --no-db is invalid')
 
     @cached_property
     def input_stream(self: ServerApp) -> Optional[IO]:
@@ -1246,7 +1250,8 @@ class ServerApp(Application):
     def __enter__(self: ServerApp) -> ServerApp:
         """Ensure context and database ready."""
         self.check_args()
-        ensuredb()
+        if not self.in_memory:
+            ensuredb(auto_init=self.auto_initdb)
         return self
 
     def __exit__(self: ServerApp,
-- 
2.43.0


From 6eca0a7230af832f3790a47d96d6f075c74a77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 40/51] fix: connect with exactly the configured user,
 password, database and parameters whatever characters they contain

---
 src/hypershell/data/__init__.py |  3 +-
 src/hypershell/data/core.py     | 65 ++++++++++-----------------------
 src/hypershell/submit.py        |  5 +--
 3 files changed, 23 insertions(+), 50 deletions(-)

diff --git a/src/hypershell/data/__init__.py b/src/hypershell/data/__init__.py
index 016d969..1d32f66 100644
--- a/src/hypershell/data/__init__.py
+++ b/src/hypershell/data/__init__.py
@@ -66,8 +66,7 @@ def ensuredb(auto_init: bool = False) -> None:
 
     If SQLite and `auto_init` we run :meth:`initdb`, else :meth:`checkdb`.
     """
-    db = config.database.get('file', None) or config.database.get('database', None)
-    if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
+    if in_memory:
         raise ConfigurationError('Missing database configuration')
     if config.database.provider == 'sqlite' or auto_init is True:
         initdb()
diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 55306ce..74fdc48 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -11,12 +11,11 @@ from typing import Any, Type
 # standard libs
 import sys
 import logging
-from urllib.parse import urlencode
 
 # external libs
 from cmdkit.app import exit_status
 from cmdkit.config import Namespace, ConfigurationError
-from sqlalchemy.engine import create_engine, Engine
+from sqlalchemy.engine import create_engine, Engine, URL
 from sqlalchemy.pool import StaticPool
 from sqlalchemy.orm import sessionmaker, scoped_session
 from sqlalchemy.exc import ArgumentError
@@ -99,48 +98,24 @@ class DatabaseURL(dict):
         if not self.database:
             raise AttributeError('Must provide \'database\' if not SQLite')
 
+    def build(self: DatabaseURL) -> URL:
+        """Construct URL without need for quoting of special characters."""
+        user = str(self.user) if self.user else None
+        host = str(self.host) if self.host else None
+        if host is None and (self.port or user):
+            host = 'localhost'
+        return URL.create(drivername=self.provider,
+                          username=user,
+                          password=None if not user else str(self.password),
+                          host=host,
+                          port=int(self.port) if self.port else None,
+                          database=str(self.database or self.file or '') or None,
+                          query={key: [str(v) for v in value] if isinstance(value, (list, tuple)) else str(value)
+                                 for key, value in self.parameters.items()})
+
     def encode(self: DatabaseURL) -> str:
         """Construct URL string with encoded parameters."""
-        return ''.join([
-            f'{self.provider}://',
-            self._format_user_and_password(),
-            self._format_host_and_port(),
-            self._format_database_or_file(),
-            self._format_parameters(),
-        ])
-
-    def _format_parameters(self: DatabaseURL) -> str:
-        if self.parameters:
-            return '?' + urlencode(self.parameters)
-        else:
-            return ''
-
-    def _format_database_or_file(self: DatabaseURL) -> str:
-        if self.database:
-            return f'/{self.database}'
-        elif self.file:
-            return f'/{self.file}'
-        else:
-            return ''
-
-    def _format_host_and_port(self: DatabaseURL) -> str:
-        if self.host and self.port:
-            return f'{self.host}:{self.port}'
-        elif self.host and not self.port:
-            return f'{self.host}'
-        elif self.port and not self.host:
-            return f'localhost:{self.port}'
-        else:
-            if self.user or self.password:
-                return 'localhost'
-            else:
-                return ''
-
-    def _format_user_and_password(self: DatabaseURL) -> str:
-        if self.user and self.password:
-            return f'{self.user}:{self.password}@'
-        else:
-            return ''
+        return self.build().render_as_string(hide_password=False)
 
     def __str__(self: DatabaseURL) -> str:
         return self.encode()
@@ -177,7 +152,7 @@ providers = {
 config = Namespace(config.database.copy())
 schema = config.pop('schema', None)
 engine_echo = config.pop('echo', False)
-connect_args = config.pop('connect_args', {})
+connect_args = {**config.pop('connect_args', {}), **config.pop('connection_args', {})}
 
 
 # additional parameters for engine creation
@@ -187,7 +162,7 @@ engine_config = {}
 # sqlite specific configuration
 in_memory = False
 if config.provider == 'sqlite':
-    in_memory = (config.get('file', None) or config.get('database', None)) in ('', ':memory:', None)
+    in_memory = all(getattr(config, field, None) in ('', ':memory:', None) for field in ('file', 'database'))
     if in_memory:
         engine_config['poolclass'] = StaticPool
     if 'check_same_thread' not in connect_args:
@@ -211,7 +186,7 @@ def get_engine() -> Engine:
         if engine_echo:
             logging.getLogger('sqlalchemy.engine').addHandler(handler)
             logging.getLogger('sqlalchemy.engine').setLevel(logging.INFO)
-        return create_engine(get_url().encode(), connect_args=connect_args, **engine_config)
+        return create_engine(get_url().build(), connect_args=connect_args, **engine_config)
     except ArgumentError as err:
         raise ConfigurationError(f'DatabaseURL: {err}') from err
 
diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index d48c49d..d30e3e4 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -65,7 +65,7 @@ from hypershell.core.template import Template, DEFAULT_TEMPLATE
 from hypershell.core.exceptions import get_shared_exception_mapping
 from hypershell.core.types import JSONValue
 from hypershell.data.model import Task
-from hypershell.data import initdb, checkdb
+from hypershell.data import initdb, checkdb, DATABASE_ENABLED
 from hypershell.task import Tag
 
 # public interface
@@ -830,8 +830,7 @@ class SubmitApp(Application):
     @staticmethod
     def check_config():
         """Halt if we are not connected to database."""
-        db = config.database.get('file', None) or config.database.get('database', None)
-        if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
+        if not DATABASE_ENABLED:
             raise ConfigurationError('Submitting tasks to in-memory database has no effect')
 
     def __enter__(self: SubmitApp) -> SubmitApp:
-- 
2.43.0


From 8d177f0c2740b69cf2f4b5e46f094d208d40101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 41/51] fix: refuse contradictory client options before opening
 (and truncating) the output files

---
 src/hypershell/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 1f20d96..b9bc9a5 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1222,7 +1222,6 @@ class ClientApp(Application):
     def run(self: ClientApp) -> None:
         """Run client."""
         try:
-            self.check_args()
             run_client(num_tasks=self.num_tasks,
                        bundlesize=self.bundlesize,
                        bundlewait=self.bundlewait,
@@ -1260,6 +1259,11 @@ class ClientApp(Application):
         """IO stream for task errors."""
         return sys.stderr if not self.errors_path else open(self.errors_path, mode='w')
 
+    def __enter__(self: ClientApp) -> ClientApp:
+        """Check arguments before any file is opened."""
+        self.check_args()
+        return self
+
     def __exit__(self: ClientApp,
                  exc_type: Optional[Type[Exception]],
                  exc_val: Optional[Exception],
-- 
2.43.0


From d5fe3d5247d07f1b0f88876c20944058948a0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 42/51] fix: a cluster with --no-db leaves the configured
 database alone

---
 src/hypershell/cluster/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index e7bc31a..19a51cc 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -360,9 +360,11 @@ class ClusterApp(Application):
     def __enter__(self: ClusterApp) -> ClusterApp:
         """Set up resources and attributes."""
         self.check_arguments()
+        if self.in_memory:
+            return self
         if config.database.provider == 'sqlite' or self.auto_initdb:
             initdb()  # Auto-initialize if local sqlite provider
-        elif not self.in_memory:
+        else:
             checkdb()
         return self
 
-- 
2.43.0


From 1617c8639262b11979fbc3bd45e377794b90eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 43/51] fix: refuse --forever, --restart and --autoscaling when
 no database is configured

---
 src/hypershell/cluster/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 19a51cc..1f9617d 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -17,6 +17,7 @@ from functools import cached_property
 # external libs
 from cmdkit.app import Application
 from cmdkit.cli import Interface, ArgumentError
+from cmdkit.config import ConfigurationError
 
 # internal libs
 from hypershell.core.config import config, blame
@@ -24,7 +25,7 @@ from hypershell.core.queue import QueueConfig
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.core.exceptions import get_shared_exception_mapping
-from hypershell.data import initdb, checkdb
+from hypershell.data import initdb, checkdb, DATABASE_ENABLED
 from hypershell.client import DEFAULT_NUM_TASKS, DEFAULT_DELAY, DEFAULT_SIGNALWAIT
 from hypershell.server import DEFAULT_BIND, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
 from hypershell.submit import DEFAULT_BUNDLEWAIT
@@ -362,6 +363,8 @@ class ClusterApp(Application):
         self.check_arguments()
         if self.in_memory:
             return self
+        if not DATABASE_ENABLED and (self.forever_mode or self.restart_mode or self.autoscaling_policy is not None):
+            raise ConfigurationError('Using --forever, --restart, or --autoscaling requires a database')
         if config.database.provider == 'sqlite' or self.auto_initdb:
             initdb()  # Auto-initialize if local sqlite provider
         else:
-- 
2.43.0


From 0b40196d8acb3e8a4948e9511e94ec386d3245d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 44/51] fix: dismiss clients whose dismissal was taken by an
 evicted one

A client that had been evicted although it was still there (suspended, or
heartbeats less often) took the shutdown sentinel meant for another one,
which was then never told to leave and kept the server alive for good.
---
 src/hypershell/server.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index c48a2be..33a32bd 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -42,7 +42,7 @@ Warning:
 
 # type annotations
 from __future__ import annotations
-from typing import List, Dict, Set, Tuple, Iterable, IO, Optional, Callable, Type, Final
+from typing import List, Dict, Tuple, Iterable, IO, Optional, Callable, Type, Final
 from types import TracebackType
 
 # standard libs
@@ -483,7 +483,6 @@ class HeartMonitor(StateMachine):
     no_confirm: bool
     queue: QueueServer
     beats: Dict[str, Heartbeat]
-    signaled: Set[str]
     last_check: datetime
     wait_check: timedelta
     evict_after: timedelta
@@ -502,7 +501,6 @@ class HeartMonitor(StateMachine):
         self.queue = queue
         self.last_check = datetime.now().astimezone()
         self.beats = {}
-        self.signaled = set()
         self.in_memory = in_memory
         self.no_confirm = no_confirm
         if evict_after >= 10:
@@ -584,7 +582,7 @@ class HeartMonitor(StateMachine):
         if (now - self.last_check) > self.wait_check:
             self.last_check = now
             return HeartbeatState.CHECK
-        elif self.should_signal and not self.signaled.issuperset(self.beats):
+        elif self.should_signal and self.queue.scheduled.empty():
             return HeartbeatState.SIGNAL
         else:
             return HeartbeatState.NEXT
@@ -606,16 +604,14 @@ class HeartMonitor(StateMachine):
         return HeartbeatState.SWITCH
 
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
-        """Send shutdown signal to all connected clients (including those that only just registered)."""
+        """Send shutdown signal to all connected clients (again if it was taken by others)."""
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
-        for uuid, hb in self.beats.items():
-            if uuid not in self.signaled:
-                try:
-                    self.queue.scheduled.put(None, timeout=2)
-                except QueueFull:
-                    break  # NOTE: keep up with heartbeats and evictions, nobody may be left to take it
-                self.signaled.add(uuid)
-                log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
+        for hb in self.beats.values():
+            try:
+                self.queue.scheduled.put(None, timeout=2)
+            except QueueFull:
+                break  # NOTE: keep up with heartbeats and evictions, nobody may be left to take it
+            log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
         return HeartbeatState.NEXT
 
     @staticmethod
-- 
2.43.0


From 556a3e89e64e7e3db5a0217777376e82dae6a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:15 +0000
Subject: [PATCH 45/51] fix: end server and client with an error when one of
 their threads fails

The server waited for ever when its receiver failed (failing database, broken
failure stream), or until the end of its input when the scheduler did; a
client whose server was gone hung with more tasks at hand than it could hold.
---
 src/hypershell/client.py      | 17 +++++++++++------
 src/hypershell/core/thread.py | 28 ++++++++++++++++++++++++++--
 src/hypershell/server.py      | 18 ++++++++++++------
 3 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index b9bc9a5..dc9066a 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -59,7 +59,7 @@ from hypershell.core.heartbeat import Heartbeat, ClientState
 from hypershell.core.platform import default_path
 from hypershell.core.config import default, config, load_task_env, SSH_GROUPS
 from hypershell.core.fsm import State, StateMachine
-from hypershell.core.thread import Thread
+from hypershell.core.thread import Thread, put_with
 from hypershell.core.signal import check_signal, SIGNAL_MAP, SIGUSR1, SIGUSR2, SIGINT
 from hypershell.core.queue import QueueClient, QueueConfig
 from hypershell.core.logging import HOSTNAME, INSTANCE, Logger
@@ -981,24 +981,29 @@ class ClientThread(Thread):
         for executor in self.executors:
             executor.start()
 
+    @property
+    def threads(self: ClientThread) -> List[Thread]:
+        """Child threads (the client cannot go on if any of them fails)."""
+        return [self.scheduler, self.collector, self.heartbeat, *self.executors]
+
     def wait_scheduler(self: ClientThread) -> None:
         """Wait for all tasks to be completed."""
         log.trace('Waiting (scheduler)')
-        self.scheduler.join()
+        self.scheduler.join_with(*self.threads)
 
     def wait_collector(self: ClientThread) -> None:
         """Signal collector to halt."""
         log.trace('Waiting (collector)')
-        self.outbound.put(None)
-        self.collector.join()
+        put_with(self.outbound, None, *self.threads)
+        self.collector.join_with(*self.threads)
 
     def wait_executors(self: ClientThread) -> None:
         """Send disconnect signal to each task executor thread."""
         for _ in self.executors:
-            self.inbound.put(None)  # signal executors to shut down
+            put_with(self.inbound, None, *self.threads)  # signal executors to shut down
         for thread in self.executors:
             log.trace(f'Waiting (executor-{thread.id})')
-            thread.join()
+            thread.join_with(*self.threads)
 
     def wait_heartbeat(self: ClientThread) -> None:
         """Signal HALT on heartbeat."""
diff --git a/src/hypershell/core/thread.py b/src/hypershell/core/thread.py
index 6df278b..cbfb8d5 100644
--- a/src/hypershell/core/thread.py
+++ b/src/hypershell/core/thread.py
@@ -6,14 +6,15 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Optional, Type
+from typing import Any, Optional, Type
 
 # standard libs
 import threading
+from queue import Queue, Full
 from abc import ABC, abstractmethod
 
 # public interface
-__all__ = ['Thread', ]
+__all__ = ['Thread', 'put_with', ]
 
 
 class Thread(threading.Thread, ABC):
@@ -52,5 +53,28 @@ class Thread(threading.Thread, ABC):
     def join(self: Thread, timeout: Optional[float] = None) -> None:
         """Calls Thread.join but re-raises exceptions."""
         super().join(timeout=timeout)
+        self.check()
+
+    def check(self: Thread) -> None:
+        """Re-raise exception if the thread has failed."""
         if self.__exception:
             raise self.__exception
+
+    def join_with(self: Thread, *others: Thread) -> None:
+        """Wait for this thread to end unless one of the `others` fails."""
+        while self.is_alive():
+            self.join(timeout=2)
+            for other in others:
+                other.check()
+        self.join()
+
+
+def put_with(queue: Queue, item: Any, *threads: Thread) -> None:
+    """Put `item` on `queue` unless one of the `threads` fails."""
+    while True:
+        try:
+            queue.put(item, timeout=2)
+            return
+        except Full:
+            for thread in threads:
+                thread.check()
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 33a32bd..b2024cb 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -64,7 +64,7 @@ from hypershell.core.exceptions import get_shared_exception_mapping
 from hypershell.core.config import config, default, find_available_ports
 from hypershell.core.logging import Logger
 from hypershell.core.fsm import State, StateMachine
-from hypershell.core.thread import Thread
+from hypershell.core.thread import Thread, put_with
 from hypershell.core.queue import QueueServer, QueueConfig
 from hypershell.core.signal import check_signal, SIGNAL_MAP, SIGUSR1, SIGUSR2
 from hypershell.core.heartbeat import Heartbeat, ClientState
@@ -799,11 +799,17 @@ class ServerThread(Thread):
         self.heartmonitor.start()
         self.receiver.start()
 
+    @property
+    def threads(self: ServerThread) -> List[Thread]:
+        """Child threads (the server cannot go on if any of them fails)."""
+        return [thread for thread in (self.submitter, self.scheduler, self.confirm, self.receiver, self.heartmonitor)
+                if thread is not None]
+
     def wait_submitter(self: ServerThread) -> None:
         """Wait on task submission to complete."""
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
-            self.submitter.join()
+            self.submitter.join_with(*self.threads)
             if self.scheduler is not None:
                 self.scheduler.signal_submitter_done()
 
@@ -811,20 +817,20 @@ class ServerThread(Thread):
         """Wait scheduling until complete."""
         if self.scheduler is not None:
             log.trace('Waiting (scheduler)')
-            self.scheduler.join()
+            self.scheduler.join_with(*self.threads)
 
     def wait_heartbeat(self: ServerThread) -> None:
         """Wait for heartmonitor to stop."""
         log.trace('Waiting (heartbeat)')
         self.heartmonitor.signal_scheduler_done()
         self.heartmonitor.signal_clients()
-        self.heartmonitor.join()
+        self.heartmonitor.join_with(*self.threads)
 
     def wait_receiver(self: ServerThread) -> None:
         """Wait for receiver to stop."""
         log.trace('Waiting (receiver)')
-        self.queue.completed.put(None)
-        self.receiver.join()
+        put_with(self.queue.completed, None, *self.threads)
+        self.receiver.join_with(*self.threads)
 
     def wait_confirm(self: ServerThread) -> None:
         """Wait for confirm thread to stop."""
-- 
2.43.0


From a01adc38090811a775c89e94e49ac42e82e08595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 46/51] fix: keep the result recorded first when an evicted
 client returns a task late

---
 src/hypershell/data/model.py | 11 +++++++++++
 src/hypershell/server.py     |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 70843e2..79c639b 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -497,6 +497,17 @@ class Task(Entity):
         """Cancel single task by `id`."""
         cls.cancel_all([id, ])
 
+    @classmethod
+    def select_recorded(cls: Type[Task], ids: List[str]) -> List[str]:
+        """Select those tasks of `ids` with a result already recorded."""
+        recorded = []
+        for i in range(0, len(ids), 100):
+            recorded += [id for id, in (Session.query(cls.id)
+                                        .filter(cls.id.in_(ids[i:i + 100]))
+                                        .filter(cls.completion_time.isnot(None))
+                                        .all())]
+        return recorded
+
     @classmethod
     def select_orphaned(cls: Type[Task], client_id: str, limit: int) -> List[Task]:
         """Select tasks that were orphaned from an evicted client."""
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index b2024cb..5d73d61 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -420,6 +420,12 @@ class Receiver(StateMachine):
     def update_tasks(self: Receiver) -> ReceiverState:
         """Update tasks in database with run details."""
         if not self.in_memory:
+            # NOTE: given up on by mistake a client may return tasks already completed by another one
+            recorded = Task.select_recorded([task.id for task in self.tasks])
+            for task in self.tasks:
+                if task.id in recorded:
+                    log.warning(f'Ignoring late result ({task.exit_status}) for task ({task.id})')
+            self.tasks = [task for task in self.tasks if task.id not in recorded]
             # NOTE: the other fields may have been altered in the meantime
             Task.update_existing([{'id': task.id, **{field: getattr(task, field) for field in RESULT_FIELDS}}
                                   for task in self.tasks])
-- 
2.43.0


From 24a66dbcf7b6400dacbca589f7583e8f46a30d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:39 +0000
Subject: [PATCH 47/51] fix: never keep a file that was only partly copied from
 a client

---
 src/hypershell/core/remote.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/remote.py b/src/hypershell/core/remote.py
index b64a784..77392f3 100644
--- a/src/hypershell/core/remote.py
+++ b/src/hypershell/core/remote.py
@@ -12,6 +12,7 @@ from types import TracebackType
 # standard libs
 import os
 import sys
+from uuid import uuid4
 from dataclasses import dataclass
 
 # external libs
@@ -126,7 +127,13 @@ class SSHConnection:
         """Use SFTP to copy remote file to local file."""
         self.open_sftp()
         log.trace(f'GET {self.config.hostname}:{remote_path} -> {local_path}')
-        self.sftp.get(remote_path, local_path)
+        partial_path = f'{local_path}.{uuid4()}.part'
+        try:
+            self.sftp.get(remote_path, partial_path)
+            os.replace(partial_path, local_path)
+        finally:
+            if os.path.exists(partial_path):
+                os.remove(partial_path)
 
     def put_file(self: SSHConnection, local_path: str, remote_path: str) -> None:
         """Use SFTP to copy local file to remote file."""
-- 
2.43.0


From add0d10839e5801381ae90966e278399f255b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:40 +0000
Subject: [PATCH 48/51] fix: show the output of the latest run of a task, not
 of an earlier one elsewhere

---
 src/hypershell/task.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index ba9aba9..3041786 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -208,11 +208,10 @@ class TaskInfoApp(Application):
         """Print file contents, fetch from client if necessary."""
         if task_path is None:
             raise RuntimeError(f'No {out_stream.name} for task ({self.uuid})')
-        if not os.path.exists(local_path):
-            if self.task.client_host != HOSTNAME:
-                self.copy_remote_files()
-            else:
-                local_path = task_path
+        if self.task.client_host == HOSTNAME:
+            local_path = task_path
+        elif not self.is_current(local_path):
+            self.copy_remote_file(task_path, local_path)
         out_stream.flush()
         with open(local_path, mode='rb') as in_stream:
             copyfileobj(in_stream, out_stream.buffer)
@@ -226,12 +225,19 @@ class TaskInfoApp(Application):
             'json': functools.partial(json.dumps, indent=4),
         }
 
-    def copy_remote_files(self: TaskInfoApp) -> None:
-        """Copy output and error files and to local host."""
-        log.debug(f'Fetching remote files ({self.task.client_host})')
+    def is_current(self: TaskInfoApp, local_path: str) -> bool:
+        """Check for local file and that it is not from a previous run of the task."""
+        if not os.path.exists(local_path):
+            return False
+        # NOTE: clocks may differ slightly on a shared file system
+        return (self.task.schedule_time is None or
+                os.path.getmtime(local_path) > self.task.schedule_time.timestamp() - 1)
+
+    def copy_remote_file(self: TaskInfoApp, remote_path: str, local_path: str) -> None:
+        """Copy output or error file to local host."""
+        log.debug(f'Fetching remote file ({self.task.client_host}: {remote_path})')
         with SSHConnection(self.task.client_host) as remote:
-            remote.get_file(self.task.outpath, self.outpath)
-            remote.get_file(self.task.errpath, self.errpath)
+            remote.get_file(remote_path, local_path)
 
     @functools.cached_property
     def task(self: TaskInfoApp) -> Task:
-- 
2.43.0


From 37194b4b72f5a20e38e43767a0d4b9291bd519da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:12 +0000
Subject: [PATCH 49/51] fix: Text settings that look like numbers (e.g.
 authentication key) are used as given

---
 src/hypershell/core/config.py | 17 +++++++++++++++--
 src/hypershell/core/queue.py  |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 5f741ea..11a213e 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import TypeVar, Union, List, Optional, Protocol, Final, Iterator
+from typing import TypeVar, Union, List, Optional, Protocol, Final, Iterator, Tuple
 
 # standard libs
 import os
@@ -149,9 +149,22 @@ def load_file(filepath: str) -> Namespace:
     return reload_file(filepath)
 
 
+TEXT_SETTINGS: Final[List[Tuple[str, str]]] = [
+    ('server', 'auth'), ('server', 'bind'), ('task', 'cwd'),
+    ('database', 'user'), ('database', 'password'), ('database', 'host'),
+    ('database', 'database'), ('database', 'file'), ('database', 'schema'),
+]
+"""Settings that are always text, even if they look like something else."""
+
+
 def reload_env() -> Environ:
     """Force reloading environment variables and expanding hierarchy as namespace."""
-    return Environ(prefix='HYPERSHELL').expand()
+    env = Environ(prefix='HYPERSHELL').expand()
+    for section, name in TEXT_SETTINGS:
+        # Given by environment variables they are used verbatim (e.g., '0123' is not 123)
+        if isinstance(env.get(section), dict) and isinstance(env[section].get(name), (int, float)):
+            env[section][name] = os.environ[f'HYPERSHELL_{section}_{name}'.upper()]
+    return env
 
 
 @functools.lru_cache(maxsize=None)
diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 06824f1..7bf0fc1 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -59,7 +59,8 @@ class QueueInterface(BaseManager, ABC):
     def __init__(self: QueueInterface, config: QueueConfig) -> None:
         """Initialize queue interface."""
         self.config = config
-        super().__init__(address=(self.config.host, self.config.port), authkey=self.config.auth.encode())
+        auth = self.config.auth if not isinstance(self.config.auth, int) else str(self.config.auth)
+        super().__init__(address=(self.config.host, self.config.port), authkey=auth.encode())
 
     @classmethod
     def new(cls: Type[QueueInterface]) -> QueueInterface:
-- 
2.43.0


From 24e1396a654f00ded0106e5bb2153a3178f0fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:12 +0000
Subject: [PATCH 50/51] fix: Queue configuration from global settings used a
 name that does not exist

---
 src/hypershell/core/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 7bf0fc1..836b280 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -40,7 +40,7 @@ class QueueConfig:
     def load(cls: Type[QueueConfig]) -> QueueConfig:
         """Initialize from global configuration."""
         return cls.from_dict({
-            'host': _config.server.host,
+            'host': _config.server.bind,
             'port': _config.server.port,
             'auth': _config.server.auth,
             'size': _config.server.queuesize,
-- 
2.43.0


From 4501fda742a3eb42b28176702a3cad76f827ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:43 +0000
Subject: [PATCH 51/51] fix: A thread that exits (e.g. messages cannot be
 formatted) ends the program

---
 src/hypershell/core/thread.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/core/thread.py b/src/hypershell/core/thread.py
index cbfb8d5..d6ddb21 100644
--- a/src/hypershell/core/thread.py
+++ b/src/hypershell/core/thread.py
@@ -20,7 +20,7 @@ __all__ = ['Thread', 'put_with', ]
 class Thread(threading.Thread, ABC):
     """Extends threading.Thread to provide exception handling."""
 
-    __exception: Exception = None
+    __exception: BaseException = None
     __should_halt: bool = False
 
     def __init__(self: Thread, name: str) -> None:
@@ -34,7 +34,7 @@ class Thread(threading.Thread, ABC):
         """Call `run_with_exceptions` within a try/except block."""
         try:
             self.run_with_exceptions()
-        except Exception as exc:
+        except (Exception, SystemExit) as exc:  # NOTE: otherwise Python ignores an exit within a thread
             self.__exception = exc
 
     @classmethod
-- 
2.43.0


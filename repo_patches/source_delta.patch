From 383288acac81002d1b94e35905059333d516be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 01/31] fix: don't overflow in Backoff.backoff after many
 failures

---
 dask-gateway-server/dask_gateway_server/workqueue.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/workqueue.py b/dask-gateway-server/dask_gateway_server/workqueue.py
index a479b47..524be03 100644
--- a/dask-gateway-server/dask_gateway_server/workqueue.py
+++ b/dask-gateway-server/dask_gateway_server/workqueue.py
@@ -23,8 +23,12 @@ class Backoff:
         """Get the backoff time for an item (in seconds)"""
         exp = self._failures[item]
         self._failures[item] = exp + 1
-        backoff = min(self.base_delay * 2**exp, self.max_delay)
-        return backoff
+        try:
+            backoff = self.base_delay * 2**exp
+        except OverflowError:
+            # Too many failures for the delay to be represented as a float
+            return self.max_delay
+        return min(backoff, self.max_delay)
 
     def failures(self, item):
         """Get the number of failures seen for an item"""
-- 
2.43.0


From 44169d77ecac57c83d702c26fba209b0387362f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 02/31] fix: give clusters resumed before their first reconcile
 a heartbeat time

A cluster whose addresses were recorded just before a gateway restart was
marked as running with no last heartbeat, after which every timeout check
failed with a TypeError.
---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 1e34f59..a264044 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1310,6 +1310,10 @@ class DBBackendBase(Backend):
 
     async def _cluster_to_running(self, cluster):
         self.log.info("Cluster %s is running", cluster.name)
+        if cluster.last_heartbeat is None:
+            # The gateway was restarted after this cluster first checked in, but
+            # before it was marked as running. Start waiting for heartbeats now.
+            cluster.last_heartbeat = timestamp()
         self.db.update_cluster(cluster, status=JobStatus.RUNNING)
         cluster.ready.set()
 
-- 
2.43.0


From b6a9cf782c8f5d353101b881e159d0b5bc42e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 03/31] fix: ignore status checks of clusters and workers that
 changed meanwhile

A cluster stopped while its status was being checked was marked as failed
afterwards, leaving a stopped cluster with a failed target (for which no
public status exists, so listing clusters failed).
---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index a264044..4689d9a 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1096,7 +1096,8 @@ class DBBackendBase(Backend):
                 updates = [
                     (c, {"target": JobStatus.FAILED})
                     for c, ok in zip(clusters, statuses)
-                    if not ok
+                    # The cluster may have changed while checking its status
+                    if not ok and c.status == JobStatus.SUBMITTED and c.is_active()
                 ]
                 self.db.update_clusters(updates)
                 for c, _ in updates:
@@ -1129,7 +1130,10 @@ class DBBackendBase(Backend):
                 updates = [
                     (w, {"target": JobStatus.FAILED})
                     for w, ok in zip(workers, statuses)
+                    # The worker may have changed while checking its status
                     if not ok
+                    and w.status == JobStatus.SUBMITTED
+                    and w.target == JobStatus.RUNNING
                 ]
                 self.db.update_workers(updates)
                 for w, _ in updates:
-- 
2.43.0


From b6e5684777f74006df7c132d01524d50c747db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 04/31] fix: don't count stopping workers as pending in
 heartbeats

Workers that were already stopping were counted as excess and picked to be
stopped again, and a running worker that was closing failed the heartbeat.
---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 4689d9a..a2ae7cf 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1001,7 +1001,8 @@ class DBBackendBase(Backend):
                     JobStatus.STOPPED if worker.close_expected else JobStatus.FAILED
                 )
                 target_updates.append((worker, {"target": target}))
-            else:
+            elif worker.target == JobStatus.RUNNING:
+                # Workers that are already stopping are not pending
                 if worker.status == JobStatus.SUBMITTED:
                     submitted_workers.append(worker)
                 else:
-- 
2.43.0


From 4218527bf69154a15544fab8ec91d7f09fb01c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 05/31] fix: don't move running workers back to submitted

A worker may report to its scheduler before its start hook returns.
---
 .../dask_gateway_server/backends/db_base.py              | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index a2ae7cf..913a23a 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1363,7 +1363,9 @@ class DBBackendBase(Backend):
                 async for state in self.do_start_worker(worker):
                     self.log.debug("State update for worker %s", worker.name)
                     self.db.update_worker(worker, state=state)
-            self.db.update_worker(worker, status=JobStatus.SUBMITTED)
+            # The worker may already have been reported as running
+            status = max(worker.status, JobStatus.SUBMITTED)
+            self.db.update_worker(worker, status=status)
             self.log.info("Worker %s submitted", worker.name)
         except asyncio.CancelledError:
             raise
@@ -1374,9 +1376,8 @@ class DBBackendBase(Backend):
                 self.log.warning(
                     "Failed to submit worker %s", worker.name, exc_info=exc
                 )
-            self.db.update_worker(
-                worker, status=JobStatus.SUBMITTED, target=JobStatus.FAILED
-            )
+            status = max(worker.status, JobStatus.SUBMITTED)
+            self.db.update_worker(worker, status=status, target=JobStatus.FAILED)
             worker.cluster.worker_start_failure_count += 1
             self.queue.put(worker)
 
-- 
2.43.0


From d0d8ea66d7b848c2a86ea4db99f99d774970087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 06/31] fix: only update memory once the database transaction
 is committed

---
 .../dask_gateway_server/backends/db_base.py   | 61 ++++++++++---------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 913a23a..0757a71 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -397,13 +397,14 @@ class DataManager:
                     [{"id": i} for i in to_delete],
                 )
 
-                for i in to_delete:
-                    cluster = self.id_to_cluster.pop(i)
-                    self.name_to_cluster.pop(cluster.name, None)
-                    user_clusters = self.username_to_clusters[cluster.username]
-                    user_clusters.pop(cluster.name)
-                    if not user_clusters:
-                        self.username_to_clusters.pop(cluster.username)
+        # Only forget the clusters once the transaction is committed
+        for i in to_delete:
+            cluster = self.id_to_cluster.pop(i)
+            self.name_to_cluster.pop(cluster.name, None)
+            user_clusters = self.username_to_clusters[cluster.username]
+            user_clusters.pop(cluster.name)
+            if not user_clusters:
+                self.username_to_clusters.pop(cluster.username)
 
         return len(to_delete)
 
@@ -483,17 +484,17 @@ class DataManager:
                     **common,
                 )
             )
-            cluster = Cluster(
-                id=res.inserted_primary_key[0],
-                token=token,
-                tls_cert=tls_cert,
-                tls_key=tls_key,
-                config=FrozenAttrDict(config),
-                **common,
-            )
-            self.id_to_cluster[cluster.id] = cluster
-            self.name_to_cluster[cluster_name] = cluster
-            self.username_to_clusters[username][cluster_name] = cluster
+        cluster = Cluster(
+            id=res.inserted_primary_key[0],
+            token=token,
+            tls_cert=tls_cert,
+            tls_key=tls_key,
+            config=FrozenAttrDict(config),
+            **common,
+        )
+        self.id_to_cluster[cluster.id] = cluster
+        self.name_to_cluster[cluster_name] = cluster
+        self.username_to_clusters[username][cluster_name] = cluster
 
         return cluster
 
@@ -512,8 +513,8 @@ class DataManager:
 
         with self.db.begin() as conn:
             res = conn.execute(workers.insert().values(cluster_id=cluster.id, **common))
-            worker = Worker(id=res.inserted_primary_key[0], cluster=cluster, **common)
-            cluster.workers[worker.name] = worker
+        worker = Worker(id=res.inserted_primary_key[0], cluster=cluster, **common)
+        cluster.workers[worker.name] = worker
 
         return worker
 
@@ -523,8 +524,8 @@ class DataManager:
             conn.execute(
                 clusters.update().where(clusters.c.id == cluster.id).values(**kwargs)
             )
-            for k, v in kwargs.items():
-                setattr(cluster, k, v)
+        for k, v in kwargs.items():
+            setattr(cluster, k, v)
 
     def update_clusters(self, updates):
         """Update multiple clusters' states"""
@@ -535,9 +536,9 @@ class DataManager:
                 clusters.update().where(clusters.c.id == sa.bindparam("_id")),
                 [{"_id": c.id, **u} for c, u in updates],
             )
-            for c, u in updates:
-                for k, v in u.items():
-                    setattr(c, k, v)
+        for c, u in updates:
+            for k, v in u.items():
+                setattr(c, k, v)
 
     def update_worker(self, worker, **kwargs):
         """Update a worker's state"""
@@ -545,8 +546,8 @@ class DataManager:
             conn.execute(
                 workers.update().where(workers.c.id == worker.id).values(**kwargs)
             )
-            for k, v in kwargs.items():
-                setattr(worker, k, v)
+        for k, v in kwargs.items():
+            setattr(worker, k, v)
 
     def update_workers(self, updates):
         """Update multiple workers' states"""
@@ -557,9 +558,9 @@ class DataManager:
                 workers.update().where(workers.c.id == sa.bindparam("_id")),
                 [{"_id": w.id, **u} for w, u in updates],
             )
-            for w, u in updates:
-                for k, v in u.items():
-                    setattr(w, k, v)
+        for w, u in updates:
+            for k, v in u.items():
+                setattr(w, k, v)
 
 
 class DBBackendBase(Backend):
-- 
2.43.0


From 4e23a1073763d3e777612c988ba4f6213b762f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 07/31] fix: replace workers that closed as expected once
 scaled up again

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 0757a71..e705cae 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1234,9 +1234,9 @@ class DBBackendBase(Backend):
             await self._worker_to_stopped(worker)
             if self.is_cluster_ready_to_close(worker.cluster):
                 self.queue.put(worker.cluster)
-            elif (
-                worker.cluster.target == JobStatus.RUNNING and not worker.close_expected
-            ):
+            elif worker.cluster.target == JobStatus.RUNNING:
+                # Workers may need to be replaced, even if closing was expected
+                # (the cluster may have been scaled up again meanwhile)
                 self.queue.put(worker.cluster)
             return
 
-- 
2.43.0


From 129c7a89da6c173dd3af6870f866f1c2016aff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 08/31] fix: tell proxies watching from an id that was never
 issued to refresh

---
 dask-gateway-server/dask_gateway_server/proxy/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/proxy/core.py b/dask-gateway-server/dask_gateway_server/proxy/core.py
index 9b4c712..fb84eed 100644
--- a/dask-gateway-server/dask_gateway_server/proxy/core.py
+++ b/dask-gateway-server/dask_gateway_server/proxy/core.py
@@ -358,11 +358,12 @@ class Proxy(LoggingConfigurable):
 
     def _events_after(self, last_id=0):
         index = last_id - self.offset
-        if index >= 0:
+        if index >= 0 and last_id < self._next_id:
             events = self.events[index:]
             return events
         else:
-            # We've since dropped these events, client needs to reset
+            # We've since dropped these events (or never issued this id, the
+            # client saw it from a previous server), client needs to reset
             return None
 
     async def routes_handler(self, request):
-- 
2.43.0


From d3cf1f8d9e45a4d61c0975869e118911e50c42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 09/31] fix: only delete as many pending workers as are in
 excess

---
 .../dask_gateway_server/backends/kubernetes/controller.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 72ab030..566e5ba 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -856,7 +856,8 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         name = cluster["metadata"]["name"]
 
         if info.pending:
-            pending = list(info.pending)[:delta]
+            # ``delta`` is the (non-positive) number of missing workers
+            pending = list(info.pending)[:-delta]
         else:
             pending = []
 
-- 
2.43.0


From 4d44ea97421c071f467d14674877c40cb80d910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 10/31] fix: don't fail when a worker pod is already deleted

---
 .../dask_gateway_server/backends/kubernetes/controller.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 566e5ba..47926aa 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -790,7 +790,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         except Exception as exc:
             if info is not None:
                 info.deletes -= 1
-            if isinstance(exc, ApiException) and exc.code == 404:
+            if isinstance(exc, ApiException) and exc.status == 404:
                 return
             self.log.warning(
                 "Failed to delete pod %s/%s", namespace, pod_name, exc_info=True
-- 
2.43.0


From 2484f800f7c6cb8bba699be0e3a4486d4a0858fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 11/31] fix: set permissions of the TLS files, not of their
 path's characters

---
 dask-gateway-server/dask_gateway_server/backends/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/local.py b/dask-gateway-server/dask_gateway_server/backends/local.py
index d54f800..f4c9f68 100644
--- a/dask-gateway-server/dask_gateway_server/backends/local.py
+++ b/dask-gateway-server/dask_gateway_server/backends/local.py
@@ -176,7 +176,7 @@ class LocalBackend(DBBackendBase):
         for path, data in [(cert_path, cluster.tls_cert), (key_path, cluster.tls_key)]:
             with os.fdopen(os.open(path, flags, 0o600), "wb") as fil:
                 fil.write(data)
-                paths.extend(path)
+                paths.append(path)
 
         self.set_file_permissions(paths, cluster.username)
 
-- 
2.43.0


From f53ad04080340c882be777d5dd6448a94e78996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 12/31] fix: reject NaN for bounded options

---
 dask-gateway-server/dask_gateway_server/options.py | 4 ++--
 dask-gateway/dask_gateway/options.py               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/options.py b/dask-gateway-server/dask_gateway_server/options.py
index 88e6693..a790013 100644
--- a/dask-gateway-server/dask_gateway_server/options.py
+++ b/dask-gateway-server/dask_gateway_server/options.py
@@ -225,9 +225,9 @@ class Number(Field):
         super().__init__(field, default=default, label=label, target=target)
 
     def validate(self, x):
-        if self.min is not None and x < self.min:
+        if self.min is not None and not x >= self.min:
             raise ValueError(f"{self.field} must be >= {self.min:f}, got {x}")
-        if self.max is not None and x > self.max:
+        if self.max is not None and not x <= self.max:
             raise ValueError(f"{self.field} must be <= {self.max:f}, got {x}")
         return x
 
diff --git a/dask-gateway/dask_gateway/options.py b/dask-gateway/dask_gateway/options.py
index 6aebe3b..664b2a7 100644
--- a/dask-gateway/dask_gateway/options.py
+++ b/dask-gateway/dask_gateway/options.py
@@ -235,9 +235,9 @@ class Number(Field):
         super().__init__(field, default, label=label)
 
     def validate(self, x):
-        if self.min is not None and x < self.min:
+        if self.min is not None and not x >= self.min:
             raise ValueError(f"{self.field} must be >= {self.min:f}, got {x}")
-        if self.max is not None and x > self.max:
+        if self.max is not None and not x <= self.max:
             raise ValueError(f"{self.field} must be <= {self.max:f}, got {x}")
         return x
 
-- 
2.43.0


From e663840a46b48f74fbe3f981d5b209746908118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 13/31] fix: report in-process clusters and workers alive until
 closed

---
 dask-gateway-server/dask_gateway_server/backends/inprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/inprocess.py b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
index 7b4d97b..d95f1a1 100644
--- a/dask-gateway-server/dask_gateway_server/backends/inprocess.py
+++ b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
@@ -30,7 +30,7 @@ class InProcessBackend(UnsafeLocalBackend):
         out = []
         for x in objs:
             x = mapping.get(x.name)
-            ok = x is not None and not x.status != Status.closed
+            ok = x is not None and x.status != Status.closed
             out.append(ok)
         return out
 
@@ -109,4 +109,4 @@ class InProcessBackend(UnsafeLocalBackend):
         worker = self.workers.get(worker_name)
         if worker is None:
             return False
-        return not worker.status != Status.closed
+        return worker.status != Status.closed
-- 
2.43.0


From 7b38334c3c447df18a350e3e23035d2ca3d39bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 14/31] fix: return one status per YARN cluster and worker

---
 .../dask_gateway_server/backends/yarn.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 6513803..1191cbe 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -228,7 +228,8 @@ class YarnBackend(DBBackendBase):
         for cluster in clusters:
             app_id = cluster.state.get("app_id")
             if app_id is None:
-                return False
+                results.append(False)
+                continue
             report = await self.async_apply(
                 self.skein_client.application_report, app_id
             )
@@ -265,7 +266,7 @@ class YarnBackend(DBBackendBase):
             grouped[w.cluster].append(w)
 
         results = {}
-        for cluster, workers in grouped.items():
+        for cluster, cluster_workers in grouped.items():
             app = await self._get_app_client(cluster)
             try:
                 containers = await self.async_apply(
@@ -273,7 +274,10 @@ class YarnBackend(DBBackendBase):
                 )
                 active = {c.id for c in containers}
                 results.update(
-                    {w.name: w.state.get("container_id") in active for w in workers}
+                    {
+                        w.name: w.state.get("container_id") in active
+                        for w in cluster_workers
+                    }
                 )
             except Exception as exc:
                 self.log.debug(
@@ -281,6 +285,6 @@ class YarnBackend(DBBackendBase):
                     cluster.name,
                     exc_info=exc,
                 )
-                results.update({w.name: False for w in workers})
+                results.update({w.name: False for w in cluster_workers})
 
         return [results[w.name] for w in workers]
-- 
2.43.0


From d127b7531d44f038e210c2883c03f0c75beb30c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 15/31] fix: cancel jobs whose staging directory is already
 gone

---
 .../dask_gateway_server/backends/jobqueue/launcher.py         | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
index 6926ab3..b05fabd 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
@@ -53,9 +53,7 @@ def start(cmd, env, stdin=None, staging_dir=None, files=None):
 
 
 def stop(cmd, env, staging_dir=None):
-    if staging_dir:
-        if not os.path.exists(staging_dir):
-            return
+    if staging_dir and os.path.exists(staging_dir):
         try:
             shutil.rmtree(staging_dir)
         except Exception as exc:
-- 
2.43.0


From a2ecf41952db933c419e431d15d06b02b560fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 16/31] fix: hand on the wakeup of a cancelled WorkQueue.get

---
 dask-gateway-server/dask_gateway_server/workqueue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/workqueue.py b/dask-gateway-server/dask_gateway_server/workqueue.py
index 524be03..e5d41db 100644
--- a/dask-gateway-server/dask_gateway_server/workqueue.py
+++ b/dask-gateway-server/dask_gateway_server/workqueue.py
@@ -162,6 +162,9 @@ class WorkQueue:
                     self._waiting.remove(waiter)
                 except ValueError:
                     pass
+                if self._queue and not waiter.cancelled():
+                    # Already woken up for an item, wake up another getter
+                    self._wakeup_next()
                 raise
         return self._get()
 
-- 
2.43.0


From 9eb3da64950fc581f3b187b7c064a92c21f61de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 17/31] fix: apply cluster resource limits once all values are
 known

---
 .../dask_gateway_server/backends/base.py      | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/base.py b/dask-gateway-server/dask_gateway_server/backends/base.py
index 0c42b8e..526196f 100644
--- a/dask-gateway-server/dask_gateway_server/backends/base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/base.py
@@ -390,7 +390,24 @@ class ClusterConfig(Configurable):
         config=True,
     )
 
+    # Whether all values are set. Limits depend on several of them, so are only
+    # applied from then on.
+    _initialized = False
+
+    def __init__(self, **kwargs):
+        super().__init__(**kwargs)
+        self._initialized = True
+        self._check_scheduler_memory(self.scheduler_memory, self.cluster_max_memory)
+        self._check_scheduler_cores(self.scheduler_cores, self.cluster_max_cores)
+        if self.cluster_max_workers is None:
+            self.cluster_max_workers = self._worker_limit_from_resources()
+        else:
+            # Clamps to the limit from the resources
+            self.cluster_max_workers = self.cluster_max_workers
+
     def _check_scheduler_memory(self, scheduler_memory, cluster_max_memory):
+        if not self._initialized:
+            return
         if cluster_max_memory is not None and scheduler_memory > cluster_max_memory:
             memory = format_bytes(scheduler_memory)
             limit = format_bytes(cluster_max_memory)
@@ -400,6 +417,8 @@ class ClusterConfig(Configurable):
             )
 
     def _check_scheduler_cores(self, scheduler_cores, cluster_max_cores):
+        if not self._initialized:
+            return
         if cluster_max_cores is not None and scheduler_cores > cluster_max_cores:
             raise ValueError(
                 f"Scheduler cores request of {scheduler_cores} exceeds cluster "
@@ -445,6 +464,8 @@ class ClusterConfig(Configurable):
 
     @validate("cluster_max_workers")
     def _validate_cluster_max_workers(self, proposal):
+        if not self._initialized:
+            return proposal.value
         lim = self._worker_limit_from_resources()
         if lim is None:
             return proposal.value
@@ -458,7 +479,7 @@ class ClusterConfig(Configurable):
         # if a value is `None` and `allow_none` is true, so we need to
         # add an observer to handle the event of an *explicit* `None`
         # set for `cluster_max_workers`
-        if change.new is None:
+        if change.new is None and self._initialized:
             lim = self._worker_limit_from_resources()
             if lim is not None:
                 self.cluster_max_workers = lim
-- 
2.43.0


From bc76ed413b7b9cdf5bc3b4f9db0757534a9bd883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 18/31] fix: remove a cluster's working directory even if
 stopping it fails

---
 .../dask_gateway_server/backends/inprocess.py   | 17 +++++++++--------
 .../dask_gateway_server/backends/local.py       | 15 ++++++++-------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/inprocess.py b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
index d95f1a1..b16e202 100644
--- a/dask-gateway-server/dask_gateway_server/backends/inprocess.py
+++ b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
@@ -67,14 +67,15 @@ class InProcessBackend(UnsafeLocalBackend):
         yield {"workdir": workdir, "started": True}
 
     async def do_stop_cluster(self, cluster):
-        scheduler = self.schedulers.pop(cluster.name)
-
-        await scheduler.close()
-        scheduler.stop()
-
-        workdir = cluster.state.get("workdir")
-        if workdir is not None:
-            self.cleanup_working_directory(workdir)
+        try:
+            scheduler = self.schedulers.pop(cluster.name, None)
+            if scheduler is not None:
+                await scheduler.close()
+                scheduler.stop()
+        finally:
+            workdir = cluster.state.get("workdir")
+            if workdir is not None:
+                self.cleanup_working_directory(workdir)
 
     async def do_check_clusters(self, clusters):
         return self._check_status(clusters, self.schedulers)
diff --git a/dask-gateway-server/dask_gateway_server/backends/local.py b/dask-gateway-server/dask_gateway_server/backends/local.py
index f4c9f68..c0884d1 100644
--- a/dask-gateway-server/dask_gateway_server/backends/local.py
+++ b/dask-gateway-server/dask_gateway_server/backends/local.py
@@ -267,13 +267,14 @@ class LocalBackend(DBBackendBase):
         yield {"workdir": workdir, "pid": pid}
 
     async def do_stop_cluster(self, cluster):
-        pid = cluster.state.get("pid")
-        if pid is not None:
-            await self.stop_process(pid)
-
-        workdir = cluster.state.get("workdir")
-        if workdir is not None:
-            self.cleanup_working_directory(workdir)
+        try:
+            pid = cluster.state.get("pid")
+            if pid is not None:
+                await self.stop_process(pid)
+        finally:
+            workdir = cluster.state.get("workdir")
+            if workdir is not None:
+                self.cleanup_working_directory(workdir)
 
     def _check_status(self, o):
         pid = o.state.get("pid")
-- 
2.43.0


From 58db88ed62dd1551dee8cf08e3bd97463f2d3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 19/31] fix: remove the staged credentials if a job can't be
 submitted

---
 .../backends/jobqueue/launcher.py             | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
index b05fabd..a93a97c 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
@@ -34,12 +34,25 @@ def run_command(cmd, env, stdin=None):
         stdout=stdout.decode("utf8", "replace"),
         stderr=stderr.decode("utf8", "replace"),
     )
+    return proc.returncode
 
 
 def start(cmd, env, stdin=None, staging_dir=None, files=None):
-    if staging_dir:
+    if not staging_dir:
+        run_command(cmd, env, stdin=stdin)
+        return
+
+    try:
+        os.makedirs(staging_dir, mode=0o700, exist_ok=False)
+    except Exception as exc:
+        finish(
+            ok=False, error=f"Error setting up staging directory {staging_dir}: {exc}"
+        )
+        return
+
+    submitted = False
+    try:
         try:
-            os.makedirs(staging_dir, mode=0o700, exist_ok=False)
             for name, value in files.items():
                 with open(os.path.join(staging_dir, name), "w") as f:
                     f.write(value)
@@ -49,7 +62,11 @@ def start(cmd, env, stdin=None, staging_dir=None, files=None):
                 error=f"Error setting up staging directory {staging_dir}: {exc}",
             )
             return
-    run_command(cmd, env, stdin=stdin)
+        submitted = run_command(cmd, env, stdin=stdin) == 0
+    finally:
+        if not submitted:
+            # No job will use these credentials, and none will remove them
+            shutil.rmtree(staging_dir, ignore_errors=True)
 
 
 def stop(cmd, env, staging_dir=None):
-- 
2.43.0


From d94ee2bef088de9dc0cbc0ed052f2077c330ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 20/31] fix: remove the working directory if setting it up
 fails

---
 .../dask_gateway_server/backends/local.py      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/local.py b/dask-gateway-server/dask_gateway_server/backends/local.py
index c0884d1..dc4f822 100644
--- a/dask-gateway-server/dask_gateway_server/backends/local.py
+++ b/dask-gateway-server/dask_gateway_server/backends/local.py
@@ -164,6 +164,19 @@ class LocalBackend(DBBackendBase):
             workdir = os.path.join(self.clusters_directory, cluster.name)
         else:
             workdir = tempfile.mkdtemp(prefix="dask", suffix=cluster.name)
+
+        try:
+            self.create_working_directory(cluster, workdir)
+        except Exception:
+            self.cleanup_working_directory(workdir)
+            raise
+
+        self.log.debug(
+            "Working directory %s for cluster %s created", workdir, cluster.name
+        )
+        return workdir
+
+    def create_working_directory(self, cluster, workdir):  # pragma: nocover
         certsdir = self.get_certs_directory(workdir)
         logsdir = self.get_logs_directory(workdir)
 
@@ -180,11 +193,6 @@ class LocalBackend(DBBackendBase):
 
         self.set_file_permissions(paths, cluster.username)
 
-        self.log.debug(
-            "Working directory %s for cluster %s created", workdir, cluster.name
-        )
-        return workdir
-
     def cleanup_working_directory(self, workdir):
         if os.path.exists(workdir):
             try:
-- 
2.43.0


From 9f55ca0703bc9e2f8d3a2b36eb354165ca5baa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 21/31] fix: don't forget a scale request made while a
 heartbeat is sent

---
 .../dask_gateway/scheduler_preload.py         | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index d7df9d5..918d446 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -24,25 +24,29 @@ class Waiter:
     def __init__(self):
         self.task = None
         self.timer = None
+        self.triggered = False
 
     async def wait(self, t):
+        # If interrupted since the last wait, don't wait at all
+        if not self.triggered:
+            self.task = asyncio.ensure_future(asyncio.sleep(t))
+            try:
+                await self.task
+            except asyncio.CancelledError:
+                if not self.triggered:
+                    raise
+            finally:
+                self.task = None
         self.triggered = False
-        self.task = asyncio.ensure_future(asyncio.sleep(t))
-        try:
-            await self.task
-        except asyncio.CancelledError:
-            if not self.triggered:
-                raise
         if self.timer is not None:
             self.timer.cancel()
             self.timer = None
         return
 
     async def interrupt(self):
+        self.triggered = True
         if self.task is not None:
-            self.triggered = True
             await cancel_task(self.task)
-            self.task = None
 
     def interrupt_soon(self):
         if self.timer is not None:
-- 
2.43.0


From 34335aa0963174866dd5cdcc49cc280bb63fb2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 22/31] fix: reliably stop adaptive scaling when scaling
 explicitly

---
 dask-gateway/dask_gateway/scheduler_preload.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index 918d446..50455da 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -12,8 +12,6 @@ from distributed.scheduler import logger as scheduler_logger
 from tornado import web
 from tornado.httpclient import AsyncHTTPClient, HTTPRequest
 
-from .utils import cancel_task
-
 logger = logging.getLogger(__name__)
 logger.setLevel(logging.INFO)
 logger.propagate = True
@@ -45,8 +43,9 @@ class Waiter:
 
     async def interrupt(self):
         self.triggered = True
+        # Not awaited, as that would swallow a cancellation of the caller
         if self.task is not None:
-            await cancel_task(self.task)
+            self.task.cancel()
 
     def interrupt_soon(self):
         if self.timer is not None:
@@ -324,7 +323,7 @@ class GatewaySchedulerService:
         else:
             if self.adapt_task is not None:
                 logger.info("Disabling adaptive scaling")
-                await cancel_task(self.adapt_task)
+                self.adapt_task.cancel()
                 self.adapt_task = None
 
     async def adapt_loop(self):
-- 
2.43.0


From 519670e14bd2dd124fd8de8c8564458db3edb5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 23/31] fix: keep adaptive scale requests below a lowered
 maximum

---
 dask-gateway/dask_gateway/scheduler_preload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index 50455da..bd62d69 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -344,6 +344,9 @@ class GatewaySchedulerService:
                     await self._scale(target)
                 elif target < self.count:
                     max_window = max(window)
+                    if self.maximum is not None:
+                        # Older targets may exceed a maximum lowered since
+                        max_window = min(max_window, self.maximum)
                     if max_window < self.count:
                         await self._scale(max_window)
             except asyncio.CancelledError:
-- 
2.43.0


From 084daa01162d1be35d8a92aaaa0edde1487f35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 24/31] fix: keep checking for idleness if a shutdown request
 fails

---
 dask-gateway/dask_gateway/scheduler_preload.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index bd62d69..e52988e 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -246,7 +246,11 @@ class GatewaySchedulerService:
                     "Cluster has been idle for %.2f seconds, shutting down",
                     self.idle_timeout,
                 )
-                await self.gateway.shutdown()
+                try:
+                    await self.gateway.shutdown()
+                except Exception as exc:
+                    # Failure. Try again at the next check
+                    logger.warning("Failed to request shutdown", exc_info=exc)
 
     async def heartbeat(self):
         if self.count < len(self.active_workers):
-- 
2.43.0


From b3cc08a3ea94f9e0f81912a770fb0bf396534c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 25/31] fix: count worker pods that have no container status
 yet

---
 .../dask_gateway_server/backends/kubernetes/controller.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 47926aa..916b4e2 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -518,9 +518,6 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             phase = pod["status"].get("phase", "Unknown")
             if phase == "Unknown":
                 return
-            cs = get_container_status(pod, component)
-            if cs is None:
-                return
 
             info = self.cluster_info[cluster_key]
             trigger = False
@@ -531,6 +528,9 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             elif phase == "Failed":
                 trigger = info.on_worker_failed(pod_name)
             else:
+                cs = get_container_status(pod, component)
+                if cs is None:
+                    return
                 kind = next(iter(cs["state"]))
                 if kind == "terminated" and cs["state"][kind]["exitCode"] == 0:
                     info.on_worker_succeeded(pod_name)
-- 
2.43.0


From 846ad7a16646eed4755c8fbb136dd4f7281efa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 26/31] fix: count worker pods first seen while their container
 restarts

---
 .../dask_gateway_server/backends/kubernetes/controller.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 916b4e2..556c84a 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -536,6 +536,9 @@ class KubeController(KubeBackendAndControllerMixin, Application):
                     info.on_worker_succeeded(pod_name)
                 elif kind == "running":
                     info.on_worker_running(pod_name)
+                elif pod_name not in info.all_pods:
+                    # The container is (re)starting
+                    info.on_worker_pending(pod_name)
 
             if (trigger or info.should_trigger()) and not cluster_stopping:
                 self.queue.put(cluster_key)
-- 
2.43.0


From 68e91795ad30703b6ffef47c37923fadf0c929b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 27/31] fix: delete a stopped cluster's resources that aren't
 recorded yet

---
 .../backends/kubernetes/controller.py               | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 556c84a..5bf7c64 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -642,7 +642,13 @@ class KubeController(KubeBackendAndControllerMixin, Application):
 
         if not active:
             self.log.info("Shutting down %s.%s", namespace, name)
-            await self.cleanup_cluster_resources(status, namespace)
+            # Resources may have been created without being recorded in the
+            # status seen here, so clean up by their names
+            resources = {
+                "schedulerPod": self.make_scheduler_pod_name(name),
+                "credentials": self.make_secret_name(name),
+            }
+            await self.cleanup_cluster_resources({**resources, **status}, namespace)
             status = status.copy()
             status["phase"] = "Stopped"
             status["completionTime"] = k8s_timestamp()
@@ -1199,10 +1205,13 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         if is_worker:
             pod["metadata"]["generateName"] = f"dask-worker-{cluster_name}-"
         else:
-            pod["metadata"]["name"] = f"dask-scheduler-{cluster_name}"
+            pod["metadata"]["name"] = self.make_scheduler_pod_name(cluster_name)
 
         return pod
 
+    def make_scheduler_pod_name(self, cluster_name):
+        return f"dask-scheduler-{cluster_name}"
+
     def make_secret_name(self, cluster_name):
         return f"dask-credentials-{cluster_name}"
 
-- 
2.43.0


From 12263368055b65e380d725c3d80a2cc469f05cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 28/31] fix: treat a scheduler pod that failed without running
 as terminated

---
 .../dask_gateway_server/backends/kubernetes/controller.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 5bf7c64..3efda6c 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -55,6 +55,9 @@ def get_container_state(pod, name):
     phase = pod["status"].get("phase", "Unknown")
     if phase == "Pending":
         return "waiting"
+    if phase in ("Succeeded", "Failed"):
+        # The pod ended, even if its containers never ran (e.g. if evicted)
+        return "terminated"
     cs = get_container_status(pod, name)
     if cs is not None:
         return next(iter(cs["state"]))
-- 
2.43.0


From 4e3253f9c3a0bd60d3094aeaf25f0f1322a8d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 29/31] fix: half-close proxied connections in the direction
 that ended

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index b6437af..5e2b3ff 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -530,8 +530,9 @@ func (p *Proxy) proxyConnections(wg *sync.WaitGroup, in, out sni.TcpConn) {
 	if _, err := io.Copy(in, out); err != nil {
 		p.logger.Debugf("Error proxying %q -> %q: %s", in.RemoteAddr(), out.RemoteAddr(), err)
 	}
-	in.CloseRead()
-	out.CloseWrite()
+	// `out` has ended: pass that on, but leave the other direction open
+	in.CloseWrite()
+	out.CloseRead()
 }
 
 func (p *Proxy) runTCP(ln net.Listener, forwarder *Forwarder) {
-- 
2.43.0


From 2290236be8592b94320d038b33ad238cdf8789e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 30/31] fix: accept routing event messages of any size

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index 5e2b3ff..46fb465 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -8,6 +8,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"net/http"
 	"net/http/httputil"
@@ -266,9 +267,12 @@ type evIter struct {
 }
 
 func NewEvIter(body io.ReadCloser) *evIter {
+	scanner := bufio.NewScanner(body)
+	// A message holds all events since the last one, which may be many
+	scanner.Buffer(nil, math.MaxInt)
 	return &evIter{
 		body:    body,
-		scanner: bufio.NewScanner(body),
+		scanner: scanner,
 	}
 }
 
-- 
2.43.0


From abadd3377fae14e155e5c12423c91063c599cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 31/31] fix: keep serving after failing to accept a connection

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index 46fb465..f9f28cf 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -544,6 +544,7 @@ func (p *Proxy) runTCP(ln net.Listener, forwarder *Forwarder) {
 		c, err := ln.Accept()
 		if err != nil {
 			p.logger.Debugf("Failed to accept new connection: %s", err)
+			continue
 		}
 
 		go p.handleConnection(c.(*net.TCPConn), forwarder)
-- 
2.43.0


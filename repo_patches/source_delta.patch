From e780bc2adf275ab9d7ad5e77e269c53c6cac265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 01/37] fix: heartbeat no longer counts or re-stops workers
 that are already being stopped

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 1e34f59..ad01e64 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1001,6 +1001,9 @@ class DBBackendBase(Backend):
                     JobStatus.STOPPED if worker.close_expected else JobStatus.FAILED
                 )
                 target_updates.append((worker, {"target": target}))
+            elif worker.target >= JobStatus.STOPPED:
+                # Already being stopped, neither pending nor a candidate to stop
+                continue
             else:
                 if worker.status == JobStatus.SUBMITTED:
                     submitted_workers.append(worker)
-- 
2.43.0


From 5fbc6b29a5e7b0203930625d94939cb204475078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 02/37] fix: answer a malformed Authorization header with 401
 instead of an internal error

---
 dask-gateway-server/dask_gateway_server/routes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/routes.py b/dask-gateway-server/dask_gateway_server/routes.py
index 5b8d0bf..08ff251 100644
--- a/dask-gateway-server/dask_gateway_server/routes.py
+++ b/dask-gateway-server/dask_gateway_server/routes.py
@@ -31,8 +31,8 @@ def _wrap_authenticated(handler, user=False, token=False):
             backend = request.app["backend"]
             auth_header = request.headers.get("Authorization")
             if auth_header:
-                auth_type, auth_token = auth_header.split(" ", 1)
-                if auth_type == "token":
+                auth_type, _, auth_token = auth_header.partition(" ")
+                if auth_type == "token" and auth_token:
                     cluster_name = request.match_info["cluster_name"]
                     cluster = await backend.get_cluster(cluster_name)
                     if cluster is not None and cluster.token == auth_token:
-- 
2.43.0


From bde062337b9fc66bd22819727b971467f252f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 03/37] fix: reject malformed credentials with 401 instead of
 an internal error

---
 dask-gateway-server/dask_gateway_server/auth.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/auth.py b/dask-gateway-server/dask_gateway_server/auth.py
index 95a4c88..69972e1 100644
--- a/dask-gateway-server/dask_gateway_server/auth.py
+++ b/dask-gateway-server/dask_gateway_server/auth.py
@@ -195,12 +195,15 @@ class SimpleAuthenticator(Authenticator):
         if not auth_header:
             raise unauthorized("Basic")
 
-        auth_type, auth_key = auth_header.split(" ", 1)
+        auth_type, _, auth_key = auth_header.partition(" ")
         if auth_type != "Basic":
             raise unauthorized("Basic")
 
-        auth_key = base64.b64decode(auth_key).decode("ascii")
-        user, password = auth_key.split(":", 1)
+        try:
+            auth_key = base64.b64decode(auth_key).decode("ascii")
+            user, password = auth_key.split(":", 1)
+        except ValueError:
+            raise unauthorized("Basic")
 
         if self.password and password != self.password:
             raise unauthorized("Basic")
@@ -237,7 +240,7 @@ class KerberosAuthenticator(Authenticator):
         if not auth_header:
             raise unauthorized("Negotiate")
 
-        auth_type, auth_key = auth_header.split(" ", 1)
+        auth_type, _, auth_key = auth_header.partition(" ")
         if auth_type != "Negotiate":
             raise unauthorized("Negotiate")
 
@@ -408,7 +411,7 @@ class JupyterHubAuthenticator(Authenticator):
     def get_token(self, request):
         auth_header = request.headers.get("Authorization")
         if auth_header:
-            auth_type, auth_key = auth_header.split(" ", 1)
+            auth_type, _, auth_key = auth_header.partition(" ")
             if auth_type == "jupyterhub":
                 return auth_key
         return None
-- 
2.43.0


From b719b049ae59576eceb910902dc4fcff576a30d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:34 +0000
Subject: [PATCH 04/37] fix: derive the worker limit only once configuration
 and overrides are both applied

---
 .../dask_gateway_server/backends/base.py              | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/base.py b/dask-gateway-server/dask_gateway_server/backends/base.py
index 0c42b8e..2008556 100644
--- a/dask-gateway-server/dask_gateway_server/backends/base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/base.py
@@ -240,6 +240,17 @@ class Backend(LoggingConfigurable):
 class ClusterConfig(Configurable):
     """Base class for holding individual Dask cluster configurations"""
 
+    def __init__(self, parent=None, config=None, **overrides):
+        # Overrides are applied together with the configuration, so that limits
+        # are validated against each other only once all values are final
+        self._overrides = overrides
+        super().__init__(parent=parent, config=config)
+
+    def _find_my_config(self, cfg):
+        config = super()._find_my_config(cfg)
+        config.update(self._overrides)
+        return config
+
     scheduler_cmd = Command(
         "dask-scheduler", help="Shell command to start a dask scheduler.", config=True
     )
-- 
2.43.0


From 8b2a93f19c4d66354dc5bb60ad65f4d3987789f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 05/37] fix: enforce the declared minimum of memory limits

---
 dask-gateway-server/dask_gateway_server/traitlets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/traitlets.py b/dask-gateway-server/dask_gateway_server/traitlets.py
index 18f153e..803a914 100644
--- a/dask-gateway-server/dask_gateway_server/traitlets.py
+++ b/dask-gateway-server/dask_gateway_server/traitlets.py
@@ -41,7 +41,7 @@ class MemoryLimit(Integer):
 
     def validate(self, obj, value):
         if isinstance(value, (int, float)):
-            return int(value)
+            return super().validate(obj, int(value))
 
         try:
             num = float(value[:-1])
@@ -57,7 +57,7 @@ class MemoryLimit(Integer):
                 "{val} is not a valid memory specification. Must be an int or "
                 "a string with suffix K, M, G, T".format(val=value)
             )
-        return int(float(num) * self.UNIT_SUFFIXES[suffix])
+        return super().validate(obj, int(float(num) * self.UNIT_SUFFIXES[suffix]))
 
 
 class Callable(TraitType):
-- 
2.43.0


From 9dde3f72de62c6dd9ca1fb144f9c804ac7251860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 06/37] fix: status checks no longer change clusters and
 workers that stopped or started while waiting for the backend

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index ad01e64..70efbf4 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1096,10 +1096,11 @@ class DBBackendBase(Backend):
                     if c.status == JobStatus.SUBMITTED
                 ]
                 statuses = await self.do_check_clusters(clusters)
+                # Things may have changed while waiting for the statuses
                 updates = [
                     (c, {"target": JobStatus.FAILED})
                     for c, ok in zip(clusters, statuses)
-                    if not ok
+                    if not ok and c.status == JobStatus.SUBMITTED and c.is_active()
                 ]
                 self.db.update_clusters(updates)
                 for c, _ in updates:
@@ -1129,10 +1130,11 @@ class DBBackendBase(Backend):
                     if w.status == JobStatus.SUBMITTED
                 ]
                 statuses = await self.do_check_workers(workers)
+                # Things may have changed while waiting for the statuses
                 updates = [
                     (w, {"target": JobStatus.FAILED})
                     for w, ok in zip(workers, statuses)
-                    if not ok
+                    if not ok and w.status == JobStatus.SUBMITTED and w.is_active()
                 ]
                 self.db.update_workers(updates)
                 for w, _ in updates:
-- 
2.43.0


From a32b76e4ca3a9a084d195542f22d4e280eaeafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 07/37] fix: a worker reported as running before its submission
 returned stays running

---
 .../dask_gateway_server/backends/db_base.py              | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 70efbf4..957009e 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1359,7 +1359,10 @@ class DBBackendBase(Backend):
                 async for state in self.do_start_worker(worker):
                     self.log.debug("State update for worker %s", worker.name)
                     self.db.update_worker(worker, state=state)
-            self.db.update_worker(worker, status=JobStatus.SUBMITTED)
+            # The worker may already have been reported as running
+            self.db.update_worker(
+                worker, status=max(worker.status, JobStatus.SUBMITTED)
+            )
             self.log.info("Worker %s submitted", worker.name)
         except asyncio.CancelledError:
             raise
@@ -1371,7 +1374,9 @@ class DBBackendBase(Backend):
                     "Failed to submit worker %s", worker.name, exc_info=exc
                 )
             self.db.update_worker(
-                worker, status=JobStatus.SUBMITTED, target=JobStatus.FAILED
+                worker,
+                status=max(worker.status, JobStatus.SUBMITTED),
+                target=JobStatus.FAILED,
             )
             worker.cluster.worker_start_failure_count += 1
             self.queue.put(worker)
-- 
2.43.0


From 06d73afa35e68fda9e548406559f4a59532329c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 08/37] fix: update memory only after the database transaction
 was committed

---
 .../dask_gateway_server/backends/db_base.py   | 64 +++++++++----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 957009e..577f0a5 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -397,13 +397,14 @@ class DataManager:
                     [{"id": i} for i in to_delete],
                 )
 
-                for i in to_delete:
-                    cluster = self.id_to_cluster.pop(i)
-                    self.name_to_cluster.pop(cluster.name, None)
-                    user_clusters = self.username_to_clusters[cluster.username]
-                    user_clusters.pop(cluster.name)
-                    if not user_clusters:
-                        self.username_to_clusters.pop(cluster.username)
+        # Only after the transaction was committed
+        for i in to_delete:
+            cluster = self.id_to_cluster.pop(i)
+            self.name_to_cluster.pop(cluster.name, None)
+            user_clusters = self.username_to_clusters[cluster.username]
+            user_clusters.pop(cluster.name)
+            if not user_clusters:
+                self.username_to_clusters.pop(cluster.username)
 
         return len(to_delete)
 
@@ -483,18 +484,18 @@ class DataManager:
                     **common,
                 )
             )
-            cluster = Cluster(
-                id=res.inserted_primary_key[0],
-                token=token,
-                tls_cert=tls_cert,
-                tls_key=tls_key,
-                config=FrozenAttrDict(config),
-                **common,
-            )
-            self.id_to_cluster[cluster.id] = cluster
-            self.name_to_cluster[cluster_name] = cluster
-            self.username_to_clusters[username][cluster_name] = cluster
-
+        # Only visible once the transaction was committed
+        cluster = Cluster(
+            id=res.inserted_primary_key[0],
+            token=token,
+            tls_cert=tls_cert,
+            tls_key=tls_key,
+            config=FrozenAttrDict(config),
+            **common,
+        )
+        self.id_to_cluster[cluster.id] = cluster
+        self.name_to_cluster[cluster_name] = cluster
+        self.username_to_clusters[username][cluster_name] = cluster
         return cluster
 
     def create_worker(self, cluster):
@@ -512,9 +513,8 @@ class DataManager:
 
         with self.db.begin() as conn:
             res = conn.execute(workers.insert().values(cluster_id=cluster.id, **common))
-            worker = Worker(id=res.inserted_primary_key[0], cluster=cluster, **common)
-            cluster.workers[worker.name] = worker
-
+        worker = Worker(id=res.inserted_primary_key[0], cluster=cluster, **common)
+        cluster.workers[worker.name] = worker
         return worker
 
     def update_cluster(self, cluster, **kwargs):
@@ -523,8 +523,8 @@ class DataManager:
             conn.execute(
                 clusters.update().where(clusters.c.id == cluster.id).values(**kwargs)
             )
-            for k, v in kwargs.items():
-                setattr(cluster, k, v)
+        for k, v in kwargs.items():
+            setattr(cluster, k, v)
 
     def update_clusters(self, updates):
         """Update multiple clusters' states"""
@@ -535,9 +535,9 @@ class DataManager:
                 clusters.update().where(clusters.c.id == sa.bindparam("_id")),
                 [{"_id": c.id, **u} for c, u in updates],
             )
-            for c, u in updates:
-                for k, v in u.items():
-                    setattr(c, k, v)
+        for c, u in updates:
+            for k, v in u.items():
+                setattr(c, k, v)
 
     def update_worker(self, worker, **kwargs):
         """Update a worker's state"""
@@ -545,8 +545,8 @@ class DataManager:
             conn.execute(
                 workers.update().where(workers.c.id == worker.id).values(**kwargs)
             )
-            for k, v in kwargs.items():
-                setattr(worker, k, v)
+        for k, v in kwargs.items():
+            setattr(worker, k, v)
 
     def update_workers(self, updates):
         """Update multiple workers' states"""
@@ -557,9 +557,9 @@ class DataManager:
                 workers.update().where(workers.c.id == sa.bindparam("_id")),
                 [{"_id": w.id, **u} for w, u in updates],
             )
-            for w, u in updates:
-                for k, v in u.items():
-                    setattr(w, k, v)
+        for w, u in updates:
+            for k, v in u.items():
+                setattr(w, k, v)
 
 
 class DBBackendBase(Backend):
-- 
2.43.0


From 6a858100913d0ee9a329b46a9086087cbbbf052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:16 +0000
Subject: [PATCH 09/37] fix: tell proxies with an unknown event position to
 reload

---
 dask-gateway-server/dask_gateway_server/proxy/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/proxy/core.py b/dask-gateway-server/dask_gateway_server/proxy/core.py
index 9b4c712..761cf34 100644
--- a/dask-gateway-server/dask_gateway_server/proxy/core.py
+++ b/dask-gateway-server/dask_gateway_server/proxy/core.py
@@ -358,11 +358,12 @@ class Proxy(LoggingConfigurable):
 
     def _events_after(self, last_id=0):
         index = last_id - self.offset
-        if index >= 0:
+        if 0 <= index <= len(self.events):
             events = self.events[index:]
             return events
         else:
-            # We've since dropped these events, client needs to reset
+            # We've since dropped these events, or never sent them (the client
+            # followed an earlier gateway process), client needs to reset
             return None
 
     async def routes_handler(self, request):
-- 
2.43.0


From ac4bc1608aee4fb8ee6dccb256d0ef6bf828235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:16 +0000
Subject: [PATCH 10/37] fix: answer a malformed Authorization header on the
 route feed with 401

---
 dask-gateway-server/dask_gateway_server/proxy/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/proxy/core.py b/dask-gateway-server/dask_gateway_server/proxy/core.py
index 761cf34..f938240 100644
--- a/dask-gateway-server/dask_gateway_server/proxy/core.py
+++ b/dask-gateway-server/dask_gateway_server/proxy/core.py
@@ -373,7 +373,7 @@ class Proxy(LoggingConfigurable):
         if not auth_header:
             raise web.HTTPUnauthorized(headers={"WWW-Authenticate": "token"})
 
-        auth_type, auth_token = auth_header.split(" ", 1)
+        auth_type, _, auth_token = auth_header.partition(" ")
         if auth_type != "token" or auth_token != self.api_token:
             raise web.HTTPUnauthorized(headers={"WWW-Authenticate": "token"})
 
-- 
2.43.0


From c96829d00c0f6fcc547271ba1df108c38d4565b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 11/37] fix: a consumer cancelled after its wakeup passes the
 wakeup on

---
 dask-gateway-server/dask_gateway_server/workqueue.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/workqueue.py b/dask-gateway-server/dask_gateway_server/workqueue.py
index a479b47..de573c2 100644
--- a/dask-gateway-server/dask_gateway_server/workqueue.py
+++ b/dask-gateway-server/dask_gateway_server/workqueue.py
@@ -158,6 +158,10 @@ class WorkQueue:
                     self._waiting.remove(waiter)
                 except ValueError:
                     pass
+                if self._queue and waiter.done() and not waiter.cancelled():
+                    # This consumer was woken for an item it won't take
+                    # anymore, pass the wakeup on to the next one.
+                    self._wakeup_next()
                 raise
         return self._get()
 
-- 
2.43.0


From 27664807ee18ea3d8372eb5826a9c67d8f13f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 12/37] fix: backoff no longer overflows after about a thousand
 failures

---
 dask-gateway-server/dask_gateway_server/workqueue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/workqueue.py b/dask-gateway-server/dask_gateway_server/workqueue.py
index de573c2..3f71037 100644
--- a/dask-gateway-server/dask_gateway_server/workqueue.py
+++ b/dask-gateway-server/dask_gateway_server/workqueue.py
@@ -23,7 +23,8 @@ class Backoff:
         """Get the backoff time for an item (in seconds)"""
         exp = self._failures[item]
         self._failures[item] = exp + 1
-        backoff = min(self.base_delay * 2**exp, self.max_delay)
+        # Larger exponents don't fit in a float
+        backoff = min(self.base_delay * 2 ** min(exp, 1023), self.max_delay)
         return backoff
 
     def failures(self, item):
-- 
2.43.0


From 02167a281a42801f8ea21270d817d763ee2361ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 13/37] fix: rate limiter counts all the time since the last
 request while tokens are owed

---
 dask-gateway-server/dask_gateway_server/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/utils.py b/dask-gateway-server/dask_gateway_server/utils.py
index 06b5107..684f0f4 100644
--- a/dask-gateway-server/dask_gateway_server/utils.py
+++ b/dask-gateway-server/dask_gateway_server/utils.py
@@ -93,7 +93,6 @@ class RateLimiter:
         self.rate = float(rate)
         self.burst = float(burst)
         self._tokens = float(burst)
-        self._max_elapsed = burst / rate
 
         now = time.monotonic()
         self._last = now
@@ -101,7 +100,7 @@ class RateLimiter:
 
     def _delay(self):
         now = time.monotonic()
-        elapsed = min(now - self._last, self._max_elapsed)
+        elapsed = now - self._last
         tokens = min(self._tokens + elapsed * self.rate, self.burst)
 
         tokens -= 1
-- 
2.43.0


From ed16149c01e4e8bfb921c613bb0b445210a61b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 14/37] fix: storing a value in the LRU cache counts as a use
 of its key

---
 dask-gateway-server/dask_gateway_server/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dask-gateway-server/dask_gateway_server/utils.py b/dask-gateway-server/dask_gateway_server/utils.py
index 684f0f4..81f4234 100644
--- a/dask-gateway-server/dask_gateway_server/utils.py
+++ b/dask-gateway-server/dask_gateway_server/utils.py
@@ -261,6 +261,7 @@ class LRUCache:
     def put(self, key, value):
         """Add an item to the cache"""
         self.cache[key] = value
+        self.cache.move_to_end(key)
         if len(self.cache) > self.max_size:
             self.cache.popitem(False)
 
-- 
2.43.0


From 61c2cece2eaed8b26c366bf3ebec37a97f3643b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 15/37] fix: NaN is not within the bounds of a float option

---
 dask-gateway-server/dask_gateway_server/options.py | 5 +++--
 dask-gateway/dask_gateway/options.py               | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/options.py b/dask-gateway-server/dask_gateway_server/options.py
index 88e6693..1d55bc7 100644
--- a/dask-gateway-server/dask_gateway_server/options.py
+++ b/dask-gateway-server/dask_gateway_server/options.py
@@ -225,9 +225,10 @@ class Number(Field):
         super().__init__(field, default=default, label=label, target=target)
 
     def validate(self, x):
-        if self.min is not None and x < self.min:
+        # Written such that NaN is never within bounds
+        if self.min is not None and not x >= self.min:
             raise ValueError(f"{self.field} must be >= {self.min:f}, got {x}")
-        if self.max is not None and x > self.max:
+        if self.max is not None and not x <= self.max:
             raise ValueError(f"{self.field} must be <= {self.max:f}, got {x}")
         return x
 
diff --git a/dask-gateway/dask_gateway/options.py b/dask-gateway/dask_gateway/options.py
index 6aebe3b..5d53da3 100644
--- a/dask-gateway/dask_gateway/options.py
+++ b/dask-gateway/dask_gateway/options.py
@@ -235,9 +235,10 @@ class Number(Field):
         super().__init__(field, default, label=label)
 
     def validate(self, x):
-        if self.min is not None and x < self.min:
+        # Written such that NaN is never within bounds
+        if self.min is not None and not x >= self.min:
             raise ValueError(f"{self.field} must be >= {self.min:f}, got {x}")
-        if self.max is not None and x > self.max:
+        if self.max is not None and not x <= self.max:
             raise ValueError(f"{self.field} must be <= {self.max:f}, got {x}")
         return x
 
-- 
2.43.0


From 1851cc958b69e46839c12ef2c161074198e458b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 16/37] fix: give the user the credential files, not the paths
 named by their letters

---
 dask-gateway-server/dask_gateway_server/backends/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/local.py b/dask-gateway-server/dask_gateway_server/backends/local.py
index d54f800..f4c9f68 100644
--- a/dask-gateway-server/dask_gateway_server/backends/local.py
+++ b/dask-gateway-server/dask_gateway_server/backends/local.py
@@ -176,7 +176,7 @@ class LocalBackend(DBBackendBase):
         for path, data in [(cert_path, cluster.tls_cert), (key_path, cluster.tls_key)]:
             with os.fdopen(os.open(path, flags, 0o600), "wb") as fil:
                 fil.write(data)
-                paths.extend(path)
+                paths.append(path)
 
         self.set_file_permissions(paths, cluster.username)
 
-- 
2.43.0


From aad60f764a1771689159eacbd0e61b87166755f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 17/37] fix: the in-process backend reports what is not closed
 as alive

---
 dask-gateway-server/dask_gateway_server/backends/inprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/inprocess.py b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
index 7b4d97b..d95f1a1 100644
--- a/dask-gateway-server/dask_gateway_server/backends/inprocess.py
+++ b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
@@ -30,7 +30,7 @@ class InProcessBackend(UnsafeLocalBackend):
         out = []
         for x in objs:
             x = mapping.get(x.name)
-            ok = x is not None and not x.status != Status.closed
+            ok = x is not None and x.status != Status.closed
             out.append(ok)
         return out
 
@@ -109,4 +109,4 @@ class InProcessBackend(UnsafeLocalBackend):
         worker = self.workers.get(worker_name)
         if worker is None:
             return False
-        return not worker.status != Status.closed
+        return worker.status != Status.closed
-- 
2.43.0


From 5105ff605b9d3bb885630a9bc0508fc9ce46b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 18/37] fix: remove the directory of an in-process cluster
 whose scheduler never started

---
 .../dask_gateway_server/backends/inprocess.py              | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/inprocess.py b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
index d95f1a1..70a6a97 100644
--- a/dask-gateway-server/dask_gateway_server/backends/inprocess.py
+++ b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
@@ -67,10 +67,11 @@ class InProcessBackend(UnsafeLocalBackend):
         yield {"workdir": workdir, "started": True}
 
     async def do_stop_cluster(self, cluster):
-        scheduler = self.schedulers.pop(cluster.name)
+        scheduler = self.schedulers.pop(cluster.name, None)
 
-        await scheduler.close()
-        scheduler.stop()
+        if scheduler is not None:
+            await scheduler.close()
+            scheduler.stop()
 
         workdir = cluster.state.get("workdir")
         if workdir is not None:
-- 
2.43.0


From 66a7159d96ac39818f6c9ec8a30ca5acf66585c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 19/37] fix: the job launcher cancels jobs whose staging
 directory is gone

---
 .../dask_gateway_server/backends/jobqueue/launcher.py         | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
index 6926ab3..b05fabd 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
@@ -53,9 +53,7 @@ def start(cmd, env, stdin=None, staging_dir=None, files=None):
 
 
 def stop(cmd, env, staging_dir=None):
-    if staging_dir:
-        if not os.path.exists(staging_dir):
-            return
+    if staging_dir and os.path.exists(staging_dir):
         try:
             shutil.rmtree(staging_dir)
         except Exception as exc:
-- 
2.43.0


From 10c5d0e0afd101d788077aaf496556b72c1dfd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 20/37] fix: the job launcher leaves no staging directory
 behind a failed submission and cancels jobs whose directory cannot be removed

---
 .../backends/jobqueue/launcher.py             | 50 +++++++++++--------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
index b05fabd..bd3668b 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
@@ -28,7 +28,7 @@ def run_command(cmd, env, stdin=None):
 
     stdout, stderr = proc.communicate(stdin)
 
-    finish(
+    return dict(
         ok=True,
         returncode=proc.returncode,
         stdout=stdout.decode("utf8", "replace"),
@@ -37,32 +37,42 @@ def run_command(cmd, env, stdin=None):
 
 
 def start(cmd, env, stdin=None, staging_dir=None, files=None):
-    if staging_dir:
-        try:
-            os.makedirs(staging_dir, mode=0o700, exist_ok=False)
-            for name, value in files.items():
-                with open(os.path.join(staging_dir, name), "w") as f:
-                    f.write(value)
-        except Exception as exc:
-            finish(
-                ok=False,
-                error=f"Error setting up staging directory {staging_dir}: {exc}",
-            )
-            return
-    run_command(cmd, env, stdin=stdin)
+    created = started = False
+    try:
+        if staging_dir:
+            try:
+                os.makedirs(staging_dir, mode=0o700, exist_ok=False)
+                created = True
+                for name, value in files.items():
+                    with open(os.path.join(staging_dir, name), "w") as f:
+                        f.write(value)
+            except Exception as exc:
+                finish(
+                    ok=False,
+                    error=f"Error setting up staging directory {staging_dir}: {exc}",
+                )
+                return
+        result = run_command(cmd, env, stdin=stdin)
+        started = result["returncode"] == 0
+        finish(**result)
+    finally:
+        # Without a job nothing will ask to remove the directory later
+        if created and not started:
+            shutil.rmtree(staging_dir, ignore_errors=True)
 
 
 def stop(cmd, env, staging_dir=None):
+    error = None
     if staging_dir and os.path.exists(staging_dir):
         try:
             shutil.rmtree(staging_dir)
         except Exception as exc:
-            finish(
-                ok=False,
-                error=f"Error removing staging directory {staging_dir}: {exc}",
-            )
-            return
-    run_command(cmd, env)
+            error = f"Error removing staging directory {staging_dir}: {exc}"
+    # The job is cancelled even if its directory couldn't be removed
+    result = run_command(cmd, env)
+    if error is not None:
+        result = {"ok": False, "error": error}
+    finish(**result)
 
 
 def main():
-- 
2.43.0


From b84db1e44a37bf0739437b3acc6a8a454dd5f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 21/37] fix: don't lose heartbeat interrupts while a heartbeat
 is in flight

A scale request or lost worker that arrived while a heartbeat was being sent
was not reported until the next regular heartbeat, which is up to an hour
later when liveness isn't tracked by heartbeats.
---
 dask-gateway/dask_gateway/scheduler_preload.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index d7df9d5..aae29e0 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -24,25 +24,29 @@ class Waiter:
     def __init__(self):
         self.task = None
         self.timer = None
+        self.triggered = False
 
     async def wait(self, t):
-        self.triggered = False
+        if self.triggered:
+            # Interrupted while nobody was waiting, don't lose it
+            t = 0
         self.task = asyncio.ensure_future(asyncio.sleep(t))
         try:
             await self.task
         except asyncio.CancelledError:
             if not self.triggered:
                 raise
+        self.task = None
+        self.triggered = False
         if self.timer is not None:
             self.timer.cancel()
             self.timer = None
         return
 
     async def interrupt(self):
+        self.triggered = True
         if self.task is not None:
-            self.triggered = True
             await cancel_task(self.task)
-            self.task = None
 
     def interrupt_soon(self):
         if self.timer is not None:
-- 
2.43.0


From 242da8bdf5eb5140087afef82938593ce0b3ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 22/37] fix: a cluster with queued tasks is not idle

Tasks waiting for a first worker are kept in Scheduler.queued by current
versions of distributed. They weren't considered, so a cluster waiting for its
workers was shut down with work pending.
---
 dask-gateway/dask_gateway/scheduler_preload.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index aae29e0..0901c17 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -233,7 +233,7 @@ class GatewaySchedulerService:
             await asyncio.sleep(self.idle_timeout / 4)
             if any(ws.processing for ws in self.scheduler.workers.values()):
                 continue
-            if self.scheduler.unrunnable:
+            if self.scheduler.unrunnable or getattr(self.scheduler, "queued", None):
                 continue
 
             last_action = (
-- 
2.43.0


From d0a96af6cfe13911480a530077efd7fca19023d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 23/37] fix: keep asking for the shutdown of an idle cluster

If the request failed (e.g. while the gateway restarts) the idle check ended
and the cluster was never shut down.
---
 dask-gateway/dask_gateway/scheduler_preload.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index 0901c17..34997e7 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -247,7 +247,13 @@ class GatewaySchedulerService:
                     "Cluster has been idle for %.2f seconds, shutting down",
                     self.idle_timeout,
                 )
-                await self.gateway.shutdown()
+                try:
+                    await self.gateway.shutdown()
+                except asyncio.CancelledError:
+                    raise
+                except Exception as exc:
+                    # Failure, try again on the next check
+                    logger.warning("Failed to request shutdown", exc_info=exc)
 
     async def heartbeat(self):
         if self.count < len(self.active_workers):
-- 
2.43.0


From 57159fd89728063d0d46b674cfaf17fd0e646bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 24/37] fix: adaptive scaling never requests more than the
 current maximum

Targets from before a change of the bounds could be requested.
---
 dask-gateway/dask_gateway/scheduler_preload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index 34997e7..1b083a5 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -351,6 +351,9 @@ class GatewaySchedulerService:
                     await self._scale(target)
                 elif target < self.count:
                     max_window = max(window)
+                    if self.maximum is not None:
+                        # The maximum may have changed within the window
+                        max_window = min(self.maximum, max_window)
                     if max_window < self.count:
                         await self._scale(max_window)
             except asyncio.CancelledError:
-- 
2.43.0


From 07b7fab6a058c0713ea9e6ff0a74283374ae505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 25/37] fix: cancel_task doesn't swallow the caller's
 cancellation

A scale request which disabled adaptive scaling at the moment the adaptive
loop was interrupting the heartbeat waited forever.
---
 dask-gateway/dask_gateway/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dask-gateway/dask_gateway/utils.py b/dask-gateway/dask_gateway/utils.py
index ec666cf..3cf75c9 100644
--- a/dask-gateway/dask_gateway/utils.py
+++ b/dask-gateway/dask_gateway/utils.py
@@ -10,7 +10,8 @@ def format_template(x):
 
 async def cancel_task(task):
     task.cancel()
-    try:
-        await task
-    except asyncio.CancelledError:
-        pass
+    # Wait without awaiting the task itself, so that our own cancellation isn't
+    # mistaken for that of the task
+    await asyncio.wait([task])
+    if not task.cancelled():
+        task.result()
-- 
2.43.0


From 0e28c6817a227947ed737c9b1a44576d761621d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 26/37] fix: scaling down deletes exactly the surplus of
 pending worker pods

The (negative) number of missing workers was used to slice the list of pending
pods, which deleted all but the surplus.
---
 .../dask_gateway_server/backends/kubernetes/controller.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 72ab030..e9c6d4b 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -856,7 +856,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         name = cluster["metadata"]["name"]
 
         if info.pending:
-            pending = list(info.pending)[:delta]
+            pending = list(info.pending)[: -delta]
         else:
             pending = []
 
-- 
2.43.0


From 1786dde243eb572d1ad545d5d09b20cd622747e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 27/37] fix: deleting a pod that is already gone isn't an error

ApiException has no attribute ``code``, so a missing pod led to an
AttributeError and an endless requeue.
---
 .../dask_gateway_server/backends/kubernetes/controller.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index e9c6d4b..ee89e1b 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -790,7 +790,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         except Exception as exc:
             if info is not None:
                 info.deletes -= 1
-            if isinstance(exc, ApiException) and exc.code == 404:
+            if isinstance(exc, ApiException) and exc.status == 404:
                 return
             self.log.warning(
                 "Failed to delete pod %s/%s", namespace, pod_name, exc_info=True
-- 
2.43.0


From 83ddf3d0e2000c4173fc158aaf7722f48b576953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 28/37] fix: consider worker pods without container statuses

A pod which isn't scheduled yet has no container statuses, nor has one that
was evicted. Both were ignored: the former were requested again after the
expectations expired and not removed on scale down, the latter never replaced.
---
 .../dask_gateway_server/backends/kubernetes/controller.py    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index ee89e1b..c6ebce4 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -518,9 +518,8 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             phase = pod["status"].get("phase", "Unknown")
             if phase == "Unknown":
                 return
+            # Not set until the pod is scheduled, nor for e.g. evicted pods
             cs = get_container_status(pod, component)
-            if cs is None:
-                return
 
             info = self.cluster_info[cluster_key]
             trigger = False
@@ -530,7 +529,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
                 info.on_worker_succeeded(pod_name)
             elif phase == "Failed":
                 trigger = info.on_worker_failed(pod_name)
-            else:
+            elif cs is not None:
                 kind = next(iter(cs["state"]))
                 if kind == "terminated" and cs["state"][kind]["exitCode"] == 0:
                     info.on_worker_succeeded(pod_name)
-- 
2.43.0


From d79c2edff9112bc8212a11f0e114d85936e67c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 29/37] fix: a scheduler pod that ended without container
 status ends the cluster

Evicted pods have a final phase, but may have no container statuses.
---
 .../dask_gateway_server/backends/kubernetes/controller.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index c6ebce4..cb4ffe7 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -55,6 +55,9 @@ def get_container_state(pod, name):
     phase = pod["status"].get("phase", "Unknown")
     if phase == "Pending":
         return "waiting"
+    if phase in ("Succeeded", "Failed"):
+        # There may be no container statuses, e.g. if the pod was evicted
+        return "terminated"
     cs = get_container_status(pod, name)
     if cs is not None:
         return next(iter(cs["state"]))
-- 
2.43.0


From 469b9e7b17dd58461b5b2486e515fb34b7eb77ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 30/37] fix: clean up kubernetes objects whose creation wasn't
 recorded

If the status update failed (or the cluster was stopped before it was seen)
the secret and the scheduler pod were only deleted together with the cluster
record, a day later.
---
 .../backends/kubernetes/controller.py         | 40 ++++++++++---------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index cb4ffe7..9b63961 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -641,7 +641,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
 
         if not active:
             self.log.info("Shutting down %s.%s", namespace, name)
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(status, namespace, name)
             status = status.copy()
             status["phase"] = "Stopped"
             status["completionTime"] = k8s_timestamp()
@@ -710,7 +710,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             self.log.info(
                 "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
             )
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(status, namespace, name)
             status["phase"] = "Failed"
             status["completionTime"] = k8s_timestamp()
 
@@ -737,7 +737,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             self.log.info(
                 "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
             )
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(status, namespace, name)
             status["phase"] = "Failed"
             status["completionTime"] = k8s_timestamp()
 
@@ -892,21 +892,20 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             [{"op": "add", "path": "/status", "value": status}],
         )
 
-    async def cleanup_cluster_resources(self, status, namespace):
-        sched_pod = status.get("schedulerPod")
-        if sched_pod:
-            try:
-                await self.core_client.delete_namespaced_pod(sched_pod, namespace)
-            except ApiException as exc:
-                if exc.status != 404:
-                    raise
-        secret = status.get("credentials")
-        if secret:
-            try:
-                await self.core_client.delete_namespaced_secret(secret, namespace)
-            except ApiException as exc:
-                if exc.status != 404:
-                    raise
+    async def cleanup_cluster_resources(self, status, namespace, name):
+        # The objects may have been created without being recorded in the status
+        sched_pod = status.get("schedulerPod") or self.make_scheduler_pod_name(name)
+        try:
+            await self.core_client.delete_namespaced_pod(sched_pod, namespace)
+        except ApiException as exc:
+            if exc.status != 404:
+                raise
+        secret = status.get("credentials") or self.make_secret_name(name)
+        try:
+            await self.core_client.delete_namespaced_secret(secret, namespace)
+        except ApiException as exc:
+            if exc.status != 404:
+                raise
 
     async def create_secret_if_not_exists(self, cluster):
         name = cluster["metadata"]["name"]
@@ -1197,10 +1196,13 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         if is_worker:
             pod["metadata"]["generateName"] = f"dask-worker-{cluster_name}-"
         else:
-            pod["metadata"]["name"] = f"dask-scheduler-{cluster_name}"
+            pod["metadata"]["name"] = self.make_scheduler_pod_name(cluster_name)
 
         return pod
 
+    def make_scheduler_pod_name(self, cluster_name):
+        return f"dask-scheduler-{cluster_name}"
+
     def make_secret_name(self, cluster_name):
         return f"dask-credentials-{cluster_name}"
 
-- 
2.43.0


From 717bd74d162721bec818c8fe695c6e4e99dcb535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 31/37] fix: closing a cluster handle again doesn't stop its
 cluster again

In asynchronous mode every close, including the implicit one at the end of an
async with block, asked the gateway to stop the cluster, even after an explicit
close(shutdown=False).
---
 dask-gateway/dask_gateway/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index e86fd3c..e846e99 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -979,10 +979,15 @@ class GatewayCluster:
 
     async def _stop_internal(self, shutdown=None):
         self._instances.discard(self)
+        # Only the first close has an effect, later ones wait for it. Shielded
+        # so that a caller that gives up doesn't leave the cluster half closed.
         if self._stop_task is None:
-            self._stop_task = asyncio.ensure_future(self._stop_async())
+            self._stop_task = asyncio.ensure_future(self._stop_all(shutdown))
+        await asyncio.shield(self._stop_task)
+
+    async def _stop_all(self, shutdown=None):
         try:
-            await self._stop_task
+            await self._stop_async()
         except Exception:
             logger.warning("Exception raised while closing clients", exc_info=True)
 
-- 
2.43.0


From e4e18c262a8d137970f4a4b603d55edb9892e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 32/37] fix: keep the brackets of IPv6 addresses of the gateway
 and its proxy

---
 dask-gateway/dask_gateway/client.py | 5 +++--
 dask-gateway/dask_gateway/comm.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index e846e99..19012b8 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -17,6 +17,7 @@ import dask
 import yarl
 from dask.utils import format_bytes
 from distributed import Client
+from distributed.comm.addressing import unparse_host_port
 from distributed.core import rpc
 from distributed.security import Security
 from distributed.utils import LoopRunner
@@ -300,12 +301,12 @@ class Gateway:
                     proxy_port = {"http": 80, "https": 443}.get(parsed.scheme, 8786)
                 else:
                     proxy_port = parsed.port
-                proxy_netloc = "%s:%d" % (parsed.hostname, proxy_port)
+                proxy_netloc = unparse_host_port(parsed.hostname, proxy_port)
             else:
                 proxy_netloc = proxy_address
         elif isinstance(proxy_address, int):
             parsed = urlparse(address)
-            proxy_netloc = "%s:%d" % (parsed.hostname, proxy_address)
+            proxy_netloc = unparse_host_port(parsed.hostname, proxy_address)
         elif isinstance(proxy_address, str):
             parsed = urlparse(proxy_address)
             proxy_netloc = parsed.netloc if parsed.netloc else proxy_address
diff --git a/dask-gateway/dask_gateway/comm.py b/dask-gateway/dask_gateway/comm.py
index 90bc7e6..291178e 100644
--- a/dask-gateway/dask_gateway/comm.py
+++ b/dask-gateway/dask_gateway/comm.py
@@ -2,6 +2,7 @@ import ssl
 from concurrent.futures import ThreadPoolExecutor
 from urllib.parse import urlparse
 
+from distributed.comm.addressing import unparse_host_port
 from distributed.comm.core import Connector
 from distributed.comm.registry import Backend, backends
 from distributed.comm.tcp import (
@@ -78,13 +79,13 @@ class GatewayBackend(Backend):
     def resolve_address(self, loc):
         host, port, path = parse_gateway_address(loc)
         host = ensure_ip(host)
-        return "%s:%d/%s" % (host, port, path)
+        return "%s/%s" % (unparse_host_port(host, port), path)
 
     def get_local_address_for(self, loc):
         host, port, path = parse_gateway_address(loc)
         host = ensure_ip(host)
         host = get_ip(host)
-        return "%s:%d/%s" % (host, port, path)
+        return "%s/%s" % (unparse_host_port(host, port), path)
 
 
 backends["gateway"] = GatewayBackend()
-- 
2.43.0


From ea26f946f579095f628292212d00d8ce854c21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 33/37] fix: a template for the port of the proxy is a port

---
 dask-gateway/dask_gateway/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index 19012b8..a657c3a 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -294,6 +294,9 @@ class Gateway:
 
         if proxy_address is None:
             proxy_address = format_template(dask.config.get("gateway.proxy-address"))
+            if isinstance(proxy_address, str) and proxy_address.isdigit():
+                # A port, from a template
+                proxy_address = int(proxy_address)
         if proxy_address is None:
             parsed = urlparse(address)
             if parsed.netloc:
-- 
2.43.0


From d30c26331f268c9be57ffd74d72c362e710c4c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 34/37] fix: read the server name of TLS hellos of any size a
 record can have

---
 dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go b/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go
index c326b03..e4410f8 100644
--- a/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go
+++ b/dask-gateway-server/dask-gateway-proxy/pkg/sni/sni.go
@@ -58,7 +58,10 @@ func (c readonly) Read(p []byte) (int, error) { return c.r.Read(p) }
 func (readonly) Write(p []byte) (int, error)  { return 0, io.EOF }
 
 func ReadSNI(inConn *net.TCPConn) (string, bool, TcpConn, error) {
-	br := bufio.NewReader(inConn)
+	const headerLen = 5
+	// Big enough for a whole TLS record, since the hello is peeked at once
+	const maxRecordLen = 16384
+	br := bufio.NewReaderSize(inConn, headerLen+maxRecordLen)
 	hdr, err := br.Peek(1)
 	if err != nil {
 		return "", false, nil, err
@@ -69,7 +72,6 @@ func ReadSNI(inConn *net.TCPConn) (string, bool, TcpConn, error) {
 		return "", false, wrapPeeked(inConn, br), nil
 	}
 
-	const headerLen = 5
 	hdr, err = br.Peek(headerLen)
 	if err != nil {
 		return "", false, wrapPeeked(inConn, br), nil
-- 
2.43.0


From 08435932cee0891f6fa60ae9511944ab72236474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 35/37] fix: keep serving when a TCP connection can't be
 accepted

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index b6437af..2aacfe9 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -538,7 +538,13 @@ func (p *Proxy) runTCP(ln net.Listener, forwarder *Forwarder) {
 	for {
 		c, err := ln.Accept()
 		if err != nil {
-			p.logger.Debugf("Failed to accept new connection: %s", err)
+			p.logger.Warnf("Failed to accept new connection: %s", err)
+			if errors.Is(err, net.ErrClosed) {
+				return
+			}
+			// Don't spin while no connection can be accepted
+			time.Sleep(100 * time.Millisecond)
+			continue
 		}
 
 		go p.handleConnection(c.(*net.TCPConn), forwarder)
-- 
2.43.0


From 090e8c21ade8fc9a031ea2c63dfe05895c9083c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 36/37] fix: read batches of routing events of more than 64 KiB

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index 2aacfe9..d12e979 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -265,10 +265,16 @@ type evIter struct {
 	err     error
 }
 
+// Events are sent one batch per line, a large batch is well above the default
+// limit of a scanner (64 KiB)
+const maxEventsSize = 64 << 20
+
 func NewEvIter(body io.ReadCloser) *evIter {
+	scanner := bufio.NewScanner(body)
+	scanner.Buffer(nil, maxEventsSize)
 	return &evIter{
 		body:    body,
-		scanner: bufio.NewScanner(body),
+		scanner: scanner,
 	}
 }
 
-- 
2.43.0


From 017293382ffbde0dc6441feabb8c11739d49a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 37/37] fix: let the other direction of a TLS connection finish
 when one side ends

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index d12e979..473c3c8 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -536,8 +536,9 @@ func (p *Proxy) proxyConnections(wg *sync.WaitGroup, in, out sni.TcpConn) {
 	if _, err := io.Copy(in, out); err != nil {
 		p.logger.Debugf("Error proxying %q -> %q: %s", in.RemoteAddr(), out.RemoteAddr(), err)
 	}
-	in.CloseRead()
-	out.CloseWrite()
+	// Everything was copied from out to in, the other direction may go on
+	in.CloseWrite()
+	out.CloseRead()
 }
 
 func (p *Proxy) runTCP(ln net.Listener, forwarder *Forwarder) {
-- 
2.43.0


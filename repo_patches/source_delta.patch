From c9036a8a286881c82476229076d5a1adb0628b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:54 +0000
Subject: [PATCH 01/28] fix: raise KeyError for a missing item of a view
 instead of returning it

---
 malcolm/core/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/views.py b/malcolm/core/views.py
index d6e7d6d..98add72 100644
--- a/malcolm/core/views.py
+++ b/malcolm/core/views.py
@@ -34,7 +34,7 @@ class View:
         try:
             return getattr(self, item)
         except AttributeError:
-            return KeyError(item)
+            raise KeyError(item)
 
     def __setattr__(self, name, value):
         raise NameError(f"Cannot set attribute {name} on view")
-- 
2.43.0


From 1850ce8164e9b7ec6c173c12a22b5037645b695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:54 +0000
Subject: [PATCH 02/28] fix: drop every concluded future when servicing an
 update, not every other one

---
 malcolm/core/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 8821c77..73aa348 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -399,7 +399,7 @@ class Context:
             # some futures that aren't known to it. This means that some of
             # our futures list are now concluded, so filter them out. If we
             # didn't do this we would hang forever
-            for future in futures:
+            for future in list(futures):
                 if future not in self._requests:
                     futures.remove(future)
         elif isinstance(response, Return):
-- 
2.43.0


From 6a34bd11f1018e12e1f75cb05a3cf08727ac3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:54 +0000
Subject: [PATCH 03/28] fix: raise the error of a waited future that was
 concluded by a nested wait

---
 malcolm/core/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 73aa348..236e04f 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -402,6 +402,8 @@ class Context:
             for future in list(futures):
                 if future not in self._requests:
                     futures.remove(future)
+                    if future.exception() is not None:
+                        raise future.exception()
         elif isinstance(response, Return):
             future = self._futures.pop(response.id)
             del self._requests[future]
-- 
2.43.0


From b5a200ae5204fec4127d963825a121cd30cf9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:10 +0000
Subject: [PATCH 04/28] fix: apply a field level change of a proxied block to
 the field it names

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index b8a9bd3..abf1e03 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -198,10 +198,10 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         elif len(path) == 1 and path[0] not in ("health", "meta"):
             if len(change) == 1:
                 # Delete a field
-                block.remove_endpoint(path[1])
+                block.remove_endpoint(path[0])
             else:
                 # Change a single field of the block
-                block.set_endpoint_data(path[1], change[1])
+                block.set_endpoint_data(path[0], change[1])
         else:
             block.apply_change(path, *change[1:])
 
-- 
2.43.0


From 08bf5f1a689cb71d92bdebae7bdb71be8308b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:10 +0000
Subject: [PATCH 05/28] fix: pass arguments to, and return the result of, an
 exported method

---
 malcolm/modules/builtin/controllers/managercontroller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 6204648..5103e36 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -368,9 +368,9 @@ class ManagerController(StatefulController):
                     ret["setter"] = setter
                 else:
 
-                    def setter_star_args(*args):
+                    def setter_star_args(**kwargs):
                         context = Context(self.process)
-                        context.post(path, *args)
+                        return context.post(path, kwargs)
 
                     ret["setter"] = setter_star_args
 
-- 
2.43.0


From e1310101cfeb760634bcb73daf7e732005fc0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:40 +0000
Subject: [PATCH 06/28] fix: subscribe again to a child config field that was
 removed and added back

---
 malcolm/modules/builtin/parts/childpart.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index f212570..0e9cf36 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -282,6 +282,7 @@ class ChildPart(Part):
             return
 
         # Remove any existing subscription that is not in the new fields
+        removed = []
         for subscribe in self.config_subscriptions.values():
             attr_name = subscribe.path[-2]
             if attr_name not in new_fields:
@@ -289,6 +290,7 @@ class ChildPart(Part):
                 unsubscribe.set_callback(subscribe.callback)
                 spawned.append(self.child_controller.handle_request(unsubscribe))
                 self.port_infos.pop(attr_name, None)
+                removed.append(subscribe.id)
 
         # Add a subscription to any new field
         existing_fields = set(s.path[-2] for s in self.config_subscriptions.values())
@@ -330,6 +332,9 @@ class ChildPart(Part):
         # Wait for the first update to come in for every subscription
         for s in spawned:
             s.wait()
+        # Forget the removed subscriptions, so the fields can be added again
+        for subscribe_id in removed:
+            self.config_subscriptions.pop(subscribe_id, None)
         port_infos = [self.port_infos[f] for f in new_fields if f in self.port_infos]
         assert self.registrar, "No registrar assigned"
         self.registrar.report(PartExportableInfo(new_fields, port_infos))
-- 
2.43.0


From d47015f6401c6846395ec015785600bf291d6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:40 +0000
Subject: [PATCH 07/28] fix: let a websocket client reuse a subscription id
 after unsubscribing it

---
 malcolm/modules/web/parts/websocketserverpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index fcc8914..93e1c42 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -112,7 +112,7 @@ class MalcWebSocketHandler(WebSocketHandler):
                 )
                 self._id_to_mri[msg_id] = request.path[0]
             if isinstance(request, Unsubscribe):
-                mri = self._id_to_mri[msg_id]
+                mri = self._id_to_mri.pop(msg_id)
             else:
                 mri = request.path[0]
             if isinstance(request, (Put, Post)) and not self._writeable:
-- 
2.43.0


From 410bdc92bbcb0c380847243c76b61d9f23f45ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:09 +0000
Subject: [PATCH 08/28] fix: report a request that could not be sent instead of
 waiting for ever

---
 .../web/controllers/websocketclientcomms.py       | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index abf1e03..355fd7a 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -269,6 +269,15 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         request.id = self._next_id
         self._next_id += 1
         self._request_lookup[request.id] = request
-        message = json_encode(request)
-        self.log.debug("Sending message %s", message)
-        self._conn.write_message(message)
+        try:
+            message = json_encode(request)
+            self.log.debug("Sending message %s", message)
+            self._conn.write_message(message)
+        except Exception as e:
+            # The server will never respond to this, so tell the caller
+            self.log.exception("Failed to send %s", request)
+            self._request_lookup.pop(request.id, None)
+            error = Error(
+                id=request.id, message=ResponseError(f"Request not sent: {e}")
+            )
+            cothread.Callback(request.callback, error)
-- 
2.43.0


From 748b0237cf3506fb95dc17a9372e5a58ddb32a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:09 +0000
Subject: [PATCH 09/28] fix: report the error text of a failed REST request

---
 malcolm/modules/web/parts/restfulserverpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/restfulserverpart.py b/malcolm/modules/web/parts/restfulserverpart.py
index 9b93c8d..8ad0ce3 100644
--- a/malcolm/modules/web/parts/restfulserverpart.py
+++ b/malcolm/modules/web/parts/restfulserverpart.py
@@ -58,7 +58,7 @@ class RestfulHandler(RequestHandler):
             self.finish(message + "\n")
         else:
             if isinstance(response, Error):
-                message = response.message
+                message = str(response.message)
             else:
                 message = f"Unknown response {type(response)}"
             self.set_status(500, message)
-- 
2.43.0


From 4c05821d3a4a9b3843d85babfa4a09145b3e9486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:09 +0000
Subject: [PATCH 10/28] fix: send the current value to update subscribers below
 a partially changed table

---
 malcolm/core/notifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index b3499ff..d522428 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -180,6 +180,8 @@ class NotifierNode:
             # This is for one of our children
             name = path[0]
             if name in self.children:
+                # The child's data may have been replaced by this change
+                self.children[name].data = getattr(self.data, name, None)
                 if len(change) == 2:
                     child_change = [path[1:], change[1]]
                 else:
-- 
2.43.0


From aa0355727f8be7af59c70d5d8c5f865e451bb1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:05 +0000
Subject: [PATCH 11/28] fix: give subscribers below a mapping the value of the
 item they name

---
 malcolm/core/notifier.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index d522428..2fdd883 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -46,6 +46,15 @@ def freeze(o):
     return o
 
 
+def get_child_data(data: Any, name: str) -> Any:
+    """Get the data of the named child, or None if there isn't one. Mappings hold
+    their children as items, everything else as attributes"""
+    if isinstance(data, dict):
+        return data.get(name, None)
+    else:
+        return getattr(data, name, None)
+
+
 class Notifier(Loggable):
     """Object that can service callbacks on given endpoints"""
 
@@ -181,7 +190,7 @@ class NotifierNode:
             name = path[0]
             if name in self.children:
                 # The child's data may have been replaced by this change
-                self.children[name].data = getattr(self.data, name, None)
+                self.children[name].data = get_child_data(self.data, name)
                 if len(change) == 2:
                     child_change = [path[1:], change[1]]
                 else:
@@ -210,7 +219,7 @@ class NotifierNode:
         child_change_dict: Dict[str, List] = {}
         # Reflect change of data to children
         for name in self.children:
-            child_data = getattr(data, name, None)
+            child_data = get_child_data(data, name)
             if child_data is None:
                 # Deletion
                 child_change_dict[name] = [[]]
@@ -237,7 +246,7 @@ class NotifierNode:
             # Recurse down
             name = path[0]
             if name not in self.children:
-                self.children[name] = NotifierNode(getattr(self.data, name, None), self)
+                self.children[name] = NotifierNode(get_child_data(self.data, name), self)
             ret += self.children[name].handle_subscribe(request, path[1:])
         else:
             # This is for us
-- 
2.43.0


From 376b2ba52896ad23a3b905464e5a0eaae51060be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:05 +0000
Subject: [PATCH 12/28] fix: announce the status message of a scan runner that
 was given an unknown key

---
 malcolm/modules/scanning/parts/scanrunnerpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/parts/scanrunnerpart.py b/malcolm/modules/scanning/parts/scanrunnerpart.py
index e8b068c..68e5c32 100644
--- a/malcolm/modules/scanning/parts/scanrunnerpart.py
+++ b/malcolm/modules/scanning/parts/scanrunnerpart.py
@@ -222,7 +222,7 @@ class ScanRunnerPart(ChildPart):
                 self.parse_scan(item["scan"])
             else:
                 self.set_runner_state(RunnerStates.FAULT)
-                self.runner_status_message.value = "Unidentified key in YAML"
+                self.runner_status_message.set_value("Unidentified key in YAML")
                 raise ValueError(f"Unidentified object in YAML: {key_name}")
 
         # Count the number of scans configured
-- 
2.43.0


From 155322a21d036916d18b2df77a45bd6d124a65d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:24 +0000
Subject: [PATCH 13/28] fix: a field added to a stateful block is writeable
 only if the current state allows it

Fields (including exported ones) added while the block is Disabled were
left writeable until the next state transition.
---
 .../builtin/controllers/statefulcontroller.py | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/statefulcontroller.py b/malcolm/modules/builtin/controllers/statefulcontroller.py
index 4d48387..3f73374 100644
--- a/malcolm/modules/builtin/controllers/statefulcontroller.py
+++ b/malcolm/modules/builtin/controllers/statefulcontroller.py
@@ -172,18 +172,15 @@ class StatefulController(BasicController):
         # If we don't have a writeable func it can never be writeable
         if writeable_func is None:
             return
-        # If we have already registered an explicit set then we are done
-        for state in self.state_set.possible_states:
-            state_writeable = self._children_writeable.get(state, {})
-            if child in state_writeable:
-                return
-        # Field is writeable but has not defined when it should be
-        # writeable, so calculate it from the possible states
-        states = [
-            state
-            for state in self.state_set.possible_states
-            if state not in (ss.DISABLING, ss.DISABLED)
-        ]
-        for state in self.state_set.possible_states:
-            state_writeable = self._children_writeable.setdefault(state, {})
-            state_writeable[child] = state in states
+        # If we have not already registered an explicit set then calculate it
+        # from the possible states
+        state_writeable = self._children_writeable.get(self.state.value, {})
+        if child not in state_writeable:
+            states = [
+                state
+                for state in self.state_set.possible_states
+                if state not in (ss.DISABLING, ss.DISABLED)
+            ]
+            self.set_writeable_in(child, *states)
+        # It might not be writeable in the state we are in now
+        child.meta.set_writeable(self._children_writeable[self.state.value][child])
-- 
2.43.0


From 8962b7e171750a6dd0e0c0c9dd13b9cf972c0438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:28 +0000
Subject: [PATCH 14/28] fix: a run resumed after seeking to another run ends in
 the right state

The state to go to was decided once before the first do_run(), but pause()
may move to a point within a different run.
---
 .../modules/scanning/controllers/runnablecontroller.py   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 9ec3086..2c635a0 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -526,15 +526,16 @@ class RunnableController(builtin.controllers.ManagerController):
         Disabled state.
         """
 
-        if self.configured_steps.value < self.total_steps.value:
-            next_state = ss.ARMED
-        else:
-            next_state = ss.FINISHED
         try:
             self.transition(ss.RUNNING)
             hook = RunHook
             going = True
             while going:
+                # A pause may have moved us to a different run
+                if self.configured_steps.value < self.total_steps.value:
+                    next_state = ss.ARMED
+                else:
+                    next_state = ss.FINISHED
                 try:
                     self.do_run(hook)
                     self.abortable_transition(next_state)
-- 
2.43.0


From d7a06195ab9374f5151098526e024f6fa28acd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:58 +0000
Subject: [PATCH 15/28] fix: disabling a block stops its run instead of failing
 it

---
 malcolm/modules/scanning/controllers/runnablecontroller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 2c635a0..2be1e3f 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -159,7 +159,7 @@ class RunnableController(builtin.controllers.ManagerController):
         # Breakpoint index, modified in run() and pause()
         self.breakpoint_index: int = 0
         # Queue so we can wait for aborts to complete
-        self.abort_queue: Optional[Queue] = None
+        self.abort_queue: Optional[Queue] = Queue()
         # Create sometimes writeable attribute for the current completed scan
         # step
         self.completed_steps = NumberMeta(
-- 
2.43.0


From ab3c6221cb106963f1297ac5d4f62cce04c2ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:31 +0000
Subject: [PATCH 16/28] fix: an export survives its source being removed or
 replaced

Whenever a child block rebuilds its fields (a change of its exports or of
the visibility of its parts) the subscriptions of its parent's exports get a
change with an empty path. Applying it to the export raised an
AssertionError, which failed the unrelated operation on the child and kept
the remaining subscribers from being told about it.
---
 .../builtin/controllers/managercontroller.py      | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 5103e36..8484d5d 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -345,6 +345,13 @@ class ManagerController(StatefulController):
         label = camel_to_title(export_name)
         ret = {}
 
+        def update_export(source):
+            if isinstance(ret["export"], AttributeModel):
+                ret["export"].set_value_alarm_ts(
+                    source.value, source.alarm, source.timeStamp
+                )
+            ret["export"].meta.set_writeable(source.meta.writeable)
+
         def update_field(response):
             if not isinstance(response, Delta):
                 # Return or Error is the end of our subscription, log and ignore
@@ -381,7 +388,13 @@ class ManagerController(StatefulController):
                 # Subsequent calls, update it
                 with self.changes_squashed:
                     for change in response.changes:
-                        ret["export"].apply_change(*change)
+                        if change[0]:
+                            ret["export"].apply_change(*change)
+                        elif len(change) > 1:
+                            # The source was replaced, take on its state
+                            update_export(deserialize_object(change[1]))
+                        # If the source was removed then we will be removed
+                        # when its part reports its new exportable fields
 
         subscription = Subscribe(path=path, delta=True)
         subscription.set_callback(update_field)
-- 
2.43.0


From 7373956b6cc3331d8a60cdb29491015c99373a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:48 +0000
Subject: [PATCH 17/28] fix: apply changes of table columns and of elements to
 a proxied block

---
 malcolm/core/models.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 92d2db5..185a3c0 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -132,7 +132,13 @@ class Model(Serializable):
         """Take a single change from a Delta and apply it to this model"""
         if len(path) > 1:
             # This is for a child
-            self[path[0]].apply_change(path[1:], *args)
+            child = self[path[0]]
+            path = path[1:]
+            if isinstance(child, dict):
+                # This is for one of the Models in a mapping
+                child = child[path[0]]
+                path = path[1:]
+            child.apply_change(path, *args)
         else:
             # This is for us
             assert (
@@ -406,6 +412,15 @@ class NTTable(AttributeModel):
             self.timeStamp = ts
             self.notifier.add_squashed_change(self.path + ["timeStamp"], ts)
 
+    def apply_change(self, path: List[str], *args: Any) -> None:
+        if len(path) == 2 and path[0] == "value" and args:
+            # Only a single column has changed, keep the rest
+            value = {k: self.value[k] for k in self.value}
+            value[path[1]] = args[0]
+            self.set_value(value, set_alarm_ts=False)
+        else:
+            super().apply_change(path, *args)
+
 
 @Serializable.register_subclass("epics:nt/NTScalarArray:1.0")
 class NTScalarArray(AttributeModel):
-- 
2.43.0


From bf1f5ce7129b45033aa467c42f1a34bb6c124fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:48 +0000
Subject: [PATCH 18/28] fix: a disconnection is not taken for the next
 connection

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index 355fd7a..2255754 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -69,6 +69,8 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
     def _start_client(self):
         # Called from cothread
         if self._conn is None:
+            # Don't mistake an earlier disconnection for this connection
+            self._connected_queue = Queue()
             IOLoopHelper.call(self.recv_loop)
             self._connected_queue.get(timeout=self.connect_timeout)
             root_subscribe = Subscribe(path=[".", "blocks", "value"])
-- 
2.43.0


From 3123f557de0999def58fdd2d7a941414cc2eb64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:48 +0000
Subject: [PATCH 19/28] fix: answer websocket clients that do not use IPv4

---
 malcolm/modules/web/parts/websocketserverpart.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index 93e1c42..bfb5f02 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -84,11 +84,16 @@ class MalcWebSocketHandler(WebSocketHandler):
             if ipv4_ip == "::1":
                 # Special case IPV6 loopback
                 ipv4_ip = "127.0.0.1"
-            remoteaddr = struct.unpack("!I", socket.inet_aton(ipv4_ip))[0]
             if self._validators:
                 # Work out if the remote ip is within the netmask of any of our
                 # interfaces. If not, Put and Post are forbidden
-                self._writeable = max(v(remoteaddr) for v in self._validators)
+                try:
+                    remoteaddr = struct.unpack("!I", socket.inet_aton(ipv4_ip))[0]
+                except OSError:
+                    # Not an IPv4 address, so not within any of our netmasks
+                    self._writeable = False
+                else:
+                    self._writeable = max(v(remoteaddr) for v in self._validators)
             else:
                 self._writeable = True
             log.info(
-- 
2.43.0


From c50979eeaf9841ca5c0821ad3b6b1f84c15acb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:48 +0000
Subject: [PATCH 20/28] fix: a refused subscription does not use up its id

---
 malcolm/modules/web/parts/websocketserverpart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index bfb5f02..2e821dd 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -115,7 +115,6 @@ class MalcWebSocketHandler(WebSocketHandler):
                 assert msg_id not in self._id_to_mri, (
                     "Duplicate subscription ID %d" % msg_id
                 )
-                self._id_to_mri[msg_id] = request.path[0]
             if isinstance(request, Unsubscribe):
                 mri = self._id_to_mri.pop(msg_id)
             else:
@@ -123,6 +122,9 @@ class MalcWebSocketHandler(WebSocketHandler):
             if isinstance(request, (Put, Post)) and not self._writeable:
                 raise ValueError(f"Put/Post is forbidden from {self.request.remote_ip}")
             self._registrar.report(builtin.infos.RequestInfo(request, mri))
+            if isinstance(request, Subscribe):
+                # Only now, so an id is not taken if the request was refused
+                self._id_to_mri[msg_id] = mri
         except Exception as e:
             log.exception("Error handling message:\n%s", message)
             error = Error(msg_id, e)
-- 
2.43.0


From 2e934c864a0010e688deb3caaeb5a74548e8dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:58 +0000
Subject: [PATCH 21/28] fix: a number attribute does not take an array

---
 malcolm/core/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 185a3c0..bde176e 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -698,6 +698,7 @@ class NumberMeta(VMeta):
         if value is None:
             value = 0
         cast = self._np_type(value)
+        assert np.ndim(cast) == 0, f"Expected a single number, got {value!r}"
         return cast
 
     def doc_type_string(self) -> str:
-- 
2.43.0


From cde2d340e17138abe524d2ebdf695a02c4f9c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:58 +0000
Subject: [PATCH 22/28] fix: a single value put to a number array is cast to
 its type

---
 malcolm/core/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index bde176e..e300490 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -761,7 +761,10 @@ def to_np_array(dtype, value: Any) -> Any:
         # If Array wraps a numpy array of the correct type we are done
         return value
     else:
-        if isinstance(value, Sequence):
+        if value is not None and not isinstance(value, np.ndarray):
+            if isinstance(value, str) or not isinstance(value, Sequence):
+                # A single value should give an array of one element
+                value = [value]
             # Cast to numpy array
             value = np.array(value, dtype=dtype)
         return to_array(Array[dtype], value)
-- 
2.43.0


From 21a7f4f78c0f39fd1697af1c20c92c00714801bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:35 +0000
Subject: [PATCH 23/28] fix: a waveform table shows when its PVs disconnect and
 recover

---
 malcolm/modules/ca/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index b5c0bc8..1697c93 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -159,8 +159,7 @@ class CABase(Loggable):
             value_key = self.name_list[value_index]
             self._local_value[value_key] = value
             self._local_value.raw_stamp = getattr(value, "raw_stamp", (None, None))
-            self._local_value.ok = self._local_value.ok or value.ok
-            self._local_value.severity = max(self._local_value.severity, value.severity)
+            self._local_value.update_status()
             self._update_value(self._local_value)
         else:
             self._update_value(value)
@@ -278,6 +277,12 @@ class CATable(dict):
     severity = 0
     raw_stamp = (None, None)
 
+    def update_status(self):
+        # Connected only if every PV is, severity is the worst of all of them
+        self.ok = all(value.ok for value in self.values())
+        if self.ok:
+            self.severity = max(value.severity for value in self.values())
+
 
 class WaveformTableAttribute(CABase):
     def __init__(
@@ -348,8 +353,7 @@ class WaveformTableAttribute(CABase):
             if self.on_connect:
                 self.on_connect(value)
             self._local_value[self.name_list[ind]] = value
-            self._local_value.severity = max(self._local_value.severity, value.severity)
-            self._local_value.ok = self._local_value.ok or value.ok
+        self._local_value.update_status()
         self._update_value(self._local_value)
         # now setup monitors for all the things
         self.monitor = catools.camonitor(
-- 
2.43.0


From ebe0ad583f016259cc05bd358612094612e9549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:08 +0000
Subject: [PATCH 24/28] fix: a PV that is not connected is not used to set up
 its attribute

---
 malcolm/modules/ca/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index 1697c93..6ea3671 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -241,7 +241,7 @@ class CAAttribute(CABase):
             self.throw,
         )
 
-        if self.on_connect:
+        if self.on_connect and ca_values[0].ok:
             self.on_connect(ca_values[0])
         self._update_value(ca_values[0])
         # now setup monitor on rbv
@@ -350,7 +350,7 @@ class WaveformTableAttribute(CABase):
         )
 
         for ind, value in enumerate(ca_values):
-            if self.on_connect:
+            if self.on_connect and value.ok:
                 self.on_connect(value)
             self._local_value[self.name_list[ind]] = value
         self._local_value.update_status()
-- 
2.43.0


From f5b4aeb777a052e5894bf4b6f689faa7b4174600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:14 +0000
Subject: [PATCH 25/28] fix: a table whose top column is a single bit has all
 its words

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 9313e6d..d58fc5b 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -89,7 +89,7 @@ class PandATablePart(PandAFieldPart):
         # Work out how many ints per row
         # TODO: this should be in the block data
         max_bits_hi = max(f.bits_hi for f in self.field_data.values())
-        self.ints_per_row = int((max_bits_hi + 31) / 32)
+        self.ints_per_row = max_bits_hi // 32 + 1
         # Superclass will make the attribute for us
         super().__init__(client, meta, block_name, field_name)
 
-- 
2.43.0


From ebc25b84da087552138629cd44565a90ffe529f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:53 +0000
Subject: [PATCH 26/28] fix: a row of an unknown bit is ignored when setting
 the bits table

---
 malcolm/modules/pandablocks/parts/pandabussespart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandabussespart.py b/malcolm/modules/pandablocks/parts/pandabussespart.py
index cac6063..7c6a39e 100644
--- a/malcolm/modules/pandablocks/parts/pandabussespart.py
+++ b/malcolm/modules/pandablocks/parts/pandabussespart.py
@@ -110,6 +110,9 @@ class PandABussesPart(Part):
             # If capture changed, set PCAP bits
             field_values = {}
             for bit in value.name:
+                if bit not in self._bit_indexes:
+                    # Ignored above
+                    continue
                 capture = column_changes["capture"][self._bit_indexes[bit]]
                 capture_field = self._bit_pcap_fields[bit]
                 if capture:
-- 
2.43.0


From f9502e07b2e7de5dd2baa7bec9f463ab4a28871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:59 +0000
Subject: [PATCH 27/28] fix: resetting a PandA starts polling again after
 polling failed

---
 .../modules/pandablocks/controllers/pandamanagercontroller.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
index ad480c1..9efa195 100644
--- a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
+++ b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
@@ -94,6 +94,9 @@ class PandAManagerController(builtin.controllers.ManagerController):
         super().do_init()
 
     def start_poll_loop(self):
+        if self._poll_spawned is not None and self._poll_spawned.ready():
+            # It ended with an error, so make a new connection too
+            self.stop_poll_loop()
         # queue to listen for stop events
         if not self._client.started:
             self._stop_queue = Queue()
-- 
2.43.0


From 8625808a9993349473889ff4135fdd78f7d7cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:59 +0000
Subject: [PATCH 28/28] fix: narrow table columns keep their bits when sent to
 the PandA

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index d58fc5b..f9bb21c 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -115,9 +115,11 @@ class PandATablePart(PandAFieldPart):
             else:
                 # Array, unwrap to get the numpy array
                 column_value = column_value.seq
-            # Left shift the value so it is aligned with the int columns
+            # Left shift the value so it is aligned with the int columns, at full
+            # width so narrow columns don't lose the bits shifted out of them
             _, mask = get_nbits_mask(field_data)
-            shifted_column = (column_value & mask) << field_data.bits_lo % 32
+            masked_column = (column_value & mask).astype(np.uint32)
+            shifted_column = masked_column << field_data.bits_lo % 32
             # Or it with what we currently have
             column_index = get_column_index(field_data)
             int_matrix[..., column_index] |= shifted_column.astype(np.uint32)
-- 
2.43.0


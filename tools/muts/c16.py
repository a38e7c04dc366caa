W="malcolm/modules/web/controllers/websocketclientcomms.py"
V="malcolm/modules/pva/controllers/pvaclientcomms.py"
P="malcolm/modules/builtin/controllers/proxycontroller.py"
M="malcolm/core/models.py"
MUTS=[
("same-id",W,'        self._next_id += 1\n','        self._next_id += 0\n'),
("id-len",W,'        request.id = self._next_id\n','        request.id = len(self._request_lookup)\n'),
("record-late",W,[(W,'        self._request_lookup[request.id] = request\n        try:','        try:'),(W,'            self._conn.write_message(message)\n','            self._conn.write_message(message)\n            self._request_lookup[request.id] = request\n')]),
("unsent-silent",W,'            cothread.Callback(request.callback, error)\n','            self.log.debug("%s", error)\n'),
("unsent-kept",W,'            self._request_lookup.pop(request.id, None)\n',''),
("encode-outside",W,'        try:\n            message = json_encode(request)\n            self.log.debug("Sending','        message = json_encode(request)\n        try:\n            self.log.debug("Sending'),
("return-kept",W,'            if isinstance(response, (Return, Error)):\n                request = self._request_lookup.pop(response.id)\n                if','            if isinstance(response, (Return, Error)):\n                request = self._request_lookup[response.id]\n                if'),
("update-popped",W,'                request = self._request_lookup[response.id]\n','                request = self._request_lookup.pop(response.id)\n'),
("only-error-popped",W,'            if isinstance(response, (Return, Error)):','            if isinstance(response, Error):'),
("error-str",W,'                    response.message = ResponseError(response.message)\n','                    response.message = str(response.message)\n'),
("raise-handled",W,'        except Exception:\n            # If we','        except KeyError:\n            # If we'),
("fault-stops",W,'            try:\n                request.callback(response)\n            except Exception:\n                # Most things will error here, not really a problem\n                self.log.debug("Callback %s raised", request.callback)\n','            request.callback(response)\n'),
("fault-breaks",W,'                self.log.debug("Callback %s raised", request.callback)\n','                self.log.debug("Callback %s raised", request.callback)\n                break\n'),
("fault-kept",W,'            request = self._request_lookup.pop(id)\n            response = Error(','            request = self._request_lookup[id]\n            response = Error('),
("fault-id",W,'                id=request.id, message=ResponseError("Server','                id=0, message=ResponseError("Server'),
("fault-str",W,'message=ResponseError("Server disconnected")','message="Server disconnected"'),
("fault-noput",W,'        self._connected_queue.put(None)\n        for','        for'),
("fault-always",W,'            if self.state.value != self.state_set.DISABLING:\n                self.transition','            if True:\n                self.transition'),
("noconn-none",W,'                self._conn = None\n                cothread.Callback(self._report_fault)\n','                cothread.Callback(self._report_fault)\n'),
("stale-queue",W,'            self._connected_queue = Queue()\n            IOLoop','            IOLoop'),
("sub-before-conn",W,[(W,'            self._connected_queue.get(timeout=self.connect_timeout)\n            root','            root'),(W,'            IOLoopHelper.call(self._send_request, root_subscribe)\n','            IOLoopHelper.call(self._send_request, root_subscribe)\n            self._connected_queue.get(timeout=self.connect_timeout)\n')]),
("put-noraise",W,'        if isinstance(response, Error):\n            raise response.message\n        else:\n            return response.value\n\n    def send_post','        return response.value\n\n    def send_post'),
("put-path",W,'path=[mri, attribute_name, "value"]','path=[mri, attribute_name]'),
("post-params",W,'parameters=params)','parameters={k: v for k, v in params.items() if v})'),
("sync-error",W,'                done_queue.put(None)\n            else','                pass\n            else'),
("sync-nodelta",W,'Subscribe(path=[mri], delta=True)','Subscribe(path=[mri])'),
("handle-noput",W,'            raise\n        finally:\n            done_queue.put(None)\n','            raise\n        done_queue.put(None)\n'),
("handle-first",W,'                for change in response.changes:\n','                for change in response.changes[:1]:\n'),
("handle-notsq",W,'            with self.changes_squashed:\n                for change','            if True:\n                for change'),
("change-nodelete",W,'                # Delete a field\n                block.remove_endpoint(path[0])\n','                pass\n'),
("change-delete-all",W,'            if len(change) == 1:\n','            if len(change) == 1 or not change[1]:\n'),
("change-health",W,'            elif','            elif') if 0 else ("change-own",W,'        elif len(path) == 1 and path[0] not in ("health", "meta"):','        elif len(path) == 1 and path[0] not in ("health", "meta", "label"):'),
("change-noargs",W,'            block.apply_change(path, *change[1:])\n','            block.apply_change(path[1:], *change[1:])\n'),
("regen-keeps",W,'        for field in list(block):\n            if field not in ("health", "meta"):\n                block.remove_endpoint(field)\n','        for field in list(block):\n            if field not in d and field not in ("health", "meta"):\n                block.remove_endpoint(field)\n'),
("regen-nohealth",W,'value=value.value, alarm=value.alarm, ts=value.timeStamp','value=value.value, ts=value.timeStamp'),
("regen-meta",W,'                for k in meta.call_types:\n','                for k in ("label", "fields"):\n'),
("regen-skip",W,'            elif field != "typeid":\n','            elif field != "typeid" and value:\n'),
("pva-noclear",V,'                    update_fields.clear()\n',''),
("pva-nohealth",V,'                        alarm=Alarm.disconnected("pvAccess disconnected"),\n',''),
("pva-error-clears",V,'                if isinstance(value, Disconnected):\n','                if not isinstance(value, Disconnected):\n'),
("pva-noput",V,'                        done_queue.put(None)\n',''),
("pva-nofollow",V,'            # Update the list of fields\n            self._update_settable_fields(update_fields, k, block[k])\n','                self._update_settable_fields(update_fields, k, block[k])\n'),
("pva-update-raw",V,'            block.apply_change(k.split("."), v)\n','            block.apply_change(k.split("."), value)\n'),
("pva-put-swallow",V,'                # Not expected, raise\n                raise\n','                self.log.warning("put failed")\n'),
("pva-put-nototal",V,'        path = attribute_name + ".value"\n','        path = "value"\n'),
("pva-post-noreturn",V,'        return convert_value_to_dict(value)\n','        return convert_value_to_dict(uri)\n'),
("pva-post-timeout",V,'uri, timeout=None)','uri)'),
("proxy-swap",P,'self.client_comms.send_put, self.mri','self.client_comms.send_post, self.mri'),
("proxy-publish",P,'        if not self.publish:\n','        if self.publish:\n'),
("model-ts",M,'            self.set_value(args[0], set_alarm_ts=False)\n','            self.set_value(args[0])\n'),
("model-col",M,'            value[path[1]] = args[0]\n','            value = {path[1]: args[0]}\n'),
("model-col-only1",M,'        if len(path) == 2 and path[0] == "value" and args:','        if path == ["value"] and args:'),
("model-map",M,'            if isinstance(child, dict):\n                # This is','            if isinstance(child, Model):\n                # This is'),
("model-map-key",M,'                child = child[path[0]]\n                path = path[1:]\n','                child = child[path[0]]\n'),
("model-setter",M,'        return self.set_endpoint_data("limitHigh", ','        return self.set_endpoint_data("limitLow", '),
("model-alarm",M,'            alarm = deserialize_object(alarm, Alarm)\n        return self.set_endpoint_data("alarm", alarm)','            alarm = deserialize_object(alarm, Alarm)\n        if alarm is self.__dict__.get("alarm"):\n            return alarm\n        return self.set_endpoint_data("timeStamp", alarm)'),
("=send-local",W,'        request.id = self._next_id\n        self._next_id += 1\n        self._request_lookup[request.id] = request\n','        new_id = self._next_id\n        self._next_id = new_id + 1\n        request.id = new_id\n        self._request_lookup[new_id] = request\n'),
("=send-helper",W,[(W,'            self._request_lookup.pop(request.id, None)\n            error = Error(\n                id=request.id, message=ResponseError(f"Request not sent: {e}")\n            )\n            cothread.Callback(request.callback, error)\n','            self._give_up(request, f"Request not sent: {e}")\n\n    def _give_up(self, request, text):\n        self._request_lookup.pop(request.id, None)\n        cothread.Callback(\n            request.callback, Error(id=request.id, message=ResponseError(text))\n        )\n')]),
("=fault-while",W,'        for id in list(self._request_lookup):\n            request = self._request_lookup.pop(id)\n','        outstanding = list(self._request_lookup.values())\n        self._request_lookup.clear()\n        for request in outstanding:\n'),
("=handle-else",W,'        if isinstance(response, Error):\n            raise response.message\n        else:\n            return response.value\n\n    def send_post','        if isinstance(response, Error):\n            raise response.message\n        return response.value\n\n    def send_post'),
("=ask-helper",W,[(W,'        q = Queue()\n        request = Put(path=[mri, attribute_name, "value"], value=value)\n        request.set_callback(q.put)\n        IOLoopHelper.call(self._send_request, request)\n        response = q.get()\n        if isinstance(response, Error):\n            raise response.message\n        else:\n            return response.value\n','        return self._ask(Put(path=[mri, attribute_name, "value"], value=value))\n\n    def _ask(self, request):\n        q = Queue()\n        request.set_callback(q.put)\n        IOLoopHelper.call(self._send_request, request)\n        response = q.get()\n        if isinstance(response, Error):\n            raise response.message\n        else:\n            return response.value\n')]),
("=on-message-split",W,'            if isinstance(response, (Return, Error)):\n                request = self._request_lookup.pop(response.id)\n                if isinstance(response, Error):\n                    # Make the message an exception so it can be raised\n                    response.message = ResponseError(response.message)\n            else:\n                request = self._request_lookup[response.id]\n','            request = self._request_lookup[response.id]\n            if isinstance(response, (Return, Error)):\n                del self._request_lookup[response.id]\n            if isinstance(response, Error):\n                response.message = ResponseError(response.message)\n'),
("=change-flat",W,'        path = change[0]\n        if len(path) == 0:\n','        path = change[0]\n        if not path:\n'),
("=change-two",W,'            if len(change) == 1:\n                # Delete a field\n                block.remove_endpoint(path[0])\n            else:\n                # Change a single field of the block\n                block.set_endpoint_data(path[0], change[1])\n','            field = path[0]\n            if len(change) == 2:\n                block.set_endpoint_data(field, change[1])\n            else:\n                block.remove_endpoint(field)\n'),
("=regen-tuple",W,'        for field in list(block):\n            if field not in ("health", "meta"):\n                block.remove_endpoint(field)\n','        for field in list(block):\n            if field == "health" or field == "meta":\n                continue\n            block.remove_endpoint(field)\n'),
("=regen-old-helper",V,[(V,'        for field in list(block):\n            if field not in ("health", "meta"):\n                block.remove_endpoint(field)\n','        self._clear(block)\n'),(V,'    def _update_block(','    def _clear(self, block):\n        for field in [f for f in block if f not in ("health", "meta")]:\n            block.remove_endpoint(field)\n\n    def _update_block(')]),
("=pva-early",V,'            if isinstance(value, Exception):\n                # Disconnect or Cancelled or RemoteError\n                if isinstance(value, Disconnected):\n                    # We will get a reconnect with a whole new structure\n                    update_fields.clear()\n                    block.health.set_value(\n                        value="pvAccess disconnected",\n                        alarm=Alarm.disconnected("pvAccess disconnected"),\n                    )\n            else:\n','            if isinstance(value, Disconnected):\n                update_fields.clear()\n                block.health.set_value(\n                    value="pvAccess disconnected",\n                    alarm=Alarm.disconnected("pvAccess disconnected"),\n                )\n            elif isinstance(value, Exception):\n                self.log.debug("%s", value)\n            else:\n'),
("=model-loop",M,'            child = self[path[0]]\n            path = path[1:]\n            if isinstance(child, dict):\n                # This is for one of the Models in a mapping\n                child = child[path[0]]\n                path = path[1:]\n            child.apply_change(path, *args)\n','            name, rest = path[0], path[1:]\n            child = self[name]\n            if isinstance(child, dict):\n                child, rest = child[rest[0]], rest[1:]\n            child.apply_change(rest, *args)\n'),
("=model-dict",M,'            value = {k: self.value[k] for k in self.value}\n            value[path[1]] = args[0]\n','            value = dict((k, self.value[k]) for k in self.value)\n            value.update({path[1]: args[0]})\n'),
]

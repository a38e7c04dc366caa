W="malcolm/modules/web/parts/websocketserverpart.py"
R="malcolm/modules/web/parts/restfulserverpart.py"
H="malcolm/modules/web/controllers/httpservercomms.py"
B="malcolm/modules/builtin/controllers/servercomms.py"
V="malcolm/modules/pva/controllers/pvaservercomms.py"
PC="malcolm/modules/pva/controllers/pvaconvert.py"
WS=W
MUTS=[
("ws-keep-early",W,'            if isinstance(request, Unsubscribe):\n                mri =','            if isinstance(request, Subscribe):\n                self._id_to_mri[msg_id] = request.path[0]\n            if isinstance(request, Unsubscribe):\n                mri ='),
("ws-put-only",W,'            if isinstance(request, (Put, Post)) and','            if isinstance(request, Put) and'),
("ws-noerrorid",W,'            error = Error(msg_id, e)\n','            error = Error(-1, e)\n'),
("ws-noanswer",W,'            self.write_message(json_encode(error_message))\n\n','            if msg_id != -1:\n                self.write_message(json_encode(error_message))\n\n'),
("ws-only-valueerror",W,'        except Exception as e:\n            log.exception("Error handling','        except (ValueError, FieldError, AssertionError, KeyError) as e:\n            log.exception("Error handling'),
("ws-nocallback",W,'            request.set_callback(self.on_response)\n            if isinstance(request, Subscribe):\n','            if not isinstance(request, Unsubscribe):\n                request.set_callback(self.on_response)\n            if isinstance(request, Subscribe):\n'),
("ws-no-dup",W,'                assert msg_id not in self._id_to_mri, (\n                    "Duplicate subscription ID %d" % msg_id\n                )\n','                pass\n'),
("ws-unsub-get",W,'                mri = self._id_to_mri.pop(msg_id)\n','                mri = self._id_to_mri[msg_id]\n'),
("ws-check-late",W,[(W,'            if isinstance(request, (Put, Post)) and not self._writeable:\n                raise ValueError(f"Put/Post is forbidden from {self.request.remote_ip}")\n',''),(W,'                self._id_to_mri[msg_id] = mri\n        except','                self._id_to_mri[msg_id] = mri\n            if isinstance(request, (Put, Post)) and not self._writeable:\n                raise ValueError(f"Put/Post is forbidden from {self.request.remote_ip}")\n        except')]),
("ws-validators-min",W,'max(v(remoteaddr)','min(v(remoteaddr)'),
("ws-validators-first",W,'max(v(remoteaddr) for v in self._validators)','self._validators[0](remoteaddr)'),
("ws-noqueue",W,'            cothread.Callback(self._queue.put, None)\n','            if not isinstance(response, Delta):\n                cothread.Callback(self._queue.put, None)\n'),
("ws-notfinally",W,'        finally:\n            assert self._queue, "No queue"\n            cothread.Callback(self._queue.put, None)\n','        else:\n            assert self._queue, "No queue"\n            cothread.Callback(self._queue.put, None)\n'),
("ws-dead-delta-only",W,'            if isinstance(response, (Delta, Update)):\n','            if isinstance(response, Delta):\n'),
("ws-dead-nopop",W,'self._id_to_mri.pop(response.id, None)','self._id_to_mri.get(response.id)'),
("ws-dead-noid",W,'                    unsubscribe = Unsubscribe(response.id)\n','                    unsubscribe = Unsubscribe()\n'),
("rest-nostatus",R,'            self.set_status(500, message)\n','            self.set_status(200, message)\n'),
("rest-silent",R,'            self.write_error(500)\n','            if message:\n                self.write_error(500)\n'),
("rest-swap",R,'                message = str(response.message)\n','                message = str(response.id)\n'),
("rest-nocallback",R,'        request.set_callback(self.queue_response)\n        mri = request.path[0]\n        self._registrar','        mri = request.path[0]\n        self._registrar'),
("rest-mri",R,'        mri = request.path[0]\n','        mri = request.path[-1]\n'),
("http-self",H,'        if info.mri == ".":\n','        if info.mri in (".", ""):\n            return\n        if info.mri == ".":\n'),
("pva-put-noerror",V,'                    message = f"BadResponse: {response.to_dict()}"\n                op.done(error=message)\n\n        put','                    message = f"BadResponse: {response.to_dict()}"\n                    op.done(error=message)\n\n        put'),
("pva-put-two",V,'            len(value_changed) == 1\n','            len(value_changed) >= 1\n'),
("pva-put-wrongfield",V,'            op_value = op.value()[split[0]]\n','            op_value = op.value()\n'),
("pva-rpc-nowrap",V,'                if add_wrapper:\n','                if add_wrapper and response.value:\n'),
("pva-rpc-falsy",V,'                op.done(v)\n            else:\n','                if ret:\n                    op.done(v)\n            else:\n'),
("pva-rpc-notmethod",V,'        assert isinstance(\n            view, Method\n        ), "%s.%s is not a Method so cannot do RPC" % tuple(path)\n',''),
("pva-deleted",V,'            assert len(change) == 2, f"Path {change[0]} deleted"\n','            if len(change) != 2:\n                continue\n'),
("pva-root",V,'            assert len(change[0]) > 0, "Can\'t handle root update %s after initial" % (\n                change,\n            )\n','            if not change[0]:\n                continue\n'),
("pva-nounmark",V,'        self.value.unmark()\n        assert delta','        assert delta'),
("pva-unmark-late",V,[(V,'        self.value.unmark()\n        assert delta','        assert delta'),(V,'        # No type change, post','        self.value.unmark()\n        # No type change, post')]),
("pva-noclose",V,'                    self.pv.close()\n\n    def _create','                    if self.value is not None:\n                        self.pv.close()\n\n    def _create'),
("pva-value-kept",V,'            self.pv = None\n            self.value = None\n','            self.pv = None\n'),
("pva-first-notlast",V,'        with self._lock:\n            self.pv = pv\n        path =','        path ='),
("pva-channel-key",V,'                pvs[field] = pv\n','                pvs[channel_name] = pv\n'),
("pva-split",V,'            mri, field = channel_name.rsplit(".", 1)\n        else:\n            raise','            mri, field = channel_name.split(".", 1)\n        else:\n            raise'),
("pva-test-any",V,'            return mri in self._published\n','            return field in self._published\n'),
("pva-publish-add",V,'        self._published = set(published)\n','        self._published |= set(self._pvs)\n'),
("pva-publish-wrong",V,'[mri for mri in self._pvs if mri not in published]','[mri for mri in self._pvs if mri in published]'),
("=pva-rpartition",V,'            mri, field = channel_name.rsplit(".", 1)\n        else:\n            raise','            mri, _, field = channel_name.rpartition(".")\n        else:\n            raise'),
("=pva-getpv",V,'            try:\n                pv = pvs[field]\n            except KeyError:\n','            pv = pvs.get(field)\n            if pv is None:\n'),
("=ws-any",W,'max(v(remoteaddr)','any(v(remoteaddr)'),
("=ws-writeok",W,'            if isinstance(request, (Put, Post)) and not self._writeable:\n                raise ValueError(f"Put/Post is forbidden from {self.request.remote_ip}")\n','            if not self._writeable and (\n                isinstance(request, Put) or isinstance(request, Post)\n            ):\n                raise ValueError(f"Put/Post is forbidden from {self.request.remote_ip}")\n'),
("=ws-helper",W,[(W,'            error = Error(msg_id, e)\n            error_message = error.to_dict()\n            self.write_message(json_encode(error_message))\n','            self._send_error(msg_id, e)\n\n    def _send_error(self, msg_id, e):\n        error = Error(msg_id, e)\n        self.write_message(json_encode(error.to_dict()))\n')]),
("=ws-early-return",W,'                mri = self._id_to_mri.pop(response.id, None)\n                if mri:\n                    log.info("WebSocket Error: unsubscribing from stale handle")\n                    unsubscribe = Unsubscribe(response.id)\n                    unsubscribe.set_callback(self.on_response)\n                    if self._registrar:\n                        self._registrar.report(\n                            builtin.infos.RequestInfo(unsubscribe, mri)\n                        )\n','                mri = self._id_to_mri.pop(response.id, None)\n                if mri is None:\n                    return\n                unsubscribe = Unsubscribe(response.id)\n                unsubscribe.set_callback(self.on_response)\n                if self._registrar:\n                    self._registrar.report(builtin.infos.RequestInfo(unsubscribe, mri))\n'),
("=ws-helper-dead",W,[(W,'                mri = self._id_to_mri.pop(response.id, None)\n                if mri:\n                    log.info("WebSocket Error: unsubscribing from stale handle")\n                    unsubscribe = Unsubscribe(response.id)\n                    unsubscribe.set_callback(self.on_response)\n                    if self._registrar:\n                        self._registrar.report(\n                            builtin.infos.RequestInfo(unsubscribe, mri)\n                        )\n','                self._drop(response.id)\n'),(W,'    def _on_response(self','    def _drop(self, sid):\n        mri = self._id_to_mri.pop(sid, None)\n        if mri and self._registrar:\n            unsubscribe = Unsubscribe(sid)\n            unsubscribe.set_callback(self.on_response)\n            self._registrar.report(builtin.infos.RequestInfo(unsubscribe, mri))\n\n    def _on_response(self')]),
("=rest-inline",R,[(R,'        if isinstance(response, Return):\n            message = json_encode(response.value)\n            self.finish(message + "\\n")\n        else:\n            if isinstance','        if isinstance(response, Return):\n            self.finish(json_encode(response.value) + "\\n")\n            return\n        if True:\n            if isinstance')]),
("=pva-put-respond",V,[(V,'        def handle_put_response(response: Response) -> None:\n            if isinstance(response, Return):\n                op.done()\n            else:\n                if isinstance(response, Error):\n                    message = stringify_error(response.message)\n                else:\n                    message = f"BadResponse: {response.to_dict()}"\n                op.done(error=message)\n','        def handle_put_response(response: Response) -> None:\n            if isinstance(response, Return):\n                op.done()\n            elif isinstance(response, Error):\n                op.done(error=stringify_error(response.message))\n            else:\n                op.done(error=f"BadResponse: {response.to_dict()}")\n')]),
("=pva-message-helper",V,[(V,'                if isinstance(response, Error):\n                    message = stringify_error(response.message)\n                else:\n                    message = f"BadResponse: {response.to_dict()}"\n                op.done(error=message)\n\n        put','                op.done(error=self._message(response))\n\n        put'),(V,'    def put(self','    @staticmethod\n    def _message(response):\n        if isinstance(response, Error):\n            return stringify_error(response.message)\n        return f"BadResponse: {response.to_dict()}"\n\n    def put(self')]),
("=pva-changed-next",V,'        changed = list(value_changed)[0]\n','        (changed,) = value_changed\n'),
("=pva-handle-guard",V,'            if self.pv:\n                # onFirst','            if self.pv is not None:\n                # onFirst'),
("=pva-update-order",V,[(V,'        self.value.unmark()\n        assert delta.changes, "No Delta changes"\n','        assert delta.changes, "No Delta changes"\n        self.value.unmark()\n')]),
("=http-tern",H,'        if info.mri == ".":\n            # This is for us\n            controller = self\n        else:\n            assert self.process, "No attached process"\n            controller = self.process.get_controller(info.mri)\n        cothread','        if info.mri != ".":\n            assert self.process, "No attached process"\n            controller = self.process.get_controller(info.mri)\n        else:\n            controller = self\n        cothread'),
    # values
    ("pc letters swapped", PC, "    np.uint16: \"H\",", "    np.uint16: \"h\","),
    ("pc typeid lost", PC, "        d[\"typeid\"] = typeid\n", "        pass\n"),
    ("pc labels ignored everywhere", PC, "if typeid == NTTable.typeid and name == \"labels\":", "if name == \"labels\":"),
    ("pc nttable value dropped", PC, "if typeid == NTTable.typeid and name == \"labels\":", "if typeid == NTTable.typeid:"),
    ("pc av not converted", PC, "        return [convert_value_to_dict(v) for v in val]", "        return list(val)"),
    ("pc alarm after enum", PC, [(PC, "    elif isinstance(value, (AlarmSeverity, AlarmStatus)):\n        spec = \"i\"\n        value_for_set = value.value\n", ""), (PC, "    elif isinstance(value, str):", "    elif isinstance(value, (AlarmSeverity, AlarmStatus)):\n        spec = \"i\"\n        value_for_set = value.value\n    elif isinstance(value, str):")]),
    ("pc only severity", PC, "isinstance(value, (AlarmSeverity, AlarmStatus))", "isinstance(value, AlarmSeverity)"),
    ("pc enum names", PC, "value_for_set = [x.value for x in value.seq]", "value_for_set = [x.name for x in value.seq]"),
    ("pc label always name", PC, "                if column_meta[\"label\"]:\n                    labels.append(column_meta[\"label\"])\n                else:\n                    labels.append(column_name)", "                labels.append(column_name)"),
    ("pc typeid dropped in spec", PC, "spec = (\"S\", typeid, fields)", "spec = (\"S\", \"structure\", fields)"),
    ("pc field first set", PC, "value[path[-1]] = update", "value[path[0]] = update"),
    ("pc walks too far", PC, "    for p in path[:-1]:\n", "    for p in path:\n"),
    ("pc raw update", PC, "    _, update = convert_to_type_tuple_value(update)\n", ""),
    ("pc netmask one side", WS, "remoteaddr & ifnetmask == ifaddr & ifnetmask", "remoteaddr & ifaddr == ifaddr & ifnetmask"),
    ("pc netmask or", WS, "remoteaddr & ifnetmask == ifaddr & ifnetmask", "(remoteaddr & ifnetmask) <= ifaddr"),
    ("=pc netmask xor", WS, "remoteaddr & ifnetmask == ifaddr & ifnetmask", "not ((remoteaddr ^ ifaddr) & ifnetmask)"),
    ("=pc alarm and enum nested", PC, "    elif isinstance(value, (AlarmSeverity, AlarmStatus)):\n        spec = \"i\"\n        value_for_set = value.value\n    elif isinstance(value, Enum):\n        spec = \"s\"\n        value_for_set = value.value\n", "    elif isinstance(value, Enum):\n        is_alarm = isinstance(value, (AlarmSeverity, AlarmStatus))\n        spec = \"i\" if is_alarm else \"s\"\n        value_for_set = value.value\n"),
    ("=pc early returns", PC, "    elif isinstance(value, str):\n        spec = \"s\"\n        value_for_set = value\n    else:", "    elif isinstance(value, str):\n        return \"s\", value\n    else:"),
    ("=pc label or name", PC, "                if column_meta[\"label\"]:\n                    labels.append(column_meta[\"label\"])\n                else:\n                    labels.append(column_name)", "                labels.append(column_meta[\"label\"] or column_name)"),
    ("=pc items loop", PC, "        for k in value:\n            if k != \"typeid\":\n                t, v_set = convert_to_type_tuple_value(value[k])\n                fields.append((k, t))\n                value_for_set[k] = v_set", "        for k in value:\n            if k == \"typeid\":\n                continue\n            converted = convert_to_type_tuple_value(value[k])\n            fields.append((k, converted[0]))\n            value_for_set[k] = converted[1]"),
    ("=pc comprehension", PC, "    for name, spec in v.type().items():\n        if typeid == NTTable.typeid and name == \"labels\":\n            # NTTable might give us labels, ignore them\n            continue\n        d[name] = convert_from_type_spec(spec, v[name])", "    is_table = typeid == NTTable.typeid\n    for name, spec in v.type().items():\n        # NTTable might give us labels, ignore them\n        if not (is_table and name == \"labels\"):\n            d[name] = convert_from_type_spec(spec, v[name])"),
    ("=pc walk by index", PC, "    for p in path[:-1]:\n        value = value[p]\n    _, update = convert_to_type_tuple_value(update)\n    value[path[-1]] = update", "    *parents, last = path\n    for p in parents:\n        value = value[p]\n    value[last] = convert_to_type_tuple_value(update)[1]"),
]

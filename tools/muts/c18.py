U = "malcolm/modules/ca/util.py"
D = "malcolm/modules/ca/parts/"
MUTS = [
    ("no callback", U, "        if self._user_callback is not None:\n            self._user_callback(value)\n", ""),
    ("callback only when ok", U, "if self._user_callback is not None:", "if self._user_callback is not None and value.ok:"),
    ("not ok inverted", U, "        if not value.ok:\n", "        if value.ok is None:\n"),
    ("no alarm on disconnect", U, "self.attr.value, alarm=Alarm.disconnected(\"PV disconnected\")", "self.attr.value"),
    ("invalid on disconnect", U, "Alarm.disconnected(\"PV", "Alarm.invalid(\"PV"),
    ("severity ignored", U, "if value.severity:", "if value.severity > 1:"),
    ("wrong severity", U, "severity=value.severity,", "severity=AlarmSeverity.MAJOR_ALARM,"),
    ("no timestamp", U, "ts = TimeStamp(*getattr(value, \"raw_stamp\", (None, None)))", "ts = TimeStamp()"),
    ("not validated", U, "            value = self.attr.meta.validate(value)\n", ""),
    ("swapped alarm", U, "set_value_alarm_ts(value, alarm, ts)", "set_value_alarm_ts(value, Alarm.ok, ts)"),
    ("update dropped in window", U, """        else:
            self._update_value(value)
        # See""", """        elif delta >= 0:
            self._update_value(value)
        # See"""),
    ("sleep first", U, """        now = time.time()
        delta = now - self._update_after
        if value_index""", """        now = time.time()
        delta = now - self._update_after
        if delta < 0:
            sleep(-delta)
        if value_index"""),
    ("wrong column", U, "self._local_value[value_key] = value", "self._local_value[self.name_list[0]] = value"),
    ("table old stamp", U, "            self._local_value.raw_stamp = getattr(value, \"raw_stamp\", (None, None))\n", ""),
    ("table ok any", U, "self.ok = all(", "self.ok = any("),
    ("table severity min", U, "self.severity = max(", "self.severity = min("),
    ("table status not updated", U, "            self._local_value.update_status()\n            self._update_value(self._local_value)", "            self._update_value(self._local_value)"),
    ("monitor not closed", U, "                self.monitor.close()\n            self.monitor", "                pass\n            self.monitor"),
    ("only first closed", U, "                for monitor in self.monitor:\n                    monitor.close()", "                self.monitor[0].close()"),
    ("monitor kept", U, "                self.monitor.close()\n            self.monitor = None", "                self.monitor.close()"),
    ("reconnect leaks", U, """        # release old monitor
        self.disconnect()
        # make the connection in cothread's thread, use caget for initial value""", ""),
    ("reads only rbv", U, "        if self.pv and self.pv != self.rbv:\n            pvs.append(self.pv)\n", ""),
    ("reads pv first", U, "pvs.append(self.pv)", "pvs.insert(0, self.pv)"),
    ("not asserted", U, """                throw=self.throw,
            ),
            self.throw,
        )

        if self.on_connect and""", """                throw=self.throw,
            ),
            False,
        )

        if self.on_connect and"""),
    ("on_connect always", U, "if self.on_connect and ca_values[0].ok:", "if self.on_connect:"),
    ("on_connect after update", U, "            self.on_connect(ca_values[0])\n        self._update_value(ca_values[0])", "            pass\n        self._update_value(ca_values[0])\n        if self.on_connect and ca_values[0].ok:\n            self.on_connect(ca_values[0])"),
    ("shows demand", U, "self._update_value(ca_values[0])", "self._update_value(ca_values[-1])"),
    ("monitors pv", U, "            self.rbv,\n            self._monitor_callback", "            self.pv or self.rbv,\n            self._monitor_callback"),
    ("no notify disconnect", U, """            self.rbv,
            self._monitor_callback,
            format=catools.FORMAT_TIME,
            datatype=self.datatype,
            notify_disconnect=True,""", """            self.rbv,
            self._monitor_callback,
            format=catools.FORMAT_TIME,
            datatype=self.datatype,"""),
    ("monitor not stored", U, "        # now setup monitor on rbv\n        self.monitor = catools", "        # now setup monitor on rbv\n        self._monitor = catools"),
    ("put no wait", U, "wait=True, timeout=timeout", "wait=self.timeout > 0, timeout=timeout"),
    ("put rbv", U, "            self.pv, value, wait", "            self.rbv, value, wait"),
    ("timeout zero forever", U, "if self.timeout < 0:", "if self.timeout <= 0:"),
    ("read back pv", U, "            self.rbv,\n            format=catools.FORMAT_TIME,\n            datatype=self.datatype,\n            throw", "            self.pv,\n            format=catools.FORMAT_TIME,\n            datatype=self.datatype,\n            throw"),
    ("no read back", U, "        self._update_value(value)\n\n\nclass CATable", "        self.attr.set_value(value)\n\n\nclass CATable"),
    ("readonly writeable", U, "        else:\n            writeable_func = None\n", ""),
    ("reset not hooked", U, "(builtin.hooks.InitHook, builtin.hooks.ResetHook), self.reconnect", "builtin.hooks.InitHook, self.reconnect"),
    ("disable not hooked", U, "        register_hooked(builtin.hooks.DisableHook, self.disconnect)\n", ""),
    ("args swapped", U, """            timeout,
            sink_port,
            widget,
            group,
            config,
            on_connect,
            throw,
            callback,
            port_badge,
        )
        if not rbv""", """            timeout,
            sink_port,
            group,
            widget,
            config,
            on_connect,
            throw,
            callback,
            port_badge,
        )
        if not rbv"""),
    ("suffix ignored", U, "rbv = pv + rbv_suffix", "rbv = pv"),
    ("suffix on rbv", U, "        if not rbv:\n            if rbv_suffix:", "        if not rbv or rbv_suffix:\n            if rbv_suffix:"),
    ("assert first only", U, "for v in ca_values:\n            assert", "for v in ca_values[:1]:\n            assert"),
    ("table monitors first", U, "            self.pv_list,\n            self._monitor_callback", "            self.pv_list[0],\n            self._monitor_callback"),
    ("action no close", D + "caactionpart.py", "        finally:\n            m.close()", "        finally:\n            pass"),
    ("action close on return", D + "caactionpart.py", """                    if status == self.good_status:
                        return status
        finally:
            m.close()""", """                    if status == self.good_status:
                        m.close()
                        return status
        finally:
            pass"""),
    ("action first value", D + "caactionpart.py", "                    if status == self.good_status:\n                        return status", "                    return status"),
    ("action no assert w/o message", D + "caactionpart.py", """            else:
                message = ""
            assert (""", """            else:
                return
            assert ("""),
    ("action timeout ok", D + "caactionpart.py", "status == self.good_status\n            ), ", "status in (self.good_status, None)\n            ), "),
    ("action status first", D + "caactionpart.py", "        util.catools.caput(self.pv, self.value, wait=self.wait, timeout=None)\n        if self.status_pv:", "        if self.wait:\n            util.catools.caput(self.pv, self.value, wait=self.wait, timeout=None)\n        if self.status_pv:"),
    ("action swallow", D + "caactionpart.py", "            if self.throw:\n                raise e\n            else:", "            if self.throw and self.status_pv:\n                raise e\n            else:"),
    ("action break", D + "caactionpart.py", "                    raise AssertionError(\"CA connect failed\")", "                    break"),
    ("choice puts string", D + "cachoicepart.py", "self.register_hooked, self.caput", "self.register_hooked"),
    ("choice no choices", D + "cachoicepart.py", "            config,\n            self.on_connect,", "            config,"),
    ("choice swapped", D + "cachoicepart.py", "            pv,\n            rbv,\n", "            rbv,\n            pv,\n"),
    ("boolean raw", D + "cabooleanpart.py", "self.caa.caput(int(value))", "self.caa.caput(value)"),
    ("double long", D + "cadoublepart.py", "DBR_DOUBLE,", "DBR_LONG,"),
    ("long float", D + "calongpart.py", "\"int32\"", "\"float64\""),
    ("display swapped", D + "cadoublearraypart.py", "limitLow=connected_pv.lower_disp_limit", "limitLow=connected_pv.upper_disp_limit"),
    ("display always", D + "cadoublepart.py", "if self.display_from_pv:", "if self.caa.attr:"),
    ("array seq", D + "calongarraypart.py", "        if isinstance(value, Array):\n", "        if len(value):\n"),
    ("array no caput", D + "calongarraypart.py", "self.register_hooked, self.caput", "self.register_hooked"),
    ("throw dropped", D + "castringpart.py", "            throw=throw,\n", ""),
    ("timeout min_delta", D + "cachararraypart.py", "            min_delta,\n            timeout,\n", "            timeout,\n            min_delta,\n"),
    ("table display first", D + "cawaveformtablepart.py", "self.name_list[el[0]]", "self.name_list[0]"),
    ("table names", D + "cawaveformtablepart.py", "            pv_list,\n            name_list,\n", "            name_list,\n            pv_list,\n"),
    ("dirparse forgets", "malcolm/modules/system/parts/dirparsepart.py", "        self.dir2_pv.disconnect()\n", ""),
    ("dirparse no reset", "malcolm/modules/system/parts/dirparsepart.py", "(hooks.InitHook, hooks.ResetHook), self.reconnect", "hooks.InitHook, self.reconnect"),
    ("=early return", U, """        if not value.ok:
            self.attr.set_value(
                self.attr.value, alarm=Alarm.disconnected("PV disconnected")
            )
        else:
            if value.severity:
                alarm = Alarm(
                    severity=value.severity,
                    status=AlarmStatus.RECORD_STATUS,
                    message="PV in alarm state",
                )
            else:
                alarm = Alarm.ok
            # We only have a raw_stamp attr on monitor, the initial
            # caget with CTRL doesn't give us a timestamp
            ts = TimeStamp(*getattr(value, "raw_stamp", (None, None)))
            value = self.attr.meta.validate(value)
            self.attr.set_value_alarm_ts(value, alarm, ts)
""", """        if not value.ok:
            alarm = Alarm.disconnected("PV disconnected")
            self.attr.set_value(self.attr.value, alarm=alarm)
            return
        ts = TimeStamp(*getattr(value, "raw_stamp", (None, None)))
        alarm = self._make_alarm(value)
        new = self.attr.meta.validate(value)
        self.attr.set_value_alarm_ts(new, alarm, ts)

    def _make_alarm(self, value):
        alarm = Alarm.ok
        if value.severity != 0:
            alarm = Alarm(value.severity, AlarmStatus.RECORD_STATUS, "PV in alarm state")
        return alarm
"""),
    ("=monitor split", U, """    def _monitor_callback(self, value, value_index=None):
        now = time.time()
        delta = now - self._update_after
        if value_index is not None and hasattr(self, "name_list"):""", """    def _times(self):
        now = time.time()
        return now - self._update_after, now

    def _monitor_callback(self, value, value_index=None):
        delta, now = self._times()
        is_table = hasattr(self, "name_list") and value_index is not None
        if is_table:"""),
    ("=disconnect early", U, """        if self.monitor is not None:
            if hasattr(self.monitor, "__len__"):
                for monitor in self.monitor:
                    monitor.close()
            else:
                self.monitor.close()
            self.monitor = None
""", """        monitor = self.monitor
        if monitor is None:
            return
        self.monitor = None
        if hasattr(monitor, "__len__"):
            monitors = monitor
        else:
            monitors = [monitor]
        for m in monitors:
            m.close()
"""),
    ("=reconnect helper", U, """    def reconnect(self):
        # release old monitor
        self.disconnect()
        # make the connection in cothread's thread, use caget for initial value
        pvs = [self.rbv]
        if self.pv and self.pv != self.rbv:
            pvs.append(self.pv)
        ca_values = assert_connected(
            catools.caget(
                pvs,
                format=catools.FORMAT_CTRL,
                datatype=self.datatype,
                throw=self.throw,
            ),
            self.throw,
        )

        if self.on_connect and ca_values[0].ok:
            self.on_connect(ca_values[0])
        self._update_value(ca_values[0])
""", """    def _initial(self):
        pvs = [self.rbv]
        if self.pv not in ("", self.rbv):
            pvs.append(self.pv)
        ca_values = catools.caget(
            pvs,
            format=catools.FORMAT_CTRL,
            datatype=self.datatype,
            throw=self.throw,
        )
        assert_connected(ca_values, self.throw)
        return ca_values[0]

    def reconnect(self):
        self.disconnect()
        rbv_value = self._initial()
        if rbv_value.ok and self.on_connect is not None:
            self.on_connect(rbv_value)
        self._update_value(rbv_value)
"""),
    ("=caput ternary", U, """        if self.timeout < 0:
            timeout = None
        else:
            timeout = self.timeout
""", """        timeout = self.timeout if self.timeout >= 0 else None
"""),
    ("=setup rewritten", U, """        if self.writeable:
            if writeable_func is None:
                writeable_func = self.caput
        else:
            writeable_func = None
""", """        if not self.writeable:
            writeable_func = None
        elif writeable_func is None:
            writeable_func = self.caput
"""),
    ("=rbv rewritten", U, """        if not rbv:
            if rbv_suffix:
                rbv = pv + rbv_suffix
            else:
                rbv = pv
""", """        rbv = rbv or pv + rbv_suffix
"""),
    ("=assert rewritten", U, """    if throw:
        for v in ca_values:
            assert v.ok, f"CA connect failed with {v.state_strings[v.state]}"
    return ca_values""", """    if not throw:
        return ca_values
    for v in ca_values:
        if not v.ok:
            raise AssertionError(f"CA connect failed with {v.state_strings[v.state]}")
    return ca_values"""),
    ("=action rewritten", D + "caactionpart.py", """        status = None
        try:
            while True:
                try:
                    status = q.get(deadline - time.time())
                except TimeoutError:
                    return status
                else:
                    if status == self.good_status:
                        return status
        finally:""", """        status = None
        try:
            done = False
            while not done:
                try:
                    status = q.get(deadline - time.time())
                except TimeoutError:
                    break
                done = status == self.good_status
            return status
        finally:"""),
    ("=action caput", D + "caactionpart.py", """        if self.status_pv:
            # Wait""", """        if not self.status_pv:
            return
        else:
            # Wait"""),
    ("=action raise", D + "caactionpart.py", """            assert (
                status == self.good_status
            ), "Status %s:%s while performing 'caput %s %s'" % (
                status,
                message,
                self.pv,
                self.value,
            )""", """            if status != self.good_status:
                raise AssertionError("Status %s:%s" % (status, message))"""),
    ("=choice inline", D + "cachoicepart.py", """        value = self.meta.choices.index(value)
        self.caa.caput(value)""", """        choices = self.meta.choices
        self.caa.caput(choices.index(value))"""),
    ("=keywords", D + "calongpart.py", """            pv,
            rbv,
            rbv_suffix,
            min_delta,
            timeout,
            sink_port,
            widget,
            group,
            config,
""", """            pv=pv,
            rbv=rbv,
            rbv_suffix=rbv_suffix,
            timeout=timeout,
            min_delta=min_delta,
            widget=widget,
            sink_port=sink_port,
            group=group,
            config=config,
"""),
    ("=display early", D + "cadoublepart.py", """        if self.display_from_pv:
            display = Display(""", """        if not self.display_from_pv:
            return
        else:
            display = Display("""),
    ("=array ternary", D + "calongarraypart.py", """        if isinstance(value, Array):
            # Unwrap the array before passing to numpy in case it was already
            # a numpy array
            value = value.seq
        self.caa.caput(value)""", """        self.caa.caput(value.seq if isinstance(value, Array) else value)"""),
    ("=table zip", U, """        for ind, value in enumerate(ca_values):
            if self.on_connect and value.ok:
                self.on_connect(value)
            self._local_value[self.name_list[ind]] = value
""", """        for name, value in zip(self.name_list, ca_values):
            if self.on_connect and value.ok:
                self.on_connect(value)
            self._local_value[name] = value
"""),
    ("=table display loop", D + "cawaveformtablepart.py", """            el = [
                ind
                for ind in range(len(self.pv_list))
                if self.pv_list[ind] == connected_pv.name
            ]""", """            el = [
                ind for ind, pv in enumerate(self.pv_list) if pv == connected_pv.name
            ]"""),
    ("=dirparse loop", "malcolm/modules/system/parts/dirparsepart.py", """        self.dls_ver_pv.disconnect()
        self.dir1_pv.disconnect()
        self.dir2_pv.disconnect()
        self.autosave_status_pv.disconnect()
""", """        for pv in (self.dls_ver_pv, self.dir1_pv, self.dir2_pv, self.autosave_status_pv):
            pv.disconnect()
"""),
]

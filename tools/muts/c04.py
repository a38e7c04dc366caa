M="malcolm/core/models.py"; N="malcolm/core/notifier.py"
MUTS=[
("table-changed-after-store",M,"""            changed = [k for k in value if value[k] is not self.value[k]]
            self.value = value
""","""            self.value = value
            changed = [k for k in value if value[k] is not self.value[k]]
"""),
("table-first-only",M,"                for k in changed:\n","                for k in changed[:1]:\n"),
("table-announce-old",M,"""                        self.path + ["value", k], value[k]
""","""                        self.path + ["value", k], self.value.get(k)
"""),
("=table-none-changed-whole",M,"            if len(changed) == len(value.call_types):","            if changed and len(changed) == len(value.call_types):"),
("alarm-none-skip",M,"""            if alarm is not self.alarm:
                self.alarm = alarm
                self.notifier.add_squashed_change(self.path + ["alarm"], alarm)
            self.timeStamp = ts
            self.notifier.add_squashed_change(self.path + ["timeStamp"], ts)

    def set_alarm""","""            if alarm is not self.alarm:
                self.alarm = alarm
                self.notifier.add_squashed_change(self.path + ["alarm"], alarm)
                self.timeStamp = ts
                self.notifier.add_squashed_change(self.path + ["timeStamp"], ts)

    def set_alarm"""),
("alarm-sev-only",M,"            if alarm is not self.alarm:\n","            if alarm.severity is not self.alarm.severity:\n"),
("silent-store",M,"        return self.set_endpoint_data(\"writeable\", writeable)","        if bool(writeable) == getattr(self, \"writeable\", None):\n            return self.writeable\n        return self.set_endpoint_data(\"writeable\", writeable)"),
("no-detach-old",M,"""                    if child:
                        child.set_notifier_path(Model.notifier, [])
                    value.set""","""                    value.set"""),
("wrong-path-map",M,"v.set_notifier_path(self.notifier, self.path + [name, k])","v.set_notifier_path(self.notifier, self.path + [name])"),
("remove-no-delete",M,"            self._update_fields()\n            self.notifier.add_squashed_delete(self.path + [name])","            self._update_fields()"),
("remove-no-detach",M,"            getattr(self, name).set_notifier_path(Model.notifier, [])\n            self.call_types.pop(name)","            self.call_types.pop(name)"),
("fields-not-updated",M,"            self.notifier.add_squashed_change(self.path + [name], value)\n            self._update_fields()","            self.notifier.add_squashed_change(self.path + [name], value)\n            if name not in self.meta.fields:\n                pass"),
("exit-keep-queue",N,"                self._squashed_changes = []\n",""),
("exit-flush-early",N,"            if self._squashed_count == 0:","            if self._squashed_count <= 1:"),
("delta-only-first",N,"            for request in self.delta_requests:\n                ret.append(request.delta_response(changes))","            request = self.delta_requests[0]\n            ret.append(request.delta_response(changes))"),
("freeze-early",N,"""        for change in changes:
            # Add any changes that our children need to know about
            self._add_child_change(change, child_changes)
""","""        if self.delta_requests:
            for change in changes:
                change[-1] = freeze(change[-1])
        for change in changes:
            # Add any changes that our children need to know about
            self._add_child_change(change, child_changes)
"""),
("update-only-when-no-delta",N,"        # If we have delta subscribers, freeze the change value\n        if self.delta_requests:","        # If we have delta subscribers, freeze the change value\n        elif self.delta_requests:"),
("overwrite-child-changes",N,"                child_changes.setdefault(name, []).append(child_change)\n        else:","                child_changes[name] = [child_change]\n        else:"),
("no-refresh",N,"                self.children[name].data = get_child_data(self.data, name)\n",""),
("delete-as-change",N,"                if len(change) == 2:\n                    child_change = [path[1:], change[1]]","                if len(change) == 2 or len(path) > 1:\n                    child_change = [path[1:], change[-1]]"),
("child-data-falsy",N,"            if child_data is None:","            if not child_data:"),
("freeze-shallow",N,"        o = FrozenOrderedDict(tuple((k, freeze(v)) for k, v in o.items()))","        o = FrozenOrderedDict(tuple(o.items()))"),
("freeze-mutable",N,"            + tuple((k, freeze(getattr(o, k))) for k in o.call_types)","            + tuple((k, freeze(getattr(o, k))) for k in o.call_types if k != \"timeStamp\")"),
("direct-store","malcolm/modules/builtin/parts/labelpart.py","self.attr.set_value(value, ts=ts)","self.attr.value = value"),
("setvalue-novalidate",M,"        value = self.meta.validate(value)\n        if set_alarm_ts:","        if set_alarm_ts:\n            value = self.meta.validate(value)\n        if set_alarm_ts:"),
("ts-lost",M,"            if ts is None:\n                ts = cast(TimeStamp, TimeStamp())\n","            if ts is None or alarm is Alarm.ok:\n                ts = cast(TimeStamp, TimeStamp())\n"),
("=helper",[(M,"""            # Assume they are of the right format
            self.value = value
            self.notifier.add_squashed_change(self.path + ["value"], value)
            if""","""            # Assume they are of the right format
            self._store("value", value)
            if"""),(M,"    def set_alarm(self, alarm","    def _store(self, name, data):\n        setattr(self, name, data)\n        self.notifier.add_squashed_change(self.path + [name], data)\n\n    def set_alarm(self, alarm")]),
("=tableloop",M,"            changed = [k for k in value if value[k] is not self.value[k]]\n","            changed = []\n            for key in value:\n                if value[key] is self.value[key]:\n                    continue\n                changed.append(key)\n"),
("=announce-before",M,"            self.timeStamp = ts\n            self.notifier.add_squashed_change(self.path + [\"timeStamp\"], ts)\n\n    def set_alarm","            stamp_path = self.path + [\"timeStamp\"]\n            self.timeStamp = ts\n            self.notifier.add_squashed_change(stamp_path, ts)\n\n    def set_alarm"),
("=exitref",N,"""            if self._squashed_count == 0:
                changes = self._squashed_changes
                self._squashed_changes = []
                # TODO: squash intermediate deltas here?
                responses += self._tree.notify_changes(changes)
""","""            if not self._squashed_count:
                changes, self._squashed_changes = self._squashed_changes, []
                # TODO: squash intermediate deltas here?
                responses.extend(self._tree.notify_changes(changes))
"""),
("=split",N,"""        if self.update_requests:
            frozen = freeze(self.data)
            for request in self.update_requests:
                ret.append(request.update_response(frozen))
""","""        ret += self._update_responses()
""") ,
("=childchange",N,"""                if len(change) == 2:
                    child_change = [path[1:], change[1]]
                else:
                    child_change = [path[1:]]
                child_changes""","""                child_change = [path[1:]]
                if len(change) > 1:
                    child_change.append(change[1])
                child_changes"""),
]
MUTS=[(m if m[0]!="=split" else ("=split",[(m[1],m[2],m[3]),(N,"    def _add_child_change(self","    def _update_responses(self):\n        if not self.update_requests:\n            return []\n        frozen = freeze(self.data)\n        return [r.update_response(frozen) for r in self.update_requests]\n\n    def _add_child_change(self")])) for m in MUTS]

S="malcolm/modules/builtin/controllers/statefulcontroller.py"; U="malcolm/modules/builtin/util.py"; V="malcolm/modules/scanning/util.py"; R="malcolm/modules/scanning/controllers/runnablecontroller.py"; M="malcolm/modules/builtin/controllers/managercontroller.py"; T="malcolm/core/stateset.py"
MUTS=[
("ready-reset",U,"        self.set_allowed(self.RESETTING, self.READY)\n","        self.set_allowed(self.RESETTING, self.READY)\n        self.set_allowed(self.READY, self.RESETTING)\n"),
("fault-ready",U,"self.set_allowed(self.FAULT, self.RESETTING, self.DISABLING)","self.set_allowed(self.FAULT, self.RESETTING, self.READY, self.DISABLING)"),
("dis-fault",U,"        self.set_allowed(self.DISABLING, self.FAULT, self.DISABLED)","        self.set_allowed(self.DISABLING, self.DISABLED)"),
("aborting-err",V,"        self.set_allowed(self.PAUSED, self.SEEKING, self.RUNNING)","        self.set_allowed(self.PAUSED, self.SEEKING, self.RUNNING, self.FINISHED)"),
("no-abort-postrun",V,"            self.RUNNING,\n            self.POSTRUN,\n            self.PAUSED,","            self.RUNNING,\n            self.PAUSED,"),
("order",U,"        self.create_block_transitions()\n        self.create_error_disable_transitions()","        self.create_error_disable_transitions()\n        self.create_block_transitions()"),
("allowed-rev",T,"return target_state in self._allowed[initial_state]","return initial_state in self._allowed.get(target_state, ()) or target_state in self._allowed[initial_state]"),
("force",S,"            if self.state_set.transition_allowed(\n                initial_state=initial_state, target_state=state\n            ):","            if state == ss.FAULT or self.state_set.transition_allowed(\n                initial_state=initial_state, target_state=state\n            ):"),
("silent",S,"            else:\n                raise TypeError(f\"Cannot transition from {initial_state} to {state}\")","            else:\n                self.log.warning(f\"Cannot transition from {initial_state} to {state}\")"),
("alarm-dis",S,"                if state == ss.DISABLED:\n                    alarm = Alarm.invalid(\"Disabled\")","                if state == ss.DISABLED:\n                    alarm = Alarm()"),
("alarm-keep",S,"                self.state.set_alarm(alarm)\n","                if alarm.severity:\n                    self.state.set_alarm(alarm)\n"),
("health-skip",S,"                self.update_health(self, HealthInfo(alarm))\n","                if state != initial_state and state != ss.RESETTING:\n                    self.update_health(self, HealthInfo(alarm))\n"),
("flags-old",S,"self._children_writeable[state].items()","self._children_writeable[initial_state].items()"),
("flags-only-true",S,"                    child.meta.set_writeable(writeable)","                    if writeable:\n                        child.meta.set_writeable(writeable)"),
("flags-outside",S,"                for child, writeable in self._children_writeable[state].items():\n                    child.meta.set_writeable(writeable)\n            else:\n                raise TypeError(f\"Cannot transition from {initial_state} to {state}\")\n","            else:\n                raise TypeError(f\"Cannot transition from {initial_state} to {state}\")\n        for child, writeable in self._children_writeable[state].items():\n            child.meta.set_writeable(writeable)\n"),
("direct",M,"    def update_modified(","    def force_ready(self):\n        self.state.set_value(ss.READY)\n\n    def update_modified("),
("cfg-armed",R,"self.field_registry.add_method_model(self.configure), ss.READY, ss.FINISHED","self.field_registry.add_method_model(self.configure), ss.READY, ss.ARMED, ss.FINISHED"),
("reset-running",R,"            ss.ABORTED,\n            ss.ARMED,\n            ss.FINISHED,\n        )\n        # Allow Parts","            ss.ABORTED,\n            ss.ARMED,\n        )\n        # Allow Parts"),
("save-any",M,"        self.set_writeable_in(self.field_registry.add_method_model(self.save), ss.READY)","        self.field_registry.add_method_model(self.save)"),
("in-all",S,"            state_writeable = self._children_writeable.setdefault(state, {})\n            state_writeable[field] = state in states","            if state in states:\n                state_writeable = self._children_writeable.setdefault(state, {})\n                state_writeable[field] = True"),
("default-disabled",S,"                if state not in (ss.DISABLING, ss.DISABLED)","                if state != ss.DISABLED"),
("revert-fix",S,"        child.meta.set_writeable(self._children_writeable[self.state.value][child])\n","        pass\n"),
("ro-setter",R,"            \"configuredSteps\", self.configured_steps\n","            \"configuredSteps\", self.configured_steps, self.configured_steps.set_value\n"),
("=tuple",V,"        normal_states = [\n            self.READY,\n            self.CONFIGURING,\n            self.ARMED,\n            self.RUNNING,\n            self.POSTRUN,\n            self.PAUSED,\n            self.SEEKING,\n            self.FINISHED,\n        ]\n        for state in normal_states:\n            self.set_allowed(state, self.ABORTING)\n","        self._allow_abort(self.READY, self.CONFIGURING, self.ARMED, self.RUNNING, self.POSTRUN, self.PAUSED, self.SEEKING, self.FINISHED)\n") if False else
("=split",V,"        self.set_allowed(self.ARMED, self.RUNNING, self.SEEKING, self.RESETTING)\n","        for target in (self.RUNNING, self.SEEKING, self.RESETTING):\n            self.set_allowed(self.ARMED, target)\n"),
("=err-loop",U,"        for state in block_states:\n            self.set_allowed(state, self.FAULT)\n            self.set_allowed(state, self.DISABLING)\n","        for state in block_states:\n            self.set_allowed(state, self.FAULT, self.DISABLING)\n"),
("=guard-first",S,"            if self.state_set.transition_allowed(\n                initial_state=initial_state, target_state=state\n            ):\n                self.log.debug(\n                    \"%s: Transitioning from %s to %s\", self.mri, initial_state, state\n                )\n                if state == ss.DISABLED:\n                    alarm = Alarm.invalid(\"Disabled\")\n                elif state == ss.FAULT:\n                    alarm = Alarm.major(message)\n                else:\n                    alarm = Alarm()\n                self.update_health(self, HealthInfo(alarm))\n                self.state.set_value(state)\n                self.state.set_alarm(alarm)\n                for child, writeable in self._children_writeable[state].items():\n                    child.meta.set_writeable(writeable)\n            else:\n                raise TypeError(f\"Cannot transition from {initial_state} to {state}\")\n","            if not self.state_set.transition_allowed(initial_state, state):\n                raise TypeError(f\"Cannot transition from {initial_state} to {state}\")\n            alarm = self._alarm_for(state, message)\n            self._apply(state, alarm)\n\n    def _alarm_for(self, state, message):\n        if state == ss.FAULT:\n            return Alarm.major(message)\n        if state == ss.DISABLED:\n            return Alarm.invalid(\"Disabled\")\n        return Alarm()\n\n    def _apply(self, state, alarm):\n        self.state.set_value(state)\n        self.state.set_alarm(alarm)\n        self.update_health(self, HealthInfo(alarm))\n        flags = self._children_writeable[state]\n        for child in flags:\n            child.meta.set_writeable(flags[child])\n"),
("=set",S,"        states = [\n                state\n                for state in self.state_set.possible_states\n                if state not in (ss.DISABLING, ss.DISABLED)\n            ]\n","        states = []\n            for state in self.state_set.possible_states:\n                if state == ss.DISABLING or state == ss.DISABLED:\n                    continue\n                states.append(state)\n"),
("=writeable-list",R,"        self.set_writeable_in(\n            self.field_registry.add_method_model(self.configure), ss.READY, ss.FINISHED\n        )\n","        configure_states = (ss.READY, ss.FINISHED)\n        model = self.field_registry.add_method_model(self.configure)\n        self.set_writeable_in(model, *configure_states)\n"),
("=setdefault",S,"            state_writeable = self._children_writeable.setdefault(state, {})\n            state_writeable[field] = state in states","            if state not in self._children_writeable:\n                self._children_writeable[state] = {}\n            self._children_writeable[state][field] = state in states"),
]

R="malcolm/modules/scanning/controllers/runnablecontroller.py"
MUTS=[
("no-reset",R,"        if state == ss.FINISHED:\n            # If we","        if state == ss.ABORTED:\n            # If we"),
("pre-after-report",R,"        self.run_hooks(PreConfigureHook(p, c) for p, c in self.part_contexts.items())\n        # This will calculate what we need from the generator, possibly a long\n        # call\n        params.generator.prepare()\n","        # This will calculate what we need from the generator, possibly a long\n        # call\n        params.generator.prepare()\n") ,
("prepare-late",[(R,"        params.generator.prepare()\n",""),(R,"        # Get any status from all parts\n        part_info","        params.generator.prepare()\n        # Get any status from all parts\n        part_info")]),
("total-conf",R,"        self.total_steps.set_value(params.generator.size)\n","        self.total_steps.set_value(self.steps_per_run[0])\n"),
("completed-kept",R,"        self.completed_steps.set_value(0)\n        self.configured_steps.set_value(0)\n        # TODO","        self.configured_steps.set_value(0)\n        # TODO"),
("conf-total",R,"        self.configured_steps.set_value(steps_to_do)\n        self.completed_steps.meta","        self.configured_steps.set_value(params.generator.size)\n        self.completed_steps.meta"),
("bpindex-kept",R,"        completed_steps = 0\n        self.breakpoint_index = 0\n","        completed_steps = 0\n"),
("status-lost",R,"            PostConfigureHook(p, c, part_info) for p, c in","            PostConfigureHook(p, c, {}) for p, c in"),
("status-old",[(R,"        part_info = self.run_hooks(\n            ConfigureHook(","        self.run_hooks(\n            ConfigureHook(")]),
("progress-kept",R,"        self.progress_updates = {}\n        self.resume","        if self.progress_updates is None:\n            self.progress_updates = {}\n        self.resume"),
("params-kept",R,"        self.configure_params = params\n","        self.configure_params = self.configure_params or params\n"),
("limit",R,"set_limitHigh(params.generator.size)","set_limitHigh(steps_to_do)"),
("run-swap",R,"        self.run_hooks(hook(p, c) for p, c in self.part_contexts.items())\n        self.abortable_transition(ss.POSTRUN)","        self.abortable_transition(ss.POSTRUN)\n        self.run_hooks(hook(p, c) for p, c in self.part_contexts.items())"),
("no-prerun",R,"        self.run_hooks(PreRunHook(p, c) for p, c in self.part_contexts.items())\n",""),
("le-total",R,"        if completed_steps < self.total_steps.value:\n            if self.use","        if completed_steps <= self.total_steps.value:\n            if self.use"),
("completed-of-counter",R,"        completed_steps = self.configured_steps.value\n        if","        completed_steps = self.completed_steps.value\n        if"),
("noindex",R,"            if self.use_breakpoints:\n                self.breakpoint_index += 1\n",""),
("index-after",R,"            if self.use_breakpoints:\n                self.breakpoint_index += 1\n            steps_to_do = self.steps_per_run[self.breakpoint_index]\n","            steps_to_do = self.steps_per_run[self.breakpoint_index]\n            if self.use_breakpoints:\n                self.breakpoint_index += 1\n"),
("conf-not-updated",R,"            self.configured_steps.set_value(completed_steps + steps_to_do)\n        else","            self.configured_steps.set_value(steps_to_do)\n        else"),
("completed-late",R,"            self.completed_steps.set_value(completed_steps)\n            self.run_hooks(\n                PostRunArmedHook(\n                    p, c, completed_steps, steps_to_do, part_info, **kwargs\n                )\n                for p, c, kwargs in self._part_params()\n            )\n","            self.run_hooks(\n                PostRunArmedHook(\n                    p, c, completed_steps, steps_to_do, part_info, **kwargs\n                )\n                for p, c, kwargs in self._part_params()\n            )\n            self.completed_steps.set_value(completed_steps)\n"),
("ready-nocompleted",R,"        else:\n            self.completed_steps.set_value(completed_steps)\n            self.run_hooks(\n                PostRunReady","        else:\n            self.run_hooks(\n                PostRunReady"),
("min-max",R,"min_completed_steps = min(self.progress","min_completed_steps = max(self.progress"),
("progress-back",R,"            if min_completed_steps > self.completed_steps.value:\n                self.completed","            if min_completed_steps != self.completed_steps.value:\n                self.completed"),
("progress-unlocked",R,"        with self._lock:\n            # Update\n            assert self.progress_updates is not None, \"No progress updates\"\n            self.progress_updates[part] = completed_steps.steps\n            min_completed_steps = min(self.progress_updates.values())\n            if min_completed_steps > self.completed_steps.value:\n                self.completed_steps.set_value(min_completed_steps)","        # Update\n        assert self.progress_updates is not None, \"No progress updates\"\n        self.progress_updates[part] = completed_steps.steps\n        min_completed_steps = min(self.progress_updates.values())\n        if min_completed_steps > self.completed_steps.value:\n            self.completed_steps.set_value(min_completed_steps)"),
("progress-part",R,"            self.progress_updates[part] = completed_steps.steps","            self.progress_updates[part.name] = completed_steps.steps"),
("next-once",R,[],[]) if False else ("next-once",[(R,"            while going:\n                # A pause may have moved us to a different run\n                if self.configured_steps.value < self.total_steps.value:\n                    next_state = ss.ARMED\n                else:\n                    next_state = ss.FINISHED\n                try:","            # Work out where we will end up\n            if self.configured_steps.value < self.total_steps.value:\n                next_state = ss.ARMED\n            else:\n                next_state = ss.FINISHED\n            while going:\n                try:")]),
("next-after",[(R,"                # A pause may have moved us to a different run\n                if self.configured_steps.value < self.total_steps.value:\n                    next_state = ss.ARMED\n                else:\n                    next_state = ss.FINISHED\n                try:\n                    self.do_run(hook)\n","                try:\n                    self.do_run(hook)\n                    if self.configured_steps.value < self.total_steps.value:\n                        next_state = ss.ARMED\n                    else:\n                        next_state = ss.FINISHED\n")]),
("pause-noseek-total",R,"        elif lastGoodStep >= total_steps:\n            lastGoodStep = total_steps - 1","        elif lastGoodStep > total_steps:\n            lastGoodStep = total_steps - 1"),
("pause-total",R,"            lastGoodStep = total_steps - 1","            lastGoodStep = total_steps"),
("pause-conf",R,"                lastGoodStep = self.completed_steps.value","                lastGoodStep = self.configured_steps.value"),
("pause-nobound",R,"            if lastGoodStep == self.configured_steps.value:\n                lastGoodStep -= 1\n",""),
("pause-paused",R,"        if self.state.value in [ss.ARMED, ss.FINISHED]:","        if self.state.value in [ss.ARMED, ss.FINISHED, ss.PAUSED]:"),
("pause-fin",R,"        if self.state.value in [ss.ARMED, ss.FINISHED]:","        if self.state.value in [ss.ARMED]:"),
("seek-full",R,"            steps_to_do = self.steps_per_run[self.breakpoint_index] - in_run_steps","            steps_to_do = self.steps_per_run[self.breakpoint_index]"),
("seek-conf",R,"        self.configured_steps.set_value(completed_steps + steps_to_do)\n\n    def get_break","        self.configured_steps.set_value(steps_to_do)\n\n    def get_break"),
("seek-bp",R,"            steps_to_do = self.breakpoint_steps[self.breakpoint_index] - in_run_steps","            steps_to_do = self.steps_per_run[self.breakpoint_index] - in_run_steps"),
("seek-index",R,"            self.breakpoint_index = self.get_breakpoint_index(completed_steps)\n","            self.breakpoint_index = self.get_breakpoint_index(self.completed_steps.value)\n"),
("seek-comp-late",R,"        self.completed_steps.set_value(completed_steps)\n        self.run_hooks(\n            SeekHook(","        self.run_hooks(\n            SeekHook("),
("bp-le",R,"        while completed_steps >= self.breakpoint_steps[index]:","        while completed_steps > self.breakpoint_steps[index]:"),
("bp-last",R,"            return len(self.breakpoint_steps) - 1","            return len(self.breakpoint_steps)"),
("reset-total",R,"        self.completed_steps.set_value(0)\n        self.total_steps.set_value(0)\n","        self.completed_steps.set_value(0)\n"),
("val-once",R,"            else:\n                # Consistent set, just return the params\n                return params\n        raise","                if not generator_tweaks:\n                    return params\n            else:\n                # Consistent set, just return the params\n                return params\n        raise"),
("val-unchecked",R,"                        deserialized = self._block.configure.meta.takes.elements[\n                            tweak.parameter\n                        ].validate(tweak.value)\n","                        deserialized = tweak.value\n"),
("val-first",R,"                        self.log.debug(\n                            f\"{self.mri}: tweaking {tweak.parameter} to {deserialized}\"\n                        )\n","                        break\n"),
("val-giveup",R,"        raise ValueError(\"Could not get a consistent set of parameters\")","        return params"),
("val-status",R,"ValidateHook(p, c, status_part_info, **kwargs)","ValidateHook(p, c, {}, **kwargs)"),
("cfg-unvalidated",R,"        params = self.validate(generator, axesToMove, breakpoints, **kwargs)\n        state","        self.validate(generator, axesToMove, breakpoints, **kwargs)\n        params = ConfigureParams(generator, axesToMove, breakpoints, **kwargs)\n        state"),
("cfg-state",R,"        state = self.state.value\n        try:\n            self.transition(ss.CONFIGURING)\n            self.do_configure(state, params)","        try:\n            self.transition(ss.CONFIGURING)\n            self.do_configure(self.state.value, params)"),
("cfg-nobp",R,"        params = self.validate(generator, axesToMove, breakpoints, **kwargs)\n        state","        params = self.validate(generator, axesToMove, **kwargs)\n        state"),
("=seek-else",R,"            in_run_steps = completed_steps % self.steps_per_run[self.breakpoint_index]\n            steps_to_do = self.steps_per_run[self.breakpoint_index] - in_run_steps","            run_length = self.steps_per_run[self.breakpoint_index]\n            steps_to_do = run_length - completed_steps % run_length"),
("=pause-min",R,"        elif lastGoodStep >= total_steps:\n            lastGoodStep = total_steps - 1","        else:\n            lastGoodStep = min(lastGoodStep, total_steps - 1)"),
("=pause-gt",R,"        elif lastGoodStep >= total_steps:\n            lastGoodStep = total_steps - 1","        elif lastGoodStep > total_steps - 1:\n            lastGoodStep = total_steps - 1"),
("=readback",R,"            self.configured_steps.set_value(completed_steps + steps_to_do)\n        else","            self.configured_steps.set_value(self.configured_steps.value + steps_to_do)\n        else"),
("=cond-exp",R,"                if self.configured_steps.value < self.total_steps.value:\n                    next_state = ss.ARMED\n                else:\n                    next_state = ss.FINISHED\n                try:","                more = self.configured_steps.value < self.total_steps.value\n                next_state = ss.ARMED if more else ss.FINISHED\n                try:"),
("=helper-report",[(R,"            part_info = self.run_hooks(\n                ReportStatusHook(p, c) for p, c in self.part_contexts.items()\n            )\n            self.completed","            part_info = self._report()\n            self.completed"),(R,"    def do_abort(self)","    def _report(self):\n        return self.run_hooks(\n            ReportStatusHook(p, c) for p, c in self.part_contexts.items()\n        )\n\n    def do_abort(self)")]),
("=listcomp",R,"        self.run_hooks(PreConfigureHook(p, c) for p, c in self.part_contexts.items())\n","        hooks = []\n        for part in self.part_contexts:\n            hooks.append(PreConfigureHook(part, self.part_contexts[part]))\n        self.run_hooks(hooks)\n"),
("=guard-progress",R,"            if min_completed_steps > self.completed_steps.value:\n                self.completed_steps.set_value(min_completed_steps)","            if min_completed_steps <= self.completed_steps.value:\n                return\n            self.completed_steps.set_value(min_completed_steps)"),
("=not-tweaks",R,"            if tweaks:\n                # Check","            if len(tweaks) > 0:\n                # Check"),
("=dictcomp",R,"            args = {}\n            assert params, \"No params\"\n            for k in params.call_types:\n                args[k] = getattr(params, k)\n            yield","            assert params, \"No params\"\n            args = {k: getattr(params, k) for k in params.call_types}\n            yield"),
("=bp-for",R,"        index = 0\n        while completed_steps >= self.breakpoint_steps[index]:\n            index += 1\n        return index","        for index, end in enumerate(self.breakpoint_steps):\n            if completed_steps < end:\n                return index\n        return 0"),
("=split-config",[(R,"        # Take configuration info and reflect it as attribute updates\n        self.run_hooks(\n            PostConfigureHook(p, c, part_info) for p, c in self.part_contexts.items()\n        )\n        # Update the completed and configured steps\n        self.configured_steps.set_value(steps_to_do)\n        self.completed_steps.meta.display.set_limitHigh(params.generator.size)\n","        self._after(part_info, steps_to_do, params)\n"),(R,"    def do_abort(self)","    def _after(self, info, steps, params):\n        self.run_hooks(PostConfigureHook(p, c, info) for p, c in self.part_contexts.items())\n        self.completed_steps.meta.display.set_limitHigh(params.generator.size)\n        self.configured_steps.set_value(steps)\n\n    def do_abort(self)")]),
]

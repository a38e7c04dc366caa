P="malcolm/core/process.py"; T="malcolm/core/part.py"; C="malcolm/core/controller.py"
MUTS=[
("start-twice",P,'        assert self.state == STOPPED, "Process already started"\n        self.state = STARTING\n','        assert self.state != STARTED, "Process already started"\n        self.state = STARTING\n'),
("started-early",P,"        if should_publish:\n            self._publish_controllers(timeout)\n        self.state = STARTED\n","        self.state = STARTED\n        if should_publish:\n            self._publish_controllers(timeout)\n"),
("publish-wrong",P,"        if len(controller_list) > len(new_unpublished):","        if len(controller_list) > len(self._unpublished):"),
("publish-eq",P,"        if len(controller_list) > len(new_unpublished):","        if len(controller_list) >= len(new_unpublished):"),
("forget-unpub",P,"        self._unpublished |= new_unpublished","        self._unpublished = new_unpublished"),
("pub-unpub",P,"                if k not in published and k not in self._unpublished:","                if k not in published and (v or k not in self._unpublished):"),
("exc-check",P,"            self.log, hook_queue, hook_spawned, timeout, exception_check=False\n","            self.log, hook_queue, hook_spawned, timeout\n"),
("hook-default",P,"        if controller_list is None:\n","        if not controller_list:\n            return {}\n        if controller_list is None:\n"),
("stop-ignore-timeout",P,"                    \"Timeout waiting for %s *%s **%s\", s._function, s._args, s._kwargs\n                )\n                raise\n","                    \"Timeout waiting for %s *%s **%s\", s._function, s._args, s._kwargs\n                )\n"),
("stop-order",P,"        self.state = STOPPING\n        # Allow every controller a chance to clean up\n        self._run_hook(ProcessStopHook, timeout=timeout)\n","        # Allow every controller a chance to clean up\n        self._run_hook(ProcessStopHook, timeout=timeout)\n        self.state = STOPPING\n"),
("stop-stopped-early",P,"        self.state = STOPPING\n        # Allow","        self.state = STOPPED\n        # Allow"),
("stop-any",P,'        assert self.state == STARTED, "Process not started"','        assert self.state, "Process not started"'),
("stop-keep-unpub",P,"        self._controllers = OrderedDict()\n        self._unpublished = set()\n        self.state = STOPPED","        self._controllers = OrderedDict()\n        self.state = STOPPED"),
("stop-notimeout",P,"                s.wait(timeout=timeout)","                s.wait()"),
("stop-skip",P,"                self.log.debug(\n                    \"Waiting for","                continue\n                self.log.debug(\n                    \"Waiting for"),
("spawn-untracked",P,"        self._spawned.append(spawned)\n        self._spawn_count += 1\n        # Filter","        self._spawn_count += 1\n        if not spawned.ready():\n            self._spawned.append(spawned)\n        # Filter") ,
("spawn-forget",P,"        self._spawned = [s for s in self._spawned if not s.ready()]","        self._spawned = [s for s in self._spawned if s.ready()]"),
("spawn-forget-all",P,"        self._spawned = [s for s in self._spawned if not s.ready()]","        self._spawned = self._spawned[-1:]"),
("spawn-stopped",P,'        assert self.state != STOPPED, "Can\'t spawn when process stopped"\n',''),
("add-dup",P,"            assert (\n                controller.mri not in self._controllers\n            ), f\"Controller already exists for {controller.mri}\"\n","            assert (\n                self._controllers.get(controller.mri) is not controller\n            ), f\"Controller already exists for {controller.mri}\"\n"),
("add-dup-gone",P,"            assert (\n                controller.mri not in self._controllers\n            ), f\"Controller already exists for {controller.mri}\"\n",""),
("add-start-all",P,"            should_publish = self._start_controllers(controllers, timeout)\n","            should_publish = self._start_controllers(self._controllers.values(), timeout)\n"),
("add-only-started",P,"        if self.state:\n","        if self.state == STARTED:\n"),
("add-pub-any",P,"            if self.state == STARTED and should_publish:","            if should_publish:"),
("add-setup-late",P,"            controller.setup(self)\n        if self.state:","        for controller in controllers[1:]:\n            controller.setup(self)\n        if self.state:"),
("get-none",P,"            raise ValueError(f\"No controller registered for mri '{mri}'\")","            return None"),
("field-over",T,"            existing = [x for x in fields if x[0] == name]","            existing = [x for x in fields if x[0] == name] if o is owner else []"),
("field-camel",T,"        assert CAMEL_RE.match(\n            name\n        ), f\"Field {name!r} published by {owner} is not camelCase\"\n",""),
("field-needctx",T,"        part_fields.append((name, model, cast(Callable, writeable_func), needs_context))","        part_fields.append((name, model, cast(Callable, writeable_func), False))"),
("meth-needctx",T,"        self._add_field(owner, name, method, func, needs_context)\n","        self._add_field(owner, name, method, func)\n"),
("info-super",T,"        typ = type(info)\n        try:","        typ = type(info).__mro__[-2]\n        try:") ,
("info-drop",T,"        callback(reporter, info)\n","        if callback:\n            callback(reporter, info)\n") ,
("part-over",C,"        assert (\n            part.name not in self.parts\n        ), f\"Part {part.name!r} already exists in Controller {self.mri!r}\"\n","") ,
("setter-ro",C,"            child.meta.set_writeable(True)\n","            child.meta.set_writeable(child.meta.writeable)\n"),
("=stop-refactor",P,"        for s in self._spawned:\n            if not s.ready():\n                self.log.debug(\n                    \"Waiting for %s *%s **%s\", s._function, s._args, s._kwargs\n                )\n            try:\n                s.wait(timeout=timeout)\n            except TimeoutError:\n                self.log.warning(\n                    \"Timeout waiting for %s *%s **%s\", s._function, s._args, s._kwargs\n                )\n                raise\n        self._spawned = []\n        self._controllers = OrderedDict()\n        self._unpublished = set()\n        self.state = STOPPED\n        self.log.debug(\"Done process.stop()\")\n","        self._wait_spawned(timeout)\n        self._forget()\n        self.state = STOPPED\n        self.log.debug(\"Done process.stop()\")\n\n    def _forget(self):\n        self._controllers = OrderedDict()\n        self._spawned = list()\n        self._unpublished = set()\n\n    def _wait_spawned(self, timeout):\n        for s in self._spawned:\n            try:\n                s.wait(timeout=timeout)\n            except TimeoutError:\n                self.log.warning(\"Timeout waiting for %s\", s._function)\n                raise\n"),
("=start-refactor",P,"        infos = self._run_hook(ProcessStartHook, controller_list, timeout=timeout)\n        info: UnpublishedInfo\n        new_unpublished = set()\n        for info in UnpublishedInfo.filter_values(infos):\n            new_unpublished.add(info.mri)\n        self._unpublished |= new_unpublished\n        if len(controller_list) > len(new_unpublished):\n            return True\n        else:\n            return False\n","        infos = self._run_hook(ProcessStartHook, controller_list, timeout=timeout)\n        new_unpublished = {i.mri for i in UnpublishedInfo.filter_values(infos)}\n        self._unpublished.update(new_unpublished)\n        return len(controller_list) > len(new_unpublished)\n"),
("=guard",P,'        assert self.state == STOPPED, "Process already started"\n','        if self.state != STOPPED:\n            raise AssertionError("Process already started")\n'),
("=guard2",P,'        assert self.state != STOPPED, "Can\'t spawn when process stopped"\n','        if self.state == STOPPED:\n            raise AssertionError("Can\'t spawn when process stopped")\n'),
("=get",P,"        try:\n            return self._controllers[mri]\n        except KeyError:\n            raise ValueError(f\"No controller registered for mri '{mri}'\")","        controller = self._controllers.get(mri)\n        if controller is None:\n            raise ValueError(f\"No controller registered for mri '{mri}'\")\n        return controller"),
("=clear-loop",P,"        self._spawned = [s for s in self._spawned if not s.ready()]","        still = []\n        for s in self._spawned:\n            if not s.ready():\n                still.append(s)\n        self._spawned = still"),
("=walk",P,"                if k not in published and k not in self._unpublished:\n                    published.append(k)\n","                if not (k in published or k in self._unpublished):\n                    published.append(k)\n"),
("=field",T,"        for o, fields in self.fields.items():\n            existing = [x for x in fields if x[0] == name]\n            assert (\n                not existing\n            ), f\"Field {name!r} published by {owner} would overwrite one made by {o}\"\n","        for o, fields in self.fields.items():\n            for x in fields:\n                assert (\n                    x[0] != name\n                ), f\"Field {name!r} published by {owner} would overwrite one made by {o}\"\n"),
("=field-any",T,"            existing = [x for x in fields if x[0] == name]\n","            existing = any(x[0] == name for x in fields)\n"),
("=hooks-loop",P,"        hooks = [\n            hook(controller, **kwargs).set_spawn(self.spawn)\n            for controller in controller_list\n        ]\n","        hooks = []\n        for controller in controller_list:\n            h = hook(controller, **kwargs)\n            h.set_spawn(self.spawn)\n            hooks.append(h)\n"),
]

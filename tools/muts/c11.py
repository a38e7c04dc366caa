R="malcolm/modules/scanning/controllers/runnablecontroller.py"
MUTS=[
("stop-outside-lock",R,"                self.transition(start_state)\n                for context in self.part_contexts.values():\n                    context.stop()\n","                self.transition(start_state)\n            for context in self.part_contexts.values():\n                context.stop()\n"),
("stop-before-move",R,"                self.transition(start_state)\n                for context in self.part_contexts.values():\n                    context.stop()\n","                for context in self.part_contexts.values():\n                    context.stop()\n                self.transition(start_state)\n"),
("queue-after",R,"                self.abort_queue = Queue()\n                self.transition(start_state)\n                for context in self.part_contexts.values():\n                    context.stop()\n","                self.transition(start_state)\n                for context in self.part_contexts.values():\n                    context.stop()\n            self.abort_queue = Queue()\n"),
("no-new-queue",R,"                original_state = self.state.value\n                self.abort_queue = Queue()\n","                original_state = self.state.value\n"),
("skip-self",R,"                for context in self.part_contexts.values():\n                    context.stop()\n            if original","                for part, context in self.part_contexts.items():\n                    if part is not self:\n                        context.stop()\n            if original"),
("orig-late",R,"                original_state = self.state.value\n                self.abort_queue = Queue()\n                self.transition(start_state)\n","                self.abort_queue = Queue()\n                self.transition(start_state)\n                original_state = self.state.value\n"),
("wait-armed",R,"if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):","if original_state not in (ss.READY, ss.ARMED, ss.FINISHED):"),
("nowait-postrun",R,"if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):","if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED, ss.POSTRUN):"),
("only-running",R,"if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):","if original_state in (ss.RUNNING, ss.POSTRUN, ss.CONFIGURING):"),
("=wait-pos",R,"if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):","if original_state in (ss.RUNNING, ss.POSTRUN, ss.CONFIGURING, ss.SEEKING):"),
("wait-forever",R,"self.abort_queue.get(timeout=DEFAULT_TIMEOUT)","self.abort_queue.get()"),
("no-rearm",R,"                if self_ctx:\n                    self_ctx.ignore_stops_before_now()\n","                if self_ctx and original_state != ss.PAUSED:\n                    self_ctx.ignore_stops_before_now()\n"),
("rearm-early",R,"                for context in self.part_contexts.values():\n                    context.stop()\n            if original","                for context in self.part_contexts.values():\n                    context.stop()\n                if self in self.part_contexts:\n                    self.part_contexts[self].ignore_stops_before_now()\n            if original"),
("unchecked-end",R,"            func(*args)\n            self.abortable_transition(end_state)","            func(*args)\n            self.transition(end_state)"),
("unchecked-armed",R,"            self.abortable_transition(ss.ARMED)","            self.transition(ss.ARMED)"),
("unchecked-postrun",R,"        self.abortable_transition(ss.POSTRUN)","        self.transition(ss.POSTRUN)"),
("unchecked-next",R,"                    self.abortable_transition(next_state)","                    self.transition(next_state)"),
("check-unlocked",R,"        with self._lock:\n            # We might have been aborted just now, so this will fail\n            # with an AbortedError if we were\n            self_ctx = self.part_contexts.get(self, None)\n            if self_ctx:\n                self_ctx.sleep(0)\n            self.transition(state)","        # We might have been aborted just now, so this will fail\n        # with an AbortedError if we were\n        self_ctx = self.part_contexts.get(self, None)\n        if self_ctx:\n            self_ctx.sleep(0)\n        self.transition(state)"),
("check-after",R,"            if self_ctx:\n                self_ctx.sleep(0)\n            self.transition(state)","            self.transition(state)\n            if self_ctx:\n                self_ctx.sleep(0)"),
("cfg-noput",R,"        except AbortedError:\n            assert self.abort_queue, \"No abort queue\"\n            self.abort_queue.put(None)\n            raise\n        except Exception as e:\n            self.go_to_error_state(e)\n            raise\n        else:\n            return params","        except AbortedError:\n            raise\n        except Exception as e:\n            self.go_to_error_state(e)\n            raise\n        else:\n            return params"),
("run-noput",R,"                    self.abort_queue.put(None)\n                    # Wait for","                    # Wait for"),
("run-put-after",R,"                    self.abort_queue.put(None)\n                    # Wait for a response on the resume_queue\n                    assert self.resume_queue, \"No resume queue\"\n                    should_resume = self.resume_queue.get()\n","                    # Wait for a response on the resume_queue\n                    assert self.resume_queue, \"No resume queue\"\n                    should_resume = self.resume_queue.get()\n                    self.abort_queue.put(None)\n"),
("run-ignores-verdict",R,"                    if should_resume:\n","                    if should_resume or self.state.value == ss.PAUSED:\n"),
("run-inverted",R,"                    if should_resume:\n","                    if not should_resume:\n"),
("resume-early",R,"        self.transition(ss.RUNNING)\n        assert self.resume_queue, \"No resume queue\"\n        self.resume_queue.put(True)\n","        assert self.resume_queue, \"No resume queue\"\n        self.resume_queue.put(True)\n        self.transition(ss.RUNNING)\n"),
("abort-verdict-early",R,"        self.try_aborting_function(ss.ABORTING, ss.ABORTED, self.do_abort)\n        # Tell _call_do_run not to resume\n        if self.resume_queue:\n            self.resume_queue.put(False)\n","        # Tell _call_do_run not to resume\n        if self.resume_queue:\n            self.resume_queue.put(False)\n        self.try_aborting_function(ss.ABORTING, ss.ABORTED, self.do_abort)\n"),
("abort-noverdict",R,"        # Tell _call_do_run not to resume\n        if self.resume_queue:\n            self.resume_queue.put(False)\n",""),
("disable-nostop",R,"        for context in self.part_contexts.values():\n            context.stop()\n        if self.resume_queue:\n            self.resume_queue.put(False)\n        super().do_disable()","        if self.resume_queue:\n            self.resume_queue.put(False)\n        super().do_disable()"),
("disable-noverdict",R,"            context.stop()\n        if self.resume_queue:\n            self.resume_queue.put(False)\n        super().do_disable()","            context.stop()\n        super().do_disable()"),
("disable-late",R,"        for context in self.part_contexts.values():\n            context.stop()\n        if self.resume_queue:\n            self.resume_queue.put(False)\n        super().do_disable()","        super().do_disable()\n        for context in self.part_contexts.values():\n            context.stop()\n        if self.resume_queue:\n            self.resume_queue.put(False)"),
("fault-noverdict",R,"        if self.resume_queue:\n            self.resume_queue.put(False)\n        super().go_to_error_state(exception)","        super().go_to_error_state(exception)"),
("old-queue",R,"        self.resume_queue = Queue()\n\n    @add_call_types\n    def run","        if self.resume_queue is None:\n            self.resume_queue = Queue()\n\n    @add_call_types\n    def run"),
("old-contexts",R,"        for context in self.part_contexts.values():\n            context.unsubscribe_all()\n",""),
("shared-contexts",R,"        self.part_contexts = self.create_part_contexts()\n","        if not self.part_contexts:\n            self.part_contexts = self.create_part_contexts()\n"),
("no-own-ctx",R,"        self.part_contexts[self] = Context(self.process)\n",""),
("late-own-ctx",R,[ (R,"        self.part_contexts[self] = Context(self.process)\n",""),(R,"        self.resume_queue = Queue()\n\n    @add_call","        self.resume_queue = Queue()\n        self.part_contexts[self] = Context(self.process)\n\n    @add_call")]) if False else ("late-own-ctx",[(R,"        self.part_contexts[self] = Context(self.process)\n",""),(R,"        self.resume_queue = Queue()\n\n    @add_call","        self.resume_queue = Queue()\n        self.part_contexts[self] = Context(self.process)\n\n    @add_call")]),
("wait-locked",R,"            if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):\n                # Something was running, let it finish aborting\n                try:\n                    self.abort_queue.get(timeout=DEFAULT_TIMEOUT)\n                except TimeoutError:\n                    self.log.warning(\"Timeout waiting while {start_state}\")\n            with self._lock:\n","            with self._lock:\n                if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):\n                    # Something was running, let it finish aborting\n                    try:\n                        self.abort_queue.get(timeout=DEFAULT_TIMEOUT)\n                    except TimeoutError:\n                        self.log.warning(\"Timeout waiting while {start_state}\")\n"),
("timeout-raises",R,"                try:\n                    self.abort_queue.get(timeout=DEFAULT_TIMEOUT)\n                except TimeoutError:\n                    self.log.warning(\"Timeout waiting while {start_state}\")\n","                self.abort_queue.get(timeout=DEFAULT_TIMEOUT)\n"),
("fresh-ctx-run",R,"        self.run_hooks(hook(p, c) for p, c in self.part_contexts.items())\n        self.abortable","        self.run_hooks(hook(p, c) for p, c in self.create_part_contexts().items())\n        self.abortable"),
("fresh-ctx-cfg",R,"        self.run_hooks(PreConfigureHook(p, c) for p, c in self.part_contexts.items())\n","        self.run_hooks(PreConfigureHook(p, c) for p, c in self.create_part_contexts().items())\n"),
("=helper-stop",[(R,"                for context in self.part_contexts.values():\n                    context.stop()\n            if original","                self._stop_all()\n            if original"),(R,"    def do_abort(self)","    def _stop_all(self):\n        for ctx in list(self.part_contexts.values()):\n            ctx.stop()\n\n    def do_abort(self)"),(R,"        for context in self.part_contexts.values():\n            context.stop()\n        if self.resume","        self._stop_all()\n        if self.resume")]),
("=verdict-helper",[(R,"        # Tell _call_do_run not to resume\n        if self.resume_queue:\n            self.resume_queue.put(False)\n","        self._tell_run(False)\n"),(R,"    def do_abort(self)","    def _tell_run(self, go):\n        if self.resume_queue is not None:\n            self.resume_queue.put(go)\n\n    def do_abort(self)")]),
("=in-ctx",R,"            self_ctx = self.part_contexts.get(self, None)\n            if self_ctx:\n                self_ctx.sleep(0)\n            self.transition(state)","            if self in self.part_contexts:\n                self.part_contexts[self].sleep(0)\n            self.transition(state)"),
("=while-true",[(R,"            going = True\n            while going:\n","            while True:\n"),(R,"                else:\n                    going = False\n","                else:\n                    break\n")]),
("=local-queue",R,"                self.abort_queue = Queue()\n                self.transition(start_state)\n","                queue = Queue()\n                self.abort_queue = queue\n                self.transition(start_state)\n"),
("=local-queue2",[(R,"                self.abort_queue = Queue()\n                self.transition(start_state)\n","                queue = Queue()\n                self.abort_queue = queue\n                self.transition(start_state)\n"),(R,"self.abort_queue.get(timeout=","queue.get(timeout=")]),
("=running-const",[(R,"            if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):","            idle = original_state in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED)\n            if not idle:")]),
("=early-continue",R,"                    should_resume = self.resume_queue.get()\n                    if should_resume:\n                        # we need to resume\n                        self.log.debug(\"Resuming run\")\n                    else:\n                        # we don't need to resume, just drop out\n                        raise\n","                    if not self.resume_queue.get():\n                        # we don't need to resume, just drop out\n                        raise\n                    self.log.debug(\"Resuming run\")\n"),
]

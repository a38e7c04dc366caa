S="malcolm/modules/builtin/controllers/statefulcontroller.py"; R="malcolm/modules/scanning/controllers/runnablecontroller.py"; M="malcolm/modules/builtin/controllers/managercontroller.py"
W="malcolm/modules/web/controllers/httpservercomms.py"
MUTS=[
("swallow",S,"            self.go_to_error_state(e)\n            raise\n","            self.go_to_error_state(e)\n"),
("no-error-state",S,"        except Exception as e:  # pylint:disable=broad-except\n            self.log.debug(","        except (ValueError, AssertionError) as e:  # pylint:disable=broad-except\n            self.log.debug("),
("end-first",S,"            func(*args, **kwargs)\n            self.transition(end_state)","            self.transition(end_state)\n            func(*args, **kwargs)"),
("no-start",S,"            self.transition(start_state)\n            func(*args, **kwargs)","            func(*args, **kwargs)"),
("save-end",M,"self.try_stateful_function(ss.SAVING, ss.READY, self.do_save, designName)","self.try_stateful_function(ss.SAVING, ss.SAVING, self.do_save, designName)"),
("load-state",M,"self.try_stateful_function(ss.LOADING, ss.READY, self.do_load, value)","self.try_stateful_function(ss.SAVING, ss.READY, self.do_load, value)"),
("cfg-nofault",R,"        except Exception as e:\n            self.go_to_error_state(e)\n            raise\n        else:\n            return params","        except Exception:\n            raise\n        else:\n            return params"),
("cfg-abort-fault",R,"        except AbortedError:\n            assert self.abort_queue, \"No abort queue\"\n            self.abort_queue.put(None)\n            raise\n        except Exception as e:\n            self.go_to_error_state(e)\n            raise\n        else:\n            return params","        except Exception as e:\n            if isinstance(e, AbortedError) and self.abort_queue:\n                self.abort_queue.put(None)\n            self.go_to_error_state(e)\n            raise\n        else:\n            return params"),
("cfg-armed-early",R,"            self.do_configure(state, params)\n            self.abortable_transition(ss.ARMED)","            self.abortable_transition(ss.ARMED)\n            self.do_configure(state, params)"),
("cfg-noarm-try",R,"            self.do_configure(state, params)\n            self.abortable_transition(ss.ARMED)\n","            self.do_configure(state, params)\n            if not params.breakpoints:\n                self.abortable_transition(ss.ARMED)\n"),
("run-nofault",R,"        except AbortedError:\n            raise\n        except Exception as e:\n            self.go_to_error_state(e)\n            raise\n\n    def do_run","        except AbortedError:\n            raise\n        except RuntimeError as e:\n            self.go_to_error_state(e)\n            raise\n\n    def do_run"),
("abort-fault-swallow",R,"        except Exception as e:  # pylint:disable=broad-except\n            self.go_to_error_state(e)\n            raise\n\n    # Allow camelCase","        except Exception as e:  # pylint:disable=broad-except\n            self.go_to_error_state(e)\n\n    # Allow camelCase"),
("fault-nomsg",S,"            self.transition(ss.FAULT, str(exception))","            self.transition(ss.FAULT)"),
("rc-nofault",R,"            self.resume_queue.put(False)\n        super().go_to_error_state(exception)","            self.resume_queue.put(False)\n        else:\n            super().go_to_error_state(exception)"),
("reset-nohook",R,"    def do_reset(self):\n        super().do_reset()\n","    def do_reset(self):\n        if self.state.value != ss.FINISHED:\n            super().do_reset()\n"),
("web-nodis",W,"    def do_disable(self):\n        super().do_disable()\n","    def do_disable(self):\n"),
("halt-order",S,"        self.run_hooks(\n            HaltHook(part, context)\n            for part, context in self.create_part_contexts().items()\n        )\n        self.disable()","        self.disable()\n        self.run_hooks(\n            HaltHook(part, context)\n            for part, context in self.create_part_contexts().items()\n        )"),
("disable-wronghook",S,"            DisableHook(part, context)","            HaltHook(part, context)"),
("no-stop-hook",S,"        self.register_hooked(ProcessStopHook, self.halt)","        self.register_hooked(ProcessStopHook, self.disable)"),
("pause-end",R,"            next_state = ss.PAUSED\n","            next_state = ss.RUNNING\n"),
("=inline",S,"        self.try_stateful_function(ss.RESETTING, ss.READY, self.do_reset)","        start, end = ss.RESETTING, ss.READY\n        self.try_stateful_function(start, end, self.do_reset)"),
("=else",S,"            func(*args, **kwargs)\n            self.transition(end_state)\n        except Exception as e:","            func(*args, **kwargs)\n            final = end_state\n            self.transition(final)\n        except Exception as e:"),
("=early",S,"        if self.state.value != ss.FAULT:\n            self.transition(ss.FAULT, str(exception))","        if self.state.value == ss.FAULT:\n            return\n        message = str(exception)\n        self.transition(ss.FAULT, message)"),
("=run-ret",R,"            going = True\n            while going:","            while True:") if False else
("=cfg-ret",R,"            self.go_to_error_state(e)\n            raise\n        else:\n            return params","            self.go_to_error_state(e)\n            raise\n        return params"),
("=loop-hooks",S,"        self.run_hooks(\n            ResetHook(part, context)\n            for part, context in self.create_part_contexts().items()\n        )","        contexts = self.create_part_contexts()\n        hooks = []\n        for part, context in contexts.items():\n            hooks.append(ResetHook(part, context))\n        self.run_hooks(hooks)"),
("=helper-hooks",[(S,"        self.run_hooks(\n            ResetHook(part, context)\n            for part, context in self.create_part_contexts().items()\n        )","        self._run_part_hooks(ResetHook)\n\n    def _run_part_hooks(self, hook_cls):\n        self.run_hooks(\n            hook_cls(part, context)\n            for part, context in self.create_part_contexts().items()\n        )"),(S,"        self.run_hooks(\n            DisableHook(part, context)\n            for part, context in self.create_part_contexts().items()\n        )","        self._run_part_hooks(DisableHook)")]),
("=abortq-helper",[(R,"        except AbortedError:\n            assert self.abort_queue, \"No abort queue\"\n            self.abort_queue.put(None)\n            raise\n        except Exception as e:\n            self.go_to_error_state(e)\n            raise\n        else:\n            return params","        except AbortedError:\n            self._tell_aborted()\n            raise\n        except Exception as e:\n            self.go_to_error_state(e)\n            raise\n        else:\n            return params\n\n    def _tell_aborted(self):\n        assert self.abort_queue, \"No abort queue\"\n        self.abort_queue.put(None)\n")]),
]

H="malcolm/core/hook.py"; K="malcolm/core/concurrency.py"; C="malcolm/core/controller.py"; B="malcolm/modules/builtin/hooks.py"; S="malcolm/modules/scanning/hooks.py"
MUTS=[
("queue-per-hook",H,"        hook.set_queue(hook_queue)\n        hook.child.on_hook(hook)","        hook.child.on_hook(hook)\n        hook.set_queue(hook_queue)"),
("append-all",H,"        if hook.spawned:\n            hook_spawned.append(hook)","        if hook.spawned and not hook.spawned.ready():\n            hook_spawned.append(hook)"),
("stop-self-only",H,"                for h in hook_spawned:\n                    h.stop()","                for h in hook_spawned_set:\n                    h.stop()\n                    break"),
("no-wait-others",H,"            for h in hook_spawned:\n                assert h.spawned, \"No spawned functions\"\n                h.spawned.wait(timeout)\n            raise ret","            raise ret"),
("wait-notimeout",H,"                h.spawned.wait(timeout)\n            raise ret","                h.spawned.wait()\n            raise ret"),
("abort-not-raised",H,"        if isinstance(ret, Exception) and exception_check:\n            if not isinstance(ret, AbortedError):","        if isinstance(ret, AbortedError) and hook_spawned_set:\n            continue\n        if isinstance(ret, Exception) and exception_check:\n            if not isinstance(ret, AbortedError):"),
("break-early",H,"            return_dict[hook.child.name] = ret\n","            return_dict[hook.child.name] = ret\n            if ret is None and len(hook_spawned_set) == 1:\n                break\n"),
("res-hook-name",H,"            return_dict[hook.child.name] = ret\n","            return_dict[hook.name] = ret\n"),
("no-own-wait",H,"        hook.spawned.wait(timeout)\n        duration","        duration"),
("run-abort-lost",H,"            log.info(\"%s: %s has been aborted\", self.child, func)\n            result = e","            log.info(\"%s: %s has been aborted\", self.child, func)\n            return"),
("run-noval",H,"            result = self.validate_return(result)\n","            if result is not None:\n                result = self.validate_return(result)\n") ,
("run-except",H,"        except Exception as e:  # pylint:disable=broad-except\n            log.exception(","        except ValueError as e:  # pylint:disable=broad-except\n            log.exception("),
("prepare-late",H,"        self.prepare()\n        if args_gen","        if args_gen"),
("kwargs-all",H,"kwargs = {k: self._kwargs[k] for k in demanded}","kwargs = dict(self._kwargs)"),
("unlocked",C,"        with self._lock:\n            hook_queue, hook_spawned = start_hooks(hooks)","        hook_queue, hook_spawned = start_hooks(hooks)"),
("first-spawn",C,"        for hook in hooks:\n            hook.set_spawn(self.process.spawn)","        for hook in hooks[:1]:\n            hook.set_spawn(self.process.spawn)"),
("nocheck",C,"self.log, hook_queue, hook_spawned, DEFAULT_TIMEOUT\n","self.log, hook_queue, hook_spawned, DEFAULT_TIMEOUT, False\n"),
("stop-noop",B,"    def stop(self) -> None:\n        self.context.stop()","    def stop(self) -> None:\n        if self.spawned and self.spawned.ready():\n            self.context.stop()"),
("prep-noop",B,"        self.context.ignore_stops_before_now()","        if not self.spawned and self._queue is None:\n            self.context.ignore_stops_before_now()"),
("proxy-other",B,"context=weakref.proxy(context), **kwargs)","context=weakref.proxy(Context(context._process)), **kwargs)"),
("swap-kw",S,"            completed_steps=completed_steps,\n            steps_to_do=steps_to_do,","            completed_steps=steps_to_do,\n            steps_to_do=steps_to_do,"),
("reg-first",H,"        for hook_cls in hooks:\n            self.hooked[hook_cls] = (func, args_gen)","        for hook_cls in hooks[:1]:\n            self.hooked[hook_cls] = (func, args_gen)"),
("spawn-exc",K,"        except Exception as e:\n            log.debug(","        except RuntimeError as e:\n            log.debug("),
("spawn-order",K,"        self._result_queue.put(None)\n\n    def wait","    def wait"),
("spawn-get",K,"        if isinstance(self._result, Exception):\n            raise self._result\n","        if isinstance(self._result, Exception) and timeout is None:\n            raise self._result\n"),
("spawn-wait-nt",K,"            self._result_queue.get(timeout)","            self._result_queue.get()"),
("hook-arg","malcolm/modules/ADOdin/parts/odinwriterpart.py","    def on_reset(self, context: scanning.hooks.AContext) -> None:","    def on_reset(self, context: scanning.hooks.AContext, part_info: scanning.hooks.APartInfo) -> None:"),
("=wh-split",[(H,"            if not isinstance(ret, AbortedError):\n                # If AbortedError, all tasks have already been stopped.\n                # Got an error, so stop and wait all hook runners\n                for h in hook_spawned:\n                    h.stop()\n            # Wait for them to finish\n            for h in hook_spawned:\n                assert h.spawned, \"No spawned functions\"\n                h.spawned.wait(timeout)\n            raise ret\n        else:\n            return_dict[hook.child.name] = ret\n","            _stop_and_wait(hook_spawned, ret, timeout)\n            raise ret\n        return_dict[hook.child.name] = ret\n"),(H,"def wait_hooks(","def _stop_and_wait(hook_spawned, error, timeout):\n    if not isinstance(error, AbortedError):\n        for h in hook_spawned:\n            h.stop()\n    for h in hook_spawned:\n        assert h.spawned, \"No spawned functions\"\n        h.spawned.wait(timeout)\n\n\ndef wait_hooks(")]),
("=wh-len",H,"    while hook_spawned_set:","    while len(hook_spawned_set) > 0:"),
("=wh-list",H,"    hook_spawned_set = set(hook_spawned)","    hook_spawned_set = list(hook_spawned)"),
("=start",H,"    hook_spawned = []\n    # now start them off\n    for hook in hooks:\n        hook.set_queue(hook_queue)\n        hook.child.on_hook(hook)\n        if hook.spawned:\n            hook_spawned.append(hook)\n    return hook_queue, hook_spawned","    for hook in hooks:\n        hook.set_queue(hook_queue)\n        hook.child.on_hook(hook)\n    return hook_queue, [hook for hook in hooks if hook.spawned]"),
("=run",H,"        except AbortedError as e:\n            log.info(\"%s: %s has been aborted\", self.child, func)\n            result = e\n        except Exception as e:  # pylint:disable=broad-except\n            log.exception(\n                \"%s: %s(**%s) raised exception %s\", self.child, func, kwargs, e\n            )\n            result = e","        except Exception as e:  # pylint:disable=broad-except\n            if isinstance(e, AbortedError):\n                log.info(\"%s: %s has been aborted\", self.child, func)\n            else:\n                log.exception(\n                    \"%s: %s(**%s) raised exception %s\", self.child, func, kwargs, e\n                )\n            result = e"),
("=onhook",H,"        try:\n            if self.hooked is not None:\n                func, args_gen = self.hooked[type(hook)]\n            else:\n                return\n        except KeyError:\n            return\n        else:\n            hook(func, args_gen)","        if self.hooked is None or type(hook) not in self.hooked:\n            return\n        func, args_gen = self.hooked[type(hook)]\n        hook(func, args_gen)"),
("=kwloop",H,"        kwargs = {k: self._kwargs[k] for k in demanded}","        kwargs = {}\n        for key in demanded:\n            kwargs[key] = self._kwargs[key]"),
("=spawnwait",K,"        if self._result == self.NO_RESULT:\n            self._result_queue.get(timeout)","        if not self.ready():\n            self._result_queue.get(timeout)"),
("=set_spawn",C,"        for hook in hooks:\n            hook.set_spawn(self.process.spawn)","        spawn = self.process.spawn\n        for hook in hooks:\n            hook.set_spawn(spawn)"),
("=runhooks",C,"        return self.wait_hooks(*self.start_hooks(hooks))","        hook_queue, hook_spawned = self.start_hooks(hooks)\n        return self.wait_hooks(hook_queue, hook_spawned)"),
]

C="malcolm/core/context.py"; F="malcolm/core/future.py"
MUTS=[
("wait-if",C,"        while filtered_futures:","        for _ in filtered_futures[:1]:"),
("wait-if2",C,"        while filtered_futures:","        if filtered_futures:"),
("id-not-advanced",C,"        new_id = self._next_id\n        self._next_id += 1\n        return new_id","        new_id = self._next_id\n        if new_id not in self._futures:\n            return new_id\n        self._next_id += 1\n        return self._next_id"),
("register-after",C,"        self._futures[request.id] = future\n        self._requests[future] = request\n        controller","        self._requests[future] = request\n        controller"),
("dispatch-order",C,"        self.handle_request(controller, request)\n        return future","        self.handle_request(controller, request)\n        self._requests[future] = request\n        return future"),
("sub-after",C,"        self._subscriptions[request.id] = (callback, saved_args)\n        future = self._dispatch_request(request)","        future = self._dispatch_request(request)\n        self._subscriptions[request.id] = (callback, saved_args)"),
("args-lost",C,"(callback, saved_args)","(callback, saved_args[:1])"),
("err-swallow",C,"            else:\n                raise response.message","            else:\n                if not isinstance(response.message, AbortedError):\n                    raise response.message"),
("err-always",C,"            except ValueError:\n                pass\n            else:\n                raise response.message","            except ValueError:\n                pass\n            raise response.message"),
("ret-noremove",C,"            future.set_result(result)\n            try:\n                futures.remove(future)\n            except ValueError:\n                pass","            future.set_result(result)\n            if futures and futures[0] is future:\n                futures.remove(future)"),
("ret-keepreq",C,"            del self._requests[future]\n            self._pending","            self._pending"),
("stop-clears",C,"            if self._sentinel_stop is None:\n                # This","            if self._sentinel_stop is not None:\n                self._sentinel_stop = None\n            else:\n                # This"),
("stop-ignored",C,"            if self._sentinel_stop is None:\n","            if self._sentinel_stop is None and futures:\n"),
("sentinel-keep",C,"            self._sentinel_stop = None\n        elif","            pass\n        elif"),
("sentinel-noput",C,"        self._q.put(self._sentinel_stop)","        pass"),
("nested-noexc",C,"                    if future.exception() is not None:\n                        raise future.exception()\n        elif","        elif"),
("nested-skip",C,"            for future in list(futures):\n                if future not in self._requests:","            for future in list(futures)[:1]:\n                if future not in self._requests:"),
("wait-noexc",C,"                if f.exception() is not None:\n                    raise f.exception()\n            else","                pass\n            else"),
("wait-one",C,"        while filtered_futures:","        if filtered_futures:\n            del filtered_futures[1:]\n        while filtered_futures:"),
("min-max",C,"until = min(until, end)","until = max(until, end)"),
("until-ignored",C,"                until = end\n            self","                until = None\n            self"),
("neg-timeout",C,"            timeout = until - time.time()\n            if timeout < 0:\n                timeout = 0","            timeout = until - time.time()\n            if timeout < 0:\n                timeout = None"),
("timeout-swallow",C,"        except TimeoutError:\n            raise TimeoutError(f\"Timeout waiting for {self._describe_futures(futures)}\")","        except TimeoutError:\n            if futures or until is None:\n                return\n            raise TimeoutError(f\"Timeout waiting for {self._describe_futures(futures)}\")"),
("sleep-swallow",C,"        except TimeoutError:\n            return\n","        except (TimeoutError, AbortedError):\n            return\n"),
("sleep-all",C,"        except TimeoutError:\n            return\n","        except Exception:\n            return\n"),
("unsub-twice",C,"        self._pending_unsubscribes[future] = subscribe\n","        self._pending_unsubscribes[subscribe] = subscribe\n"),
("unsub-drop",C,"        self._subscriptions.pop(subscribe.id)\n","        if subscribe.id in self._subscriptions and False:\n            self._subscriptions.pop(subscribe.id)\n"),
("unsub-forget",C,"        self._subscriptions.pop(subscribe.id)\n","        self._subscriptions.pop(subscribe.id)\n        self._futures.pop(subscribe.id)\n"),
("unsub-id",C,"request = Unsubscribe(subscribe.id)","request = Unsubscribe(self._get_next_id())"),
("unsuball-first",C,"                    self.unsubscribe(future)\n","                    self.unsubscribe(future)\n                    break\n"),
("unsuball-pending",C,"if isinstance(r, Subscribe) and f not in self._pending_unsubscribes","if isinstance(r, Subscribe)"),
("when-nounsub-exc",C,"                self.context.unsubscribe(self.future)\n                self.future = None\n                raise","                self.future = None\n                raise"),
("when-swallow",C,"                self.future = None\n                raise","                self.future = None"),
("when-noforget",C,"                    self.context.unsubscribe(self.future)\n                    self.future = None","                    self.context.unsubscribe(self.future)"),
("when-badfirst",C,"                if bad_values and value in bad_values:","                if bad_values and value == bad_values[0]:"),
("when-neq",C,"return value == good_value","return value == good_value or not value"),
("fut-exc",F,"        if self._exception:\n            raise self._exception\n        else:\n            return self._result","        if self._exception and self._result is None:\n            raise self._exception\n        else:\n            return self._result"),
("fut-done",F,"        self._exception = exception\n        self._state = self.FINISHED","        self._exception = exception"),
("fut-timeout",F,"    def result(self, timeout=None):","    def result(self, timeout=None, _t=None):") if False else
("fut-timeout",F,"            self._context.wait_all_futures([self], timeout)\n        return self._exception","            self._context.wait_all_futures([self])\n        return self._exception"),
("put-timeout",C,"        future = self.put_async(path, value)\n        self.wait_all_futures(future, timeout=timeout, event_timeout=event_timeout)","        future = self.put_async(path, value)\n        self.wait_all_futures(future, timeout=event_timeout, event_timeout=timeout)"),
("update-unsub",C,"            if response.id in self._subscriptions:\n                func, args","            if response.id in self._futures:\n                func, args"),
("update-noargs",C,"                func(response.value, *args)","                func(response.value)"),
("=extract",[(C,"        elif isinstance(response, Return):\n            future = self._futures.pop(response.id)\n            del self._requests[future]\n            self._pending_unsubscribes.pop(future, None)\n            result = response.value\n            future.set_result(result)\n            try:\n                futures.remove(future)\n            except ValueError:\n                pass\n        elif isinstance(response, Error):\n            future = self._futures.pop(response.id)\n            del self._requests[future]\n            future.set_exception(response.message)\n            try:\n                futures.remove(future)\n            except ValueError:\n                pass\n            else:\n                raise response.message","        elif isinstance(response, Return):\n            future = self._pop_future(response.id)\n            self._pending_unsubscribes.pop(future, None)\n            future.set_result(response.value)\n            if future in futures:\n                futures.remove(future)\n        elif isinstance(response, Error):\n            future = self._pop_future(response.id)\n            future.set_exception(response.message)\n            if future in futures:\n                futures.remove(future)\n                raise response.message"),(C,"    def sleep(self","    def _pop_future(self, ident):\n        future = self._futures.pop(ident)\n        del self._requests[future]\n        return future\n\n    def sleep(self")]),
("=earlyret",C,"        if response is self._sentinel_stop:\n            self._sentinel_stop = None\n        elif response is self.STOP:\n            if self._sentinel_stop is None:\n                # This is a stop we should listen to...\n                raise AbortedError(\n                    f\"Aborted waiting for {self._describe_futures(futures)}\"\n                )\n        elif","        if response is self._sentinel_stop:\n            self._sentinel_stop = None\n            return\n        if response is self.STOP:\n            if self._sentinel_stop is not None:\n                return\n            raise AbortedError(\n                f\"Aborted waiting for {self._describe_futures(futures)}\"\n            )\n        if"),
("=subget",C,"            if response.id in self._subscriptions:\n                func, args = self._subscriptions[response.id]\n                func(response.value, *args)","            entry = self._subscriptions.get(response.id, None)\n            if entry is not None:\n                func, args = entry\n                func(response.value, *args)"),
("=deadline",[(C,"            if event_timeout is not None:\n                until = time.time() + event_timeout\n                if end is not None:\n                    until = min(until, end)\n            else:\n                until = end\n            self._service_futures(filtered_futures, until)","            until = self._deadline(end, event_timeout)\n            self._service_futures(filtered_futures, until)"),(C,"    def sleep(self","    @staticmethod\n    def _deadline(end, event_timeout):\n        if event_timeout is None:\n            return end\n        until = time.time() + event_timeout\n        if end is not None and end < until:\n            until = end\n        return until\n\n    def sleep(self")]),
("=timeout",C,"            timeout = until - time.time()\n            if timeout < 0:\n                timeout = 0","            timeout = max(until - time.time(), 0)"),
("=listcomp",C,"        filtered_futures = []\n\n        for f in futures:\n            if f.done():\n                if f.exception() is not None:\n                    raise f.exception()\n            else:\n                filtered_futures.append(f)","        for f in futures:\n            if f.done() and f.exception() is not None:\n                raise f.exception()\n        filtered_futures = [f for f in futures if not f.done()]"),
("=helper-req",[(C,"        request = Post(self._get_next_id(), path, params)\n        request.set_callback(self._q.put)\n        future = self._dispatch_request(request)\n        return future","        return self._send(Post(self._get_next_id(), path, params))"),(C,"        request = Put(self._get_next_id(), path, value)\n        request.set_callback(self._q.put)\n        future = self._dispatch_request(request)\n        return future","        return self._send(Put(self._get_next_id(), path, value))"),(C,"    def sleep(self","    def _send(self, request):\n        request.set_callback(self._q.put)\n        return self._dispatch_request(request)\n\n    def sleep(self")]),
("=saved",C,"        saved_args = []\n        for arg in args:\n            if arg is self:\n                saved_args.append(weakref.proxy(self))\n            else:\n                saved_args.append(arg)","        saved_args = [weakref.proxy(self) if arg is self else arg for arg in args]"),
("=unsuball",C,"        futures = (\n            (f, r)\n            for f, r in self._requests.items()\n            if isinstance(r, Subscribe) and f not in self._pending_unsubscribes\n        )\n        if futures:\n            for future, request in futures:\n                if callback:\n                    log.warning(f\"Unsubscribing from {request.path}\")\n                    cothread.Callback(self.unsubscribe, future)\n                else:\n                    self.unsubscribe(future)","        for future, request in list(self._requests.items()):\n            if not isinstance(request, Subscribe):\n                continue\n            if future in self._pending_unsubscribes:\n                continue\n            if callback:\n                log.warning(f\"Unsubscribing from {request.path}\")\n                cothread.Callback(self.unsubscribe, future)\n            else:\n                self.unsubscribe(future)"),
("=when",[(C,"            except Exception:\n                # Bad value, so unsubscribe\n                assert self.context, \"No context\"\n                self.context.unsubscribe(self.future)\n                self.future = None\n                raise\n            else:\n                if satisfied:\n                    # All done, so unsubscribe\n                    assert self.context, \"No context\"\n                    self.context.unsubscribe(self.future)\n                    self.future = None","            except Exception:\n                self._finish()\n                raise\n            if satisfied:\n                self._finish()"),(C,"    def __call__(self, value: Any)","    def _finish(self):\n        assert self.context, \"No context\"\n        self.context.unsubscribe(self.future)\n        self.future = None\n\n    def __call__(self, value: Any)")]),
("=futdone",F,"        if self._exception:\n            raise self._exception\n        else:\n            return self._result","        if self._exception is not None:\n            raise self._exception\n        return self._result"),
("=futresult",F,"        if self._state == self.RUNNING:\n            self._context.wait_all_futures([self], timeout)\n        return self.__get_result()","        if not self.done():\n            self._context.wait_all_futures([self], timeout)\n        return self.__get_result()"),
("=inline-wait",C,"        future = self.post_async(path, params)\n        self.wait_all_futures(future, timeout=timeout, event_timeout=event_timeout)\n        return future.result()","        future = self.post_async(path, params)\n        self.wait_all_futures([future], timeout, event_timeout)\n        return future.result()"),
]

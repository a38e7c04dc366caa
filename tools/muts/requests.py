C="malcolm/core/controller.py"; N="malcolm/core/notifier.py"; R="malcolm/core/request.py"
MUTS=[
("narrow-except",C,"            except Exception as e:\n                responses.append(request.error_response(e))","            except (AssertionError, KeyError, ValueError) as e:\n                responses.append(request.error_response(e))"),
("unsub-silent",N,"            ret.append(request.return_response())","            if self.data is not None:\n                ret.append(request.return_response())"),
("id0",R,"        response = Error(id=self.id, message=exception)","        response = Error(message=exception)"),
("put-lock",C,"        with self.lock_released:\n            result = put_function(value)","        result = put_function(value)"),
("cb-in-lock",C,"        for cb, response in responses:\n            try:\n                cb(response)\n            except Exception:\n                self.log.exception(f\"Exception notifying {response}\")\n                raise\n\n    def _handle_get","            for cb, response in responses:\n                try:\n                    cb(response)\n                except Exception:\n                    self.log.exception(f\"Exception notifying {response}\")\n                    raise\n\n    def _handle_get"),
("lockrel-nofinally",C,"        try:\n            yield\n        finally:\n            self._lock.acquire()","        yield\n        self._lock.acquire()"),
("novalidate",C,"        value = attribute.meta.validate(request.value)\n","        value = request.value\n"),
("writeable-only-post",C,"        self.check_field_writeable(attribute)\n","        if request.get:\n            self.check_field_writeable(attribute)\n"),
("log-not-finally",C,"""        except Exception as e:
            returned_alarm = Alarm.major(stringify_error(e))
            raise
        finally:
            self.update_method_logs(
                method, took_value, took_ts, returned_value, returned_alarm
            )
""","""        except Exception as e:
            returned_alarm = Alarm.major(stringify_error(e))
            raise
        else:
            self.update_method_logs(
                method, took_value, took_ts, returned_value, returned_alarm
            )
"""),
("get-short",C,"enumerate(request.path[1:])","enumerate(request.path[1:3])"),
("put-result-leak",C,"        elif not request.get:","        elif not request.get and result is None:"),
("notif-release",N,"""        finally:
            self._lock.release()
            self._callback_responses(responses)""","""            self._lock.release()
            self._callback_responses(responses)
        finally:
            pass"""),
("cb-before-release",N,"""            self._lock.release()
            self._callback_responses(responses)""","""            try:
                self._callback_responses(responses)
            finally:
                self._lock.release()"""),
("sub-delta-swap",N,"            if request.delta:\n                self.delta_requests","            if request.delta and self.children:\n                self.delta_requests"),
("=dispatch",C,"""            if isinstance(request, Get):
                handler = self._handle_get
            elif isinstance(request, Put):
                handler = self._handle_put
            elif isinstance(request, Post):
                handler = self._handle_post
            elif isinstance(request, Subscribe):
                handler = self._notifier.handle_subscribe
            elif isinstance(request, Unsubscribe):
                handler = self._notifier.handle_unsubscribe
            else:
                raise UnexpectedError(f"Unexpected request {request}")
            try:""","""            handlers = (
                (Get, self._handle_get),
                (Put, self._handle_put),
                (Post, self._handle_post),
                (Subscribe, self._notifier.handle_subscribe),
                (Unsubscribe, self._notifier.handle_unsubscribe),
            )
            for typ, handler in handlers:
                if isinstance(request, typ):
                    break
            else:
                raise UnexpectedError(f"Unexpected request {request}")
            try:"""),
("=dispatch-next",C,"""            if isinstance(request, Get):
                handler = self._handle_get
            elif isinstance(request, Put):
                handler = self._handle_put
            elif isinstance(request, Post):
                handler = self._handle_post
            elif isinstance(request, Subscribe):
                handler = self._notifier.handle_subscribe
            elif isinstance(request, Unsubscribe):
                handler = self._notifier.handle_unsubscribe
            else:
                raise UnexpectedError(f"Unexpected request {request}")
            try:
                responses += handler(request)
            except Exception as e:
                responses.append(request.error_response(e))
""","""            handler = self._find_handler(request)
            try:
                responses = list(handler(request))
            except Exception as e:
                responses = [request.error_response(e)]
"""),
("=walk-helper",C,"""        data = self._block

        for i, endpoint in enumerate(request.path[1:]):
            try:
                data = data[endpoint]
            except KeyError:
                if hasattr(data, "typeid"):
                    typ = data.typeid
                else:
                    typ = type(data)
                path = ".".join(request.path[: i + 1])
                raise UnexpectedError(
                    f"Object '{path}' of type {typ!r} has no attribute '{endpoint}'"
                )
        # Important""","""        data = self._block
        i = 0
        while i < len(request.path) - 1:
            endpoint = request.path[i + 1]
            try:
                data = data[endpoint]
            except KeyError:
                typ = getattr(data, "typeid", type(data))
                path = ".".join(request.path[: i + 1])
                raise UnexpectedError(
                    f"Object '{path}' of type {typ!r} has no attribute '{endpoint}'"
                )
            i += 1
        # Important"""),
("=put-helper",C,"""        with self.lock_released:
            result = put_function(value)

        if request.get and result is None:
            # We asked for a Get, and didn't get given a return, so do return
            # the current value. Don't serialize here as value is immutable
            # (as long as we don't try too hard to break the rules)
            result = self._block[attribute_name].value
        elif not request.get:
            # We didn't ask for a Get, so throw result away
            result = None
        ret = [request.return_response(result)]
        return ret
""","""        self._lock.release()
        try:
            result = put_function(value)
        finally:
            self._lock.acquire()

        if not request.get:
            result = None
        elif result is None:
            result = attribute.value
        return [request.return_response(result)]
"""),
]
MUTS[15]=("=dispatch-next",[(C,MUTS[15][2],MUTS[15][3]),(C,"    def _handle_get(self, request: Get)","""    def _find_handler(self, request):
        if isinstance(request, Get):
            return self._handle_get
        if isinstance(request, Put):
            return self._handle_put
        if isinstance(request, Post):
            return self._handle_post
        if isinstance(request, Subscribe):
            return self._notifier.handle_subscribe
        if isinstance(request, Unsubscribe):
            return self._notifier.handle_unsubscribe
        raise UnexpectedError(f"Unexpected request {request}")

    def _handle_get(self, request: Get)""")])

C="malcolm/core/controller.py"; N="malcolm/core/notifier.py"; R="malcolm/core/request.py"; S="malcolm/core/response.py"
MUTS=[
("put-get-old",C,[(C,"        put_function = self.get_put_function(attribute_name)\n        value =","        put_function = self.get_put_function(attribute_name)\n        old = attribute.value\n        value ="),(C,"            result = self._block[attribute_name].value","            result = old")]),
("put-check-after",C,[(C,"        self.check_field_writeable(attribute)\n\n        put","        put"),(C,"        if request.get and result is None:","        self.check_field_writeable(attribute)\n        if request.get and result is None:")]),
("post-raw",C,"result = post_function(**took_value)","result = post_function(**dict(took_value, **request.parameters or {}))"),
("post-alarm-narrow",C,"        except Exception as e:\n            returned_alarm","        except AssertionError as e:\n            returned_alarm"),
("post-log-unlocked",C,"            with self.lock_released:\n                result = post_function(**took_value)\n            if method_return_unpacked","            self._lock.release()\n            result = post_function(**took_value)\n            self._lock.acquire()\n            if method_return_unpacked"),
("post-wrong-name",C,"post_function = self.get_post_function(method_name)","post_function = self.get_post_function(method.meta.label or method_name)"),
("get-freeze-later",C,"        serialized = freeze(data)\n        ret = [request.return_response(serialized)]","        with self.lock_released:\n            serialized = freeze(data)\n        ret = [request.return_response(serialized)]"),
("get-attr-default",C,"                data = data[endpoint]\n            except KeyError:\n                if hasattr","                data = data[endpoint]\n            except IndexError:\n                break\n            except KeyError:\n                if hasattr"),
("key-callback-only",R,"key = (self.callback, self.id)","key = (self.callback, self.id or 0 if self.id < 2 ** 16 else 0)"),
("key-id-hash",R,"key = (self.callback, self.id)","key = (hash(self.callback) % 1024, self.id)"),
("error-once",C,"                responses.append(request.error_response(e))","                if not responses:\n                    log_ = self.log.debug\n                if not isinstance(e, KeyError):\n                    responses.append(request.error_response(e))"),
("unknown-unsub-ok",N,"        subscribe = self._subscription_keys.pop(request.generate_key())\n        ret =","        subscribe = self._subscription_keys.pop(request.generate_key(), None)\n        if subscribe is None:\n            return []\n        ret ="),
("unsub-keep-key",N,"self._subscription_keys.pop(request.generate_key())","self._subscription_keys[request.generate_key()]"),
("prune-delta",N,"                and not child.update_requests\n                and not child.delta_requests\n","                and not child.update_requests\n"),
("prune-children",N,"                not child.children\n                and not child.update_requests\n","                not child.update_requests\n"),
("sub-share-node",N,"            if name not in self.children:\n                self.children[name] =","            if not self.children.get(name):\n                self.children[name] ="),
("exit-exc-drop",N,"            if self._squashed_count == 0:\n","            if self._squashed_count == 0 and exc_type is None:\n"),
("exit-count-late",N,"                changes = self._squashed_changes\n                self._squashed_changes = []\n                # TODO: squash intermediate deltas here?\n                responses += self._tree.notify_changes(changes)","                # TODO: squash intermediate deltas here?\n                responses += self._tree.notify_changes(self._squashed_changes)\n                self._squashed_changes.clear()"),
("enter-count-first",N,"        self._lock.acquire()\n        self._squashed_count += 1","        self._squashed_count += 1\n        self._lock.acquire()"),
("notify-upd-else",N,"        if self.delta_requests:\n            for change in changes:\n                change","        elif self.delta_requests:\n            for change in changes:\n                change"),
("notify-one-freeze",N,"            for change in changes:\n                change[-1] = freeze(change[-1])\n","            changes[-1][-1] = freeze(changes[-1][-1])\n"),
("add-child-replace",N,"                child_changes.setdefault(name, []).append(child_change)\n        else:\n            # This is for us","                child_changes[name] = [child_change]\n        else:\n            # This is for us"),
("lock-not-reacq",C,"        self._lock.release()\n        try:\n            yield\n        finally:\n            self._lock.acquire()","        self._lock.release()\n        try:\n            yield\n        except Exception:\n            self._lock.acquire()\n            raise\n        else:\n            self._lock.acquire()"),
("callback-swap",C,"        for cb, response in responses:\n            try:\n                cb(response)","        for _, response in responses:\n            try:\n                request.callback(response)"),
("resp-once-async",C,"            try:\n                responses += handler(request)\n            except Exception as e:\n                responses.append(request.error_response(e))\n        for cb, response in responses:\n            try:\n                cb(response)\n            except Exception:\n                self.log.exception(f\"Exception notifying {response}\")\n                raise","            try:\n                responses += handler(request)\n            except Exception as e:\n                responses.append(request.error_response(e))\n            for cb, response in responses:\n                with self.lock_released:\n                    cb(response)"),
("=respond-helper",C,[(C,"        for cb, response in responses:\n            try:\n                cb(response)\n            except Exception:\n                self.log.exception(f\"Exception notifying {response}\")\n                raise\n","        self._send_responses(responses)\n\n    def _send_responses(self, responses):\n        for cb, response in responses:\n            try:\n                cb(response)\n            except Exception:\n                self.log.exception(f\"Exception notifying {response}\")\n                raise\n")]),
("=handler-helper",C,[(C,"            if isinstance(request, Get):\n                handler = self._handle_get\n            elif isinstance(request, Put):\n                handler = self._handle_put\n            elif isinstance(request, Post):\n                handler = self._handle_post\n            elif isinstance(request, Subscribe):\n                handler = self._notifier.handle_subscribe\n            elif isinstance(request, Unsubscribe):\n                handler = self._notifier.handle_unsubscribe\n            else:\n                raise UnexpectedError(f\"Unexpected request {request}\")\n","            handler = self._get_handler(request)\n"),(C,"    def _handle_get(self, request","    def _get_handler(self, request):\n        if isinstance(request, Get):\n            return self._handle_get\n        if isinstance(request, Put):\n            return self._handle_put\n        if isinstance(request, Post):\n            return self._handle_post\n        if isinstance(request, Subscribe):\n            return self._notifier.handle_subscribe\n        if isinstance(request, Unsubscribe):\n            return self._notifier.handle_unsubscribe\n        raise UnexpectedError(f\"Unexpected request {request}\")\n\n    def _handle_get(self, request")]),
("=put-nested",C,"        if request.get and result is None:\n            # We asked for a Get, and didn't get given a return, so do return\n            # the current value. Don't serialize here as value is immutable\n            # (as long as we don't try too hard to break the rules)\n            result = self._block[attribute_name].value\n        elif not request.get:\n            # We didn't ask for a Get, so throw result away\n            result = None\n","        if request.get:\n            if result is None:\n                result = self._block[attribute_name].value\n        else:\n            result = None\n"),
("=find-field",C,[(C,"        try:\n            attribute = self._block[attribute_name]\n        except KeyError:\n            raise FieldError(f\"Block '{self.mri}' has no Attribute '{attribute_name}'\")\n","        attribute = self._find_field(attribute_name, \"Attribute\")\n"),(C,"        try:\n            method = self._block[method_name]\n        except KeyError:\n            raise FieldError(f\"Block '{self.mri}' has no Method '{method_name}'\")\n","        method = self._find_field(method_name, \"Method\")\n"),(C,"    def _handle_put(self, request","    def _find_field(self, name, kind):\n        try:\n            return self._block[name]\n        except KeyError:\n            raise FieldError(f\"Block '{self.mri}' has no {kind} '{name}'\")\n\n    def _handle_put(self, request")]),
("=post-wrap",C,[(C,"            if method_return_unpacked() in method.meta.tags:\n                # Single element, wrap in a dict\n                returned_value = {\"return\": result}\n            elif result is None:\n                returned_value = {}\n            else:\n                # It should already be an object that serializes to a dict\n                returned_value = result\n","            returned_value = self._wrap_result(method, result)\n"),(C,"    def _handle_post(self, request","    @staticmethod\n    def _wrap_result(method, result):\n        if method_return_unpacked() in method.meta.tags:\n            return {\"return\": result}\n        return {} if result is None else result\n\n    def _handle_post(self, request")]),
("=notify-comp",N,"            for request in self.update_requests:\n                ret.append(request.update_response(frozen))\n\n        # If we have delta","            ret += [request.update_response(frozen) for request in self.update_requests]\n\n        # If we have delta"),
("=node-helper",N,[(N,"            if (\n                not child.children\n                and not child.update_requests\n                and not child.delta_requests\n            ):\n                del","            if child.is_unused():\n                del"),(N,"    def notify_changes(self","    def is_unused(self) -> bool:\n        return not (self.children or self.update_requests or self.delta_requests)\n\n    def notify_changes(self")]),
("=exit-swap",N,"                changes = self._squashed_changes\n                self._squashed_changes = []\n","                changes, self._squashed_changes = self._squashed_changes, []\n"),
("=change-slice",N,"                if len(change) == 2:\n                    child_change = [path[1:], change[1]]\n                else:\n                    child_change = [path[1:]]\n","                child_change = [path[1:]] + change[1:]\n"),
("=upd-data-comp",N,"        child_change_dict: Dict[str, List] = {}\n        # Reflect change of data to children\n        for name in self.children:\n            child_data = get_child_data(data, name)\n            if child_data is None:\n                # Deletion\n                child_change_dict[name] = [[]]\n            else:\n                # Change\n                child_change_dict[name] = [[], child_data]\n        return child_change_dict","        changes: Dict[str, List] = {}\n        for name in self.children:\n            child_data = get_child_data(data, name)\n            changes[name] = [[]] if child_data is None else [[], child_data]\n        return changes"),
]

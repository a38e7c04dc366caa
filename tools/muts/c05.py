N="malcolm/core/notifier.py"; R="malcolm/core/request.py"
MUTS=[
("prune-early",N,"            if (\n                not child.children\n                and not child.update_requests\n                and not child.delta_requests\n            ):","            if not child.update_requests and not child.delta_requests:"),
("key-id-only",R,"key = (self.callback, self.id)","key = (self.callback, self.id % 1000)"),
("replace-node",N,"            if name not in self.children:\n                self.children[name] = NotifierNode","            if True:\n                self.children[name] = NotifierNode"),
("wrong-data-node",N,"NotifierNode(get_child_data(self.data, name), self)","NotifierNode(self.data, self)"),
("unsub-path",N,"self._tree.handle_unsubscribe(subscribe, subscribe.path[1:])","self._tree.handle_unsubscribe(subscribe, subscribe.path[1:3])"),
("remove-last",N,"                self.update_requests.remove(request)","                self.update_requests.pop()"),
("register-before",N,"        ret = self._tree.handle_subscribe(request, request.path[1:])\n        self._subscription_keys[request.generate_key()] = request\n        return ret","        key = request.generate_key()\n        if key not in self._subscription_keys:\n            self._subscription_keys[key] = request\n        return self._tree.handle_subscribe(request, request.path[1:])"),
("initial-stale",N,"            frozen = freeze(self.data)\n            if request.delta:","            frozen = freeze(self.parent.data if self.parent and self.data is None else self.data)\n            if request.delta:"),
("=cond",N,"            if request in self.update_requests:\n                self.update_requests.remove(request)\n            else:\n                self.delta_requests.remove(request)","            if request.delta:\n                requests = self.delta_requests\n            else:\n                requests = self.update_requests\n            requests.remove(request)"),
("=unused",[(N,"            if (\n                not child.children\n                and not child.update_requests\n                and not child.delta_requests\n            ):","            if child.is_unused():"),(N,"    def handle_subscribe(\n        self, request: Subscribe, path","    def is_unused(self):\n        return not (self.children or self.update_requests or self.delta_requests)\n\n    def handle_subscribe(\n        self, request: Subscribe, path")]),
("=get",N,"            if name not in self.children:\n                self.children[name] = NotifierNode(get_child_data(self.data, name), self)\n            ret += self.children[name].handle_subscribe(request, path[1:])","            child = self.children.get(name, None)\n            if child is None:\n                child = NotifierNode(get_child_data(self.data, name), self)\n                self.children[name] = child\n            ret += child.handle_subscribe(request, path[1:])"),
("=ternary",N,"            frozen = freeze(self.data)\n            if request.delta:\n                self.delta_requests.append(request)\n                ret.append(request.delta_response([[[], frozen]]))\n            else:\n                self.update_requests.append(request)\n                ret.append(request.update_response(frozen))","            frozen = freeze(self.data)\n            subscribers = self.delta_requests if request.delta else self.update_requests\n            subscribers.append(request)\n            if request.delta:\n                ret.append(request.delta_response([[[], frozen]]))\n            else:\n                ret.append(request.update_response(frozen))"),
]

C = "malcolm/core/controller.py"
N = "malcolm/core/notifier.py"
HEAD = '''
import sys
from malcolm.core import (Controller, Process, Part, NumberMeta, StringMeta, Put, Post, Get, Subscribe, Unsubscribe, Return, Error,
                          Update, Delta, PartRegistrar, Queue)
from annotypes import Anno, add_call_types
from malcolm.modules.builtin.controllers import BasicController

with Anno("A value"):
    AVal = int


class P(Part):
    def setup(self, registrar):
        self.attr = NumberMeta("int32", "d").create_attribute_model(1)
        self.last = None
        registrar.add_attribute_model("attr", self.attr, self.put)
        registrar.add_method_model(self.meth)

    def put(self, value):
        self.last = value
        if value == 99:
            raise RuntimeError("hardware said no")
        if value == 98:
            raise KeyboardInterrupt()
        self.attr.set_value(value)

    @add_call_types
    def meth(self, v: AVal) -> AVal:
        if v < 0:
            raise ValueError("negative")
        return v + 1


def start():
    p = Process("proc")
    c = BasicController("mri")
    part = P("p")
    c.add_part(part)
    p.add_controller(c)
    p.start()
    return p, c, part


def ask(c, req, wait=3):
    q = Queue()
    req.set_callback(q.put)
    c.handle_request(req)
    return q.get(timeout=wait), q
'''
SEEDS = {
 "s01_unsub_unknown": dict(property="C01", needs="an Unsubscribe whose id has no live subscription (a retry, or a second Unsubscribe after the first)",
   breaks="the request is never answered, neither with Return nor with Error, so a caller waiting for it hangs",
   tests="tests/test_core",
   edits=[(N, "        subscribe = self._subscription_keys.pop(request.generate_key())\n        ret =",
              "        subscribe = self._subscription_keys.pop(request.generate_key(), None)\n        if subscribe is None:\n            # Already unsubscribed, nothing to do\n            return []\n        ret =")],
   demo=HEAD + '''
p, c, part = start()
try:
    ask(c, Subscribe(id=5, path=["mri", "attr"]))
    r, _ = ask(c, Unsubscribe(id=7))
    assert isinstance(r, Error) and r.id == 7, r
finally:
    p.stop(timeout=2)
'''),
 "s02_took_mutation": dict(property="C02", needs="a Put that asks for the value back after a setter that clips or ignores the value",
   breaks="the Put answers with the value that was asked for instead of the value the field now has",
   tests="tests/test_core",
   edits=[(C, "            result = self._block[attribute_name].value\n", "            result = value\n")],
   demo=HEAD + '''
class Clip(P):
    def put(self, value):
        self.attr.set_value(min(value, 10))
p = Process("proc"); c = BasicController("mri"); c.add_part(Clip("p")); p.add_controller(c); p.start()
try:
    r, _ = ask(c, Put(id=5, path=["mri", "attr"], value=50, get=True))
    assert isinstance(r, Return) and r.value == 10, r.to_dict()
finally:
    p.stop(timeout=2)
'''),
 "s03_lock_leak": dict(property="C03", needs="a subscriber callback that raises while a change is being announced, then any access from another thread",
   breaks="the block's lock is never released after a subscriber callback failed, so every other thread blocks for ever",
   tests="tests/test_core",
   edits=[(N, "        finally:\n            self._lock.release()\n            self._callback_responses(responses)\n",
              "        finally:\n            # Keep the order of notifications consistent between threads\n            self._callback_responses(responses)\n            self._lock.release()\n")],
   demo=HEAD + '''
p, c, part = start()
try:
    n = []
    def cb(response):
        n.append(response)
        if len(n) > 1:
            raise RuntimeError("subscriber died")
    s = Subscribe(id=5, path=["mri", "attr"])
    s.set_callback(cb)
    c.handle_request(s).get(timeout=2)
    try:
        part.attr.set_value(3)
    except RuntimeError:
        pass
    got = []
    def other():
        with c.changes_squashed:
            got.append(1)
    try:
        p.spawn(other).get(timeout=3)
    except Exception as e:
        print(e)
    assert got, "lock was never released"
finally:
    import os
    os._exit(1 if sys.exc_info()[0] or not got else 0)
'''),
}

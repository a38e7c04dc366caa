import importlib.util, os
_s = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD = _m.HEAD
N = "malcolm/core/notifier.py"
X = "malcolm/core/context.py"
H = "malcolm/core/hook.py"
PR = "malcolm/core/process.py"
ST = "malcolm/modules/builtin/controllers/statefulcontroller.py"
R = "malcolm/modules/scanning/controllers/runnablecontroller.py"
SCAN = '''
import sys, time, threading
from malcolm.core import Process, Part, PartRegistrar, Context, AlarmSeverity, AbortedError
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.hooks import ConfigureHook, RunHook, PostRunArmedHook, SeekHook, AbortHook, PauseHook, PostConfigureHook, PreConfigureHook, ReportStatusHook
from malcolm.modules.scanning.infos import RunProgressInfo
from scanpointgenerator import LineGenerator, CompoundGenerator


def gen(n=10, runs=1):
    ls = [LineGenerator("x", "mm", 0.0, 1.0, n)]
    if runs > 1:
        ls.insert(0, LineGenerator("y", "mm", 0.0, 1.0, runs))
    g = CompoundGenerator(ls, [], [], duration=0.01)
    g.prepare()
    return g


def start(*parts):
    p = Process("proc")
    c = RunnableController("mri", config_dir="/tmp")
    for part in parts:
        c.add_part(part)
    p.add_controller(c)
    p.start()
    b = c.block_view()
    return p, c, b
'''
SEEDS = {
 "s04_exc_drops_changes": dict(property="C04", needs="an exception leaving a block of squashed changes after some of them were already stored",
   breaks="the changes stored before the exception are never announced, so subscribers keep a stale value",
   tests="tests/test_core tests/test_modules/test_builtin",
   edits=[(N, "                responses += self._tree.notify_changes(changes)\n", "                if exc_type is None:\n                    responses += self._tree.notify_changes(changes)\n")],
   demo=HEAD + '''
p, c, part = start()
try:
    r, q = ask(c, Subscribe(id=5, path=["mri", "attr", "value"]))
    assert r.value == 1
    try:
        with c.changes_squashed:
            part.attr.set_value(7)
            raise ValueError("later step failed")
    except ValueError:
        pass
    assert c.block_view().attr.value == 7
    r = q.get(timeout=2)
    assert r.value == 7, r
finally:
    p.stop(timeout=2)
'''),
 "s05_prune_deltas": dict(property="C05", needs="a delta and a plain subscription to the same place, the plain one ended first",
   breaks="ending the plain subscription also ends the delta subscription to the same place",
   tests="tests/test_core",
   edits=[(N, "                and not child.update_requests\n                and not child.delta_requests\n", "                and not child.update_requests\n")],
   demo=HEAD + '''
p, c, part = start()
try:
    r, q1 = ask(c, Subscribe(id=5, path=["mri", "attr"]))
    r, q2 = ask(c, Subscribe(id=6, path=["mri", "attr"], delta=True))
    assert isinstance(r, Delta)
    u = Unsubscribe(id=5)
    u.set_callback(q1.put)
    c.handle_request(u)
    r = q1.get(timeout=2)
    assert isinstance(r, Return), r
    part.attr.set_value(7)
    r = q2.get(timeout=2)
    assert [["value"], 7] in r.changes, r
finally:
    p.stop(timeout=2)
'''),
 "s06_overall_timeout": dict(property="C06", needs="a wait with both an overall and an event timeout on something that keeps changing",
   breaks="the overall time limit is not kept as long as events keep arriving",
   tests="tests/test_core",
   edits=[(X, "                if end is not None:\n                    until = min(until, end)\n", "                if end is not None:\n                    until = max(until, end)\n")],
   demo=HEAD + '''
import time
from malcolm.core import Context, sleep, TimeoutError
p, c, part = start()
try:
    ctx = Context(p)
    def count():
        for i in range(40):
            part.attr.set_value(i)
            sleep(0.1)
    p.spawn(count)
    t = time.time()
    try:
        ctx.when_matches(["mri", "attr", "value"], 1000, timeout=0.8, event_timeout=0.5)
    except TimeoutError:
        pass
    else:
        raise AssertionError("matched?")
    assert time.time() - t < 2, "limit of 0.8s not kept: %s" % (time.time() - t)
finally:
    p.stop(timeout=6)
'''),
 "s07_abort_not_waited": dict(property="C07", needs="one hooked function being aborted while another is still tidying up",
   breaks="the hook returns although a hooked function has not finished, so the next stage overlaps it",
   tests="tests/test_core",
   edits=[(H, "                for h in hook_spawned:\n                    h.stop()\n            # Wait for them to finish\n            for h in hook_spawned:\n                assert h.spawned, \"No spawned functions\"\n                h.spawned.wait(timeout)\n",
              "                for h in hook_spawned:\n                    h.stop()\n                # Wait for them to finish\n                for h in hook_spawned:\n                    assert h.spawned, \"No spawned functions\"\n                    h.spawned.wait(timeout)\n")],
   demo='''
import sys
from malcolm.core import Process, Part, Controller, Context, AbortedError, sleep
from malcolm.modules.builtin.hooks import ResetHook
from malcolm.modules.builtin.controllers import StatefulController
from annotypes import add_call_types
from malcolm.modules.builtin.hooks import AContext
done = []
class Fast(Part):
    def setup(self, registrar):
        registrar.hook(ResetHook, self.f)
    @add_call_types
    def f(self, context: AContext) -> None:
        raise AbortedError("aborted")
class Slow(Part):
    def setup(self, registrar):
        registrar.hook(ResetHook, self.f)
    @add_call_types
    def f(self, context: AContext) -> None:
        sleep(0.7)
        done.append(1)
p = Process("proc")
c = StatefulController("mri")
c.add_part(Fast("a")); c.add_part(Slow("b"))
p.add_controller(c)
p.start()
try:
    try:
        c.run_hooks(ResetHook(part, context) for part, context in c.create_part_contexts().items())
    except AbortedError:
        pass
    else:
        raise AssertionError("not aborted")
    assert done, "hook returned while a hooked function was still running"
finally:
    p.stop(timeout=3)
'''),
 "s08_republished": dict(property="C08", needs="a block that asked not to be published, and another one added after the process started",
   breaks="adding a block later publishes the block that asked not to be",
   tests="tests/test_core tests/test_modules/test_builtin",
   edits=[(PR, "        self._unpublished |= new_unpublished\n", "        self._unpublished = new_unpublished\n")],
   demo='''
import sys
from malcolm.core import Process, Part, Controller, ProcessStartHook, ProcessPublishHook, UnpublishedInfo
from malcolm.core.controller import AMri
from malcolm.core.hook import AHookable
from malcolm.core.process import APublished
from annotypes import add_call_types
pub = []
class Plain(Controller):
    def __init__(self, mri: AMri):
        super().__init__(mri)
        self.register_hooked(ProcessStartHook, self.go)
        self.register_hooked(ProcessPublishHook, self.published)
    def go(self):
        pass
    @add_call_types
    def published(self, published: APublished) -> None:
        pub.append(list(published))
class Hidden(Plain):
    def go(self):
        return [UnpublishedInfo(self.mri)]
p = Process("proc")
p.add_controller(Hidden("hidden"))
p.add_controller(Plain("plain"))
p.start()
assert pub and all("hidden" not in x for x in pub), pub
p.add_controller(Plain("late"))
try:
    assert any("late" in x for x in pub), pub
    assert all("hidden" not in x for x in pub), pub
finally:
    p.stop(timeout=2)
'''),
 "s09_same_state_flags": dict(property="C09", needs="a field whose writeable states differ from those of the last field written about, and a fault",
   breaks="going to Fault keeps the writeable flags of the state before, so fields can be written that must not be",
   tests="tests/test_modules/test_builtin tests/test_modules/test_scanning",
   edits=[(ST, "                for child, writeable in self._children_writeable[state].items():\n                    child.meta.set_writeable(writeable)\n",
              "                for child, writeable in self._children_writeable[state].items():\n                    if writeable or state != ss.FAULT:\n                        child.meta.set_writeable(writeable)\n")],
   demo=SCAN + '''
p, c, b = start()
try:
    assert b.configure.meta.writeable
    c.transition("Fault", "it broke")
    assert not b.configure.meta.writeable, "configure can be called in Fault"
    assert b.reset.meta.writeable
finally:
    p.stop(timeout=2)
'''),
 "s10_postrun_fault": dict(property="C10", needs="a part that fails in its post run function, after the run function itself succeeded",
   breaks="the failing run leaves the block in PostRun for ever instead of Fault",
   tests="tests/test_modules/test_scanning",
   edits=[(R, "        except AbortedError:\n            raise\n        except Exception as e:\n            self.go_to_error_state(e)\n            raise\n\n    def do_run",
              "        except AbortedError:\n            raise\n        except Exception as e:\n            if self.state.value == ss.RUNNING:\n                # Don't clobber the state of another operation\n                self.go_to_error_state(e)\n            raise\n\n    def do_run")],
   demo=SCAN + '''
class Bad(Part):
    def setup(self, registrar):
        registrar.hook(PostRunArmedHook, self.post)
    def post(self):
        raise ValueError("no more")
p, c, b = start(Bad("bad"))
try:
    b.configure(generator=gen(5, 2), axesToMove=["x"])
    try:
        b.run()
    except Exception as e:
        assert "no more" in str(e), e
    else:
        raise AssertionError("run did not fail")
    assert c.state.value == "Fault", c.state.value
finally:
    p.stop(timeout=2)
'''),
}

import importlib.util, os
_s = importlib.util.spec_from_file_location("s2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD, SCAN = _m.HEAD, _m.SCAN
R = "malcolm/modules/scanning/controllers/runnablecontroller.py"
SEEDS = {
 "s11_abort_in_postrun": dict(property="C11", needs="an abort while the parts are in their post run functions, one of them slow to give way",
   breaks="abort goes on with its own work while the operation it interrupts is still running",
   tests="tests/test_modules/test_scanning",
   edits=[(R, "            if original_state not in (ss.READY, ss.ARMED, ss.PAUSED, ss.FINISHED):", "            if original_state in (ss.CONFIGURING, ss.RUNNING, ss.SEEKING):")],
   demo=SCAN + '''
from malcolm.core import sleep
from annotypes import add_call_types
from malcolm.modules.scanning.hooks import AContext, PostRunReadyHook
log = []
class Slow(Part):
    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(PostRunReadyHook, self.go)
        registrar.hook(AbortHook, self.on_abort)
    @add_call_types
    def go(self, context: AContext) -> None:
        try:
            context.sleep(20)
        finally:
            sleep(0.5)
            log.append("given way")
    @add_call_types
    def on_abort(self, context: AContext) -> None:
        log.append("abort")
p, c, b = start(Slow("slow"))
try:
    b.configure(gen())
    f = b.run_async()
    ctx = Context(p)
    ctx.when_matches(["mri", "state", "value"], "PostRun", timeout=5)
    ctx.sleep(0.2)
    b.abort()
    assert log == ["given way", "abort"], log
finally:
    p.stop(timeout=3)
'''),
 "s12_progress_goes_back": dict(property="C12", needs="a part that reports a lower step than it did before (as after seeking back and being late)",
   breaks="the number of completed steps shown goes back during a run",
   tests="tests/test_modules/test_scanning",
   edits=[(R, "            if min_completed_steps > self.completed_steps.value:", "            if min_completed_steps != self.completed_steps.value:")],
   demo=SCAN + '''
from malcolm.core import sleep
from annotypes import add_call_types
from malcolm.modules.scanning.hooks import AContext
class Reports(Part):
    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(RunHook, self.go)
    @add_call_types
    def go(self, context: AContext) -> None:
        for n in (1, 5, 3, 6, 2):
            self.registrar.report(RunProgressInfo(n))
p, c, b = start(Reports("r"))
seen = []
try:
    b.configure(gen())
    ctx = Context(p)
    ctx.subscribe(["mri", "completedSteps", "value"], seen.append)
    ctx.sleep(0.1)
    b.run()
    ctx.sleep(0.3)
    assert seen == sorted(seen), seen
    assert seen[-1] == 10
finally:
    p.stop(timeout=2)
'''),
}

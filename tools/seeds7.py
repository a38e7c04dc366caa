MOCK = '''
from mock import patch
import numpy as np
class V(float):
    name = "x"; ok = True; severity = 0; raw_stamp = (123, 456); units = ""; precision = 3; upper_disp_limit = 10; lower_disp_limit = 0; state_strings = ["never", "connected"]; state = 1
    def __new__(cls, v, **kw):
        self = float.__new__(cls, v); self.__dict__.update(kw); return self
class Mon:
    closed = 0
    def close(self): self.closed += 1
'''
SEEDS = {
 "s18_unchanged_update": dict(property="C18", needs="a PV that reconnects, or whose alarm clears, with the value it had before",
   breaks="the attribute stays in its disconnected or alarm state although the PV is fine",
   tests="tests/test_modules/test_ca",
   edits=[("malcolm/modules/ca/util.py", "            value = self.attr.meta.validate(value)\n            self.attr.set_value_alarm_ts(value, alarm, ts)\n", "            value = self.attr.meta.validate(value)\n            if self._local_value is None and alarm.is_ok() and self.attr.alarm.status in IDLE and np.array_equal(value, self.attr.value):\n                # Only the time of processing changed\n                self.attr.set_timeStamp(ts)\n            else:\n                self.attr.set_value_alarm_ts(value, alarm, ts)\n"),
          ("malcolm/modules/ca/util.py", "from annotypes import Anno, Array\n", "import numpy as np\nfrom annotypes import Anno, Array\n"), ("malcolm/modules/ca/util.py", "catools = CatoolsDeferred()\n", "catools = CatoolsDeferred()\n\n# Status of attributes whose record is not in alarm\nIDLE = (AlarmStatus.NO_STATUS, AlarmStatus.CLIENT_STATUS)\n")],
   demo=MOCK + '''
from malcolm.core import NumberMeta
from malcolm.modules.ca import util
a = util.CAAttribute(NumberMeta("float64", "x"), 6, rbv="x")
a._update_value(V(3.0))
a._update_value(V(3.0, ok=False))
assert not a.attr.alarm.is_ok()
a._update_value(V(3.0))
assert a.attr.alarm.is_ok(), a.attr.alarm
a._update_value(V(3.0, severity=2))
assert not a.attr.alarm.is_ok()
a._update_value(V(3.0))
assert a.attr.alarm.is_ok(), a.attr.alarm
'''),
 "s18_action_first_status": dict(property="C18", needs="a status PV that shows a bad status for a moment before the good one, or an exception while waiting for it",
   breaks="a failed status that is seen first is taken as final, or the monitor stays open",
   tests="tests/test_modules/test_ca",
   edits=[("malcolm/modules/ca/parts/caactionpart.py", "                    if status == self.good_status:\n                        return status\n        finally:\n            m.close()", "                    if status == self.good_status:\n                        m.close()\n                        return status\n        except AssertionError:\n            m.close()\n            raise"), ("malcolm/modules/ca/parts/caactionpart.py", "                except TimeoutError:\n                    return status", "                except TimeoutError:\n                    m.close()\n                    return status")],
   demo=MOCK + '''
import time
from malcolm.modules.ca import util
from malcolm.modules.ca.parts import CAActionPart
m = Mon()
class CT:
    DBR_STRING = 0
    @staticmethod
    def camonitor(pv, cb, datatype): return m
part = CAActionPart("p", "d", pv="pv", status_pv="s", good_status="Good")
class Stop(Exception): pass
with patch.object(util, "catools", CT()), patch("malcolm.modules.ca.parts.caactionpart.Queue") as Q:
    Q.return_value.get.side_effect = Stop()
    try:
        part.wait_for_good_status(time.time() + 1)
    except Stop:
        pass
assert m.closed == 1, "monitor left open"
'''),
 "s18_demand_unchecked": dict(property="C18", needs="a demand PV that is not there while its readback PV is",
   breaks="the block initialises although the PV it puts to is not connected",
   tests="tests/test_modules/test_ca",
   edits=[("malcolm/modules/ca/util.py", "        for v in ca_values:\n            assert v.ok", "        # demand and readback live in the same IOC\n        for v in ca_values[: max(1, len(ca_values) - 1)]:\n            assert v.ok")],
   demo=MOCK + '''
from malcolm.modules.ca import util
class CT:
    FORMAT_CTRL = FORMAT_TIME = 0
    def caget(self, pvs, **kw): return [V(1.0, ok=p != "dem") for p in pvs]
    def camonitor(self, *a, **kw): return Mon()
from malcolm.core import NumberMeta
with patch.object(util, "catools", CT()):
    a = util.CAAttribute(NumberMeta("float64", "x"), 6, "dem", "rbv")
    try:
        a.reconnect()
    except AssertionError:
        pass
    else:
        raise AssertionError("connected without its demand PV")
    util.CAAttribute(NumberMeta("float64", "x"), 6, "dem2", "rbv").reconnect()
'''),
}

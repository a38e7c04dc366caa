SEEDS = {
 "s15_dead_client_updates": dict(property="C15", needs="a client that subscribed without deltas and whose connection is gone when the next update is sent",
   breaks="the server stays subscribed for a client that is gone and tries to send it every further update",
   tests="tests/test_modules/test_web",
   edits=[("malcolm/modules/web/parts/websocketserverpart.py", "            if isinstance(response, (Delta, Update)):", "            if isinstance(response, Delta):")],
   demo='''
from unittest.mock import MagicMock, patch
from tornado.websocket import WebSocketClosedError
from malcolm.core import Update, Delta, Unsubscribe, Return
from malcolm.modules.web.parts import websocketserverpart as w
def gone(resp):
    reports = []
    with patch.object(w, "cothread", MagicMock()):
        h = w.MalcWebSocketHandler.__new__(w.MalcWebSocketHandler)
        r = MagicMock()
        r.report.side_effect = reports.append
        h.initialize(registrar=r)
        h.write_message = MagicMock(side_effect=WebSocketClosedError())
        h._id_to_mri[7] = "block"
        h._on_response(resp)
    return reports
for r in (Delta(id=7, changes=[[[], {}]]), Update(id=7, value="x")):
    got = gone(r)
    assert len(got) == 1 and isinstance(got[0].request, Unsubscribe) and got[0].request.id == 7 and got[0].mri == "block", (r, got)
assert not gone(Return(id=7))
'''),

 "s16_disconnect_stops": dict(property="C16", needs="two requests outstanding when the server goes away, the callback of the first failing",
   breaks="the remaining requests never get an answer, so their callers wait for ever",
   tests="tests/test_modules/test_web",
   edits=[("malcolm/modules/web/controllers/websocketclientcomms.py", "        for id in list(self._request_lookup):\n            request = self._request_lookup.pop(id)\n            response = Error(\n                id=request.id, message=ResponseError(\"Server disconnected\")\n            )\n            try:\n                request.callback(response)\n            except Exception:\n                # Most things will error here, not really a problem\n                self.log.debug(\"Callback %s raised\", request.callback)\n",
     "        try:\n            for id in list(self._request_lookup):\n                request = self._request_lookup.pop(id)\n                response = Error(\n                    id=request.id, message=ResponseError(\"Server disconnected\")\n                )\n                request.callback(response)\n        except Exception:\n            # Most things will error here, not really a problem\n            self.log.debug(\"Callback %s raised\", request.callback)\n")],
   demo="""
from unittest.mock import MagicMock
from malcolm.core import Error, Get, Process
from malcolm.modules.web.controllers import WebsocketClientComms
p = Process("proc")
c = WebsocketClientComms("comms")
c.setup(p)
got = []
def fails(r):
    got.append(r)
    raise ValueError("no")
for i in (1, 2, 3):
    g = Get(id=i, path=["a"])
    g.set_callback(fails)
    c._request_lookup[i] = g
c.transition = MagicMock()
c._report_fault()
assert [r.id for r in got] == [1, 2, 3] and all(isinstance(r, Error) for r in got), got
"""),
}

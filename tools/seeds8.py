P = "malcolm/modules/pandablocks/"
SOCK = '''
import time
from malcolm.core import Queue
from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient
class Sock:
    def __init__(self, chunks): self.chunks = list(chunks)
    def recv(self, n): return self.chunks.pop(0) if self.chunks else b""
def respond(chunks, n):
    c = PandABlocksClient("h", 8888, Queue)
    c._socket = Sock(chunks)
    c._response_queues = Queue()
    qs = [Queue() for _ in range(n)]
    for q in qs: c._response_queues.put(q)
    try:
        c._recv_loop()
    except Exception as e:
        pass
    out = []
    for q in qs:
        try:
            out.append(q.get(timeout=0.2))
        except Exception as e:
            out.append("nothing")
    return out
'''
SEEDS = {
 "s19_error_then_lines": dict(property="C19", needs="an error response followed by a response of several lines on the same connection",
   breaks="the first line of the response is taken for all of it, so it and every later response go to the wrong request",
   tests="tests/test_modules/test_pandablocks",
   edits=[(P + "pandablocksclient.py", "        response_queue.put(resp)\n        self._completed_response_lines = []\n        self._is_multiline = None\n", "        response_queue.put(resp)\n        if isinstance(resp, Exception):\n            # Errors are single lines, nothing was collected for them\n            return\n        self._completed_response_lines = []\n        self._is_multiline = None\n")],
   demo=SOCK + '''
out = respond([b"ERR no\\n", b"!a\\n!b\\n.\\n", b"OK =3\\n"], 3)
assert isinstance(out[0], ValueError), out
assert out[1:] == [["a", "b"], "OK =3"], out
'''),
 "s19_chunked_line": dict(property="C19", needs="a response longer than one packet, with the packet boundary at a space",
   breaks="the space at the boundary is lost from the value, e.g. in a description or the LAYOUT metadata",
   tests="tests/test_modules/test_pandablocks",
   edits=[(P + "pandablocksclient.py", "            buf = lines[-1]\n", "            # Start of the next line\n            buf = lines[-1].rstrip()\n")],
   demo=SOCK + '''
out = respond([b"OK =some long ", b"text\\nOK\\n"], 2)
assert out == ["OK =some long text", "OK"], out
'''),
 "s19_bit_stops_neighbour": dict(property="C19", needs="a put to the bits table in which a bit that isn't captured follows one of the same word that is",
   breaks="the word isn't captured though the put asked for it and the table shows it is",
   tests="tests/test_modules/test_pandablocks",
   edits=[(P + "parts/pandabussespart.py", "                    # If not already set, set it to No\n                    field_values.setdefault(capture_field, \"No\")", "                    # Nothing to capture for this bit\n                    field_values[capture_field] = \"No\"")],
   demo='''
from mock import Mock
from malcolm.core import TimeStamp
from malcolm.modules.pandablocks.parts.pandabussespart import PandABussesPart
client = Mock()
part = PandABussesPart("busses", client)
part.setup(Mock())
part.create_busses({"PCAP.BITS0": ["A.OUT", "B.OUT"], "PCAP.BITS1": ["C.OUT"]}, ["ENC.VAL"])
from malcolm.modules.pandablocks.util import BitsTable
for caps, want in (([True, False, False], "Value"), ([False, True, True], "Value"), ([True, True, False], "Value"), ([False, False, True], "No")):
    client.reset_mock()
    part.set_bits(BitsTable(name=["A.OUT", "B.OUT", "C.OUT"], value=[False] * 3, capture=caps))
    sent = client.set_fields.call_args[0][0]
    assert sent["PCAP.BITS0"] == want, (caps, sent)
'''),
}

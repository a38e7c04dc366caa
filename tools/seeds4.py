import importlib.util, os
_s = importlib.util.spec_from_file_location("s2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
HEAD, SCAN = _m.HEAD, _m.SCAN
M = "malcolm/modules/builtin/controllers/managercontroller.py"
TREE = '''
import shutil, tempfile
from malcolm.core import Process, StringMeta, Context
from malcolm.modules.builtin.controllers import BasicController, ManagerController
from malcolm.modules.builtin.parts import ChildPart, StringPart
from malcolm.modules.builtin.util import ExportTable, LayoutTable
tmp = tempfile.mkdtemp()
p = Process("proc")
leaf = BasicController("leaf")
leaf.add_part(StringPart("text", "Some text", writeable=True, config=1, value="a"))
child = ManagerController("child", tmp)
child.add_part(ChildPart("leaf", "leaf", initial_visibility=True, stateful=False))
top = ManagerController("top", tmp)
top.add_part(ChildPart("child", "child", initial_visibility=True))
for c in (leaf, child, top):
    p.add_controller(c)
p.start(timeout=5)
b = child.block_view()
t = top.block_view()
'''
SEEDS = {
 "s13_last_difference": dict(property="C13", needs="a design where two settings of a child were changed and one of them is put back",
   breaks="modified still names a setting that was put back to what was saved",
   tests="tests/test_modules/test_builtin tests/test_modules/test_scanning",
   edits=[("malcolm/modules/builtin/parts/childpart.py", "        if message != last_message:", "        if message != last_message and (message or len(self.modified_messages) == 1):")],
   demo=TREE.replace('leaf.add_part(', 'leaf.add_part(StringPart("other", "Other text", writeable=True, config=1, value="b"))\nleaf.add_part(', 1) + """
import time
try:
    b.save("one")
    assert b.modified.value is False
    v = leaf.block_view()
    v.text.put_value("changed")
    v.other.put_value("changed")
    assert b.modified.value is True
    v.text.put_value("a")
    assert b.modified.value is True
    assert "text" not in b.modified.alarm.message, b.modified.alarm.message
    v.other.put_value("b")
    assert b.modified.value is False, b.modified.alarm.message
finally:
    p.stop(timeout=3)
    shutil.rmtree(tmp)
"""),
 "s14_export_not_back": dict(property="C14", needs="an exported field that goes away from the child and comes back later",
   breaks="an export whose source is there again is not among the fields of the block",
   tests="tests/test_modules/test_builtin",
   edits=[(M, '                changed_names = set(names).symmetric_difference(\n                    self.exports.meta.elements["source"].choices\n                )\n', '                changed_names = set(self.exports.meta.elements["source"].choices).difference(\n                    names\n                )\n')],
   demo=TREE + '''
import time
def until(f):
    for i in range(50):
        if f():
            return True
        time.sleep(0.05)
    return False
try:
    ex = ExportTable.from_rows([("leaf.text", "childText")])
    b.exports.put_value(ex)
    assert until(lambda: "childText" in list(b))
    assert until(lambda: "child.childText" in top.exports.meta.elements["source"].choices)
    t.exports.put_value(ExportTable.from_rows([("child.childText", "topText")]))
    assert "topText" in list(t), list(t)
    b.exports.put_value(ExportTable.from_rows([]))
    assert until(lambda: "topText" not in list(t)), list(t)
    b.exports.put_value(ex)
    assert until(lambda: "topText" in list(t)), list(t)
    assert t.topText.value == "a"
finally:
    p.stop(timeout=3)
    shutil.rmtree(tmp)
'''),
}

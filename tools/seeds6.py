SEEDS = {
 "s17_stale_choices": dict(property="C17", needs="choices that are changed while the process runs, then a put of a choice that is no longer offered",
   breaks="a choice that was withdrawn can still be set",
   tests="tests/test_core/test_models.py",
   edits=[("malcolm/core/models.py", "        choices_lookup: Dict[Any, Union[str, Enum]] = {}\n        new_choices:", "        choices_lookup: Dict[Any, Union[str, Enum]] = dict(self.choices_lookup)\n        new_choices:")],
   demo='''
from malcolm.core import ChoiceMeta
m = ChoiceMeta("choice", ["a", "b", "c"])
m.set_choices(["a", "b"])
assert m.validate("b") == "b"
for gone in ("c", 2):
    try:
        got = m.validate(gone)
    except ValueError:
        pass
    else:
        raise AssertionError((gone, got))
'''),
 "s17_mixed_choice_array": dict(property="C17", needs="an Array of choices in which an element other than the last is given by its index",
   breaks="the array is stored as it was given, holding something that is not a choice",
   tests="tests/test_core/test_models.py",
   edits=[("malcolm/core/models.py", "                    is_same &= choice == new_choice\n", "                    is_same = is_array and choice == new_choice\n"), ("malcolm/core/models.py", "            is_same = value.__class__ is Array and value.typ is self.enum_cls\n", "            is_array = value.__class__ is Array and value.typ is self.enum_cls\n            is_same = is_array\n")],
   demo='''
from annotypes import Array
from malcolm.core import ChoiceArrayMeta
m = ChoiceArrayMeta("choices", ["a", "b", "c"])
for given in ([0, "b"], ["a", 1], ["a", "b"], [2, 1, "c"]):
    got = m.validate(Array[str](given))
    assert all(x in ("a", "b", "c") for x in got), (given, got)
'''),
}

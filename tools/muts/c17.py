M="malcolm/core/models.py"
TB="malcolm/core/table.py"
MUTS=[
("bool strings lost",M,'        if value in FALSE_STRINGS:\n            return False\n        else:\n            return bool(value)','        return bool(value)'),
("bool passes through",M,'            return bool(value)','            return value'),
("false strings fewer",M,'"FALSE", "No", "no", "NO"}','"FALSE", "No", "no"}'),
("=bool tern",M,'        if value in FALSE_STRINGS:\n            return False\n        else:\n            return bool(value)','        return False if value in FALSE_STRINGS else bool(value)'),
("=bool and",M,'        if value in FALSE_STRINGS:\n            return False\n        else:\n            return bool(value)','        return value not in FALSE_STRINGS and bool(value)'),
("number uncast if number",M,'        cast = self._np_type(value)\n','        if isinstance(value, (int, float)):\n            return value\n        cast = self._np_type(value)\n'),
("number array",M,'        assert np.ndim(cast) == 0, f"Expected a single number, got {value!r}"\n',''),
("number via float",M,'        cast = self._np_type(value)\n','        cast = self._np_type(float(value))\n'),
("dtype not followed",M,'        self._np_type = getattr(np, dtype)\n','        if not hasattr(self, "dtype"):\n            self._np_type = getattr(np, dtype)\n'),
("dtype unchecked",M,'        assert (\n            dtype in _dtype_strings\n        ), f"Expected dtype to be in {self._dtypes}, got {dtype}"\n',''),
("=number inline",M,'        if value is None:\n            value = 0\n        cast = self._np_type(value)\n','        cast = self._np_type(0 if value is None else value)\n'),
("=number raise",M,'        assert np.ndim(cast) == 0, f"Expected a single number, got {value!r}"\n','        if np.ndim(cast) != 0:\n            raise ValueError(f"Expected a single number, got {value!r}")\n'),
("string none",M,'        if value is None:\n            return ""\n        elif isinstance(value, str):\n            return value\n        else:\n            return str(value)','        return value if isinstance(value, str) else str(value)'),
("string bytes",M,'        elif isinstance(value, str):\n            return value\n','        elif isinstance(value, (str, bytes)):\n            return value\n'),
("=string reorder",M,'        if value is None:\n            return ""\n        elif isinstance(value, str):\n            return value\n        else:\n            return str(value)','        if isinstance(value, str):\n            return value\n        if value is None:\n            return ""\n        return str(value)'),
("choice get",M,'        try:\n            return self.choices_lookup[value]\n        except KeyError:','        if not self.choices:\n            return value\n        try:\n            return self.choices_lookup[value]\n        except KeyError:'),
("choice fallback",M,'        try:\n            return self.choices_lookup[value]\n        except KeyError:','        try:\n            return self.choices_lookup.get(value, self.choices_lookup[str(value)])\n        except KeyError:'),
("choices kept",M,'        choices_lookup: Dict[Any, Union[str, Enum]] = {}\n        new_choices:','        choices_lookup = dict(self.choices_lookup)\n        new_choices:'),
("choices index off",M,'            choices_lookup[i] = choice\n','            choices_lookup[i + 1] = choice\n'),
("choices enum value lost",M,'                choices_lookup[choice.value] = choice\n',''),
("choices enum name",M,'                choices_lookup[choice.value] = choice\n','                choices_lookup[choice.name] = choice\n'),
("choices default last",M,'            choices_lookup[None] = choices[0]\n','            choices_lookup[None] = choice\n'),
("choices str of enum",M,'                choices_lookup[choice] = choice\n                new_choices.append(choice)\n            else:\n                assert isinstance(choice, str)','                choices_lookup[choice] = choice.value\n                new_choices.append(choice)\n            else:\n                assert isinstance(choice, str)'),
("=choices one append",M,[(M,'                choices_lookup[choice] = choice\n                new_choices.append(choice)\n            else:\n                assert isinstance(choice, str), f"Expected string choice, got {choice}"\n                # Map the string to itself\n                choices_lookup[choice] = choice\n                new_choices.append(choice)\n','            else:\n                assert isinstance(choice, str), f"Expected string choice, got {choice}"\n            # Map the choice to itself\n            choices_lookup[choice] = choice\n            new_choices.append(choice)\n')]),
("=choice not in",M,'        try:\n            return self.choices_lookup[value]\n        except KeyError:\n            raise ValueError(f"{value!r} is not a valid value in {list(self.choices)}")\n','        if value not in self.choices_lookup:\n            raise ValueError(f"{value!r} is not a valid value in {list(self.choices)}")\n        return self.choices_lookup[value]\n'),
("nparray any array",M,'    if value.__class__ is Array and getattr(value.seq, "dtype", None) == dtype:','    if value.__class__ is Array and hasattr(value.seq, "dtype"):'),
("nparray nocast",M,'            value = np.array(value, dtype=dtype)\n','            value = np.array(value)\n'),
("nparray scalars through",M,'        if value is not None and not isinstance(value, np.ndarray):\n            if isinstance(value, str) or not isinstance(value, Sequence):\n                # A single value should give an array of one element\n                value = [value]\n','        if isinstance(value, Sequence):\n'),
("nparray list ok",M,'    if value.__class__ is Array and getattr(value.seq, "dtype", None) == dtype:','    if value.__class__ is Array and value.typ == dtype:'),
("=nparray isinstance",M,'    if value.__class__ is Array and getattr(value.seq, "dtype", None) == dtype:','    if isinstance(value, Array) and getattr(value.seq, "dtype", None) == dtype:'),
("=nparray early",M,'        # If Array wraps a numpy array of the correct type we are done\n        return value\n    else:\n        if value is not None and not','        # If Array wraps a numpy array of the correct type we are done\n        pass\n    else:\n        if value is not None and not') if False else ("=nparray local",M,'        return to_array(Array[dtype], value)','        array = to_array(Array[dtype], value)\n        return array'),
("choicearray last",M,'                    is_same &= choice == new_choice\n','                    is_same = choice == new_choice\n'),
("choicearray typ",M,'            is_same = value.__class__ is Array and value.typ is self.enum_cls\n','            is_same = value.__class__ is Array\n'),
("choicearray unchanged",M,'                return to_array(Array[self.enum_cls], ret)\n','                return to_array(Array[self.enum_cls], value)\n'),
("choicearray skip bad",M,'                except KeyError:\n                    raise ValueError(\n                        f"{value} is not a valid value in {self.choices} "\n                        f"for element {i}"\n                    )\n                else:','                except KeyError:\n                    continue\n                else:'),
("=choicearray same",M,'                    is_same &= choice == new_choice\n','                    is_same = is_same and choice == new_choice\n'),
("=choicearray always new",M,'            if is_same:\n                return value\n            else:\n                return to_array(Array[self.enum_cls], ret)\n','            return to_array(Array[self.enum_cls], ret)\n'),
("stringarray first",M,'        for v in cast:\n            assert isinstance(v, str), f"Expected Array[str], got {value!r}"\n','        if len(cast):\n            assert isinstance(cast[0], str), f"Expected Array[str], got {value!r}"\n'),
("stringarray unchecked",M,'        for v in cast:\n            assert isinstance(v, str), f"Expected Array[str], got {value!r}"\n',''),
("=stringarray all",M,'        for v in cast:\n            assert isinstance(v, str), f"Expected Array[str], got {value!r}"\n','        assert all(isinstance(v, str) for v in cast), f"Expected Array[str], got {value!r}"\n'),
("table extra ok",M,'        extra = keys - set(self.elements)\n        assert not extra, f"Supplied table has extra fields {extra}"\n        args','        args'),
("table missing default",M,[(M,'        missing = set(self.elements) - keys\n        assert not missing, f"Supplied table missing fields {missing}"\n        extra = keys','        extra = keys'),(M,'meta.validate(value[k]) for k, meta','meta.validate(value.get(k)) for k, meta')]),
("table lengths",M,'        # Check column lengths\n        value.validate_column_lengths()\n',''),
("table passes table",M,'            value = {k: value[k] for k in value.call_types}\n        elif not','            if value.__class__ is self.table_cls:\n                return value\n            value = {k: value[k] for k in value.call_types}\n        elif not'),
("table not validated",M,'        args = {k: meta.validate(value[k]) for k, meta in self.elements.items()}\n','        args = {k: value[k] for k in self.elements}\n'),
("table by position",M,'        args = {k: meta.validate(value[k]) for k, meta in self.elements.items()}\n','        args = {k: meta.validate(v) for v, (k, meta) in zip(value.values(), self.elements.items())}\n'),
("=table equal",M,'        missing = set(self.elements) - keys\n        assert not missing, f"Supplied table missing fields {missing}"\n        extra = keys - set(self.elements)\n        assert not extra, f"Supplied table has extra fields {extra}"\n        args','        expected = set(self.elements)\n        missing = expected - keys\n        extra = keys - expected\n        assert not missing, f"Supplied table missing fields {missing}"\n        assert not extra, f"Supplied table has extra fields {extra}"\n        args'),
("=table loop",M,'        args = {k: meta.validate(value[k]) for k, meta in self.elements.items()}\n','        args = {}\n        for k in self.elements:\n            args[k] = self.elements[k].validate(value[k])\n'),
("table lengths first",TB,'        lengths = {a: len(getattr(self, a)) for a in self.call_types}\n','        lengths = {a: len(getattr(self, a)) for a in list(self.call_types)[:1]}\n'),
("table lengths le",TB,'assert len(set(lengths.values())) == 1','assert len(set(lengths)) >= 1'),
("=table lengths set",TB,'        lengths = {a: len(getattr(self, a)) for a in self.call_types}\n        assert len(set(lengths.values())) == 1, f"Column lengths {lengths} don\'t match"','        lengths = set(len(getattr(self, a)) for a in self.call_types)\n        assert len(lengths) == 1, f"Column lengths {lengths} don\'t match"'),
("elements keep old cls",M,'        ret = self.set_endpoint_data("elements", deserialized)\n        self.set_table_cls(self.table_cls)\n        return ret','        ret = self.set_endpoint_data("elements", deserialized)\n        if self.table_cls is None:\n            self.set_table_cls(self.table_cls)\n        return ret'),
("map extra",M,'        assert not extra, (\n            f"Given keys {list(sorted(param_dict))}, some of which aren\'t "\n            f"in allowed keys {list(self.elements)}"\n        )\n',''),
("map raw",M,'                args[k] = m.validate(param_dict[k])\n','                args[k] = param_dict[k]\n'),
("map none is missing",M,'            if k in param_dict:\n','            if param_dict.get(k) is not None:\n'),
("map required of given",M,'        missing: Set = set(self.required) - set(args)\n','        missing: Set = set(args) - set(self.required) if False else set()\n'),
("map required reversed",M,'        missing: Set = set(self.required) - set(args)\n','        missing: Set = set(param_dict) - set(args)\n'),
("map missing always",M,'            elif add_missing:\n','            elif add_missing and k in self.required:\n'),
("=map loop",M,'        for k, m in self.elements.items():\n            if k in param_dict:\n                args[k] = m.validate(param_dict[k])\n            elif add_missing:\n                args[k] = m.validate(None)\n','        for k in self.elements:\n            if k not in param_dict and not add_missing:\n                continue\n            given = param_dict[k] if k in param_dict else None\n            args[k] = self.elements[k].validate(given)\n'),
("=map early",M,'        if param_dict is None:\n            param_dict = {}\n        extra = set(param_dict) - set(self.elements)\n','        param_dict = {} if param_dict is None else param_dict\n        extra = set(param_dict).difference(self.elements)\n'),
("defaults raw",M,'                (k, self.takes.elements[k].validate(v))\n','                (k, v)\n'),
("=defaults loop",M,'        defaults = FrozenOrderedDict(\n            tuple(\n                (k, self.takes.elements[k].validate(v))\n                for k, v in defaults.items()\n                if k != "typeid"\n            )\n        )\n','        validated = []\n        for k, v in defaults.items():\n            if k != "typeid":\n                validated.append((k, self.takes.elements[k].validate(v)))\n        defaults = FrozenOrderedDict(tuple(validated))\n'),
("endpoint array unchecked",M,'                if isinstance(value.seq, (tuple, list)):\n','                if isinstance(value.seq, tuple):\n'),
("endpoint mapping keys only",M,'                    check_type(k, ktype)\n                    check_type(v, vtype)\n','                    check_type(k, ktype)\n'),
("endpoint scalar unchecked",M,'                # Make sure it is the right typ\n                check_type(value, ct.typ)\n','                # Make sure it is the right typ\n                if Model.matches_type(ct.typ):\n                    check_type(value, ct.typ)\n'),
("=endpoint helper",M,[(M,'                for k, v in value.items():\n                    check_type(k, ktype)\n                    check_type(v, vtype)\n','                self._check_mapping(value, ktype, vtype)\n'),(M,'    def apply_change(self, path: List[str], *args: Any) -> None:\n        """Take a single','    @staticmethod\n    def _check_mapping(value, ktype, vtype):\n        for k, v in value.items():\n            check_type(k, ktype)\n            check_type(v, vtype)\n\n    def apply_change(self, path: List[str], *args: Any) -> None:\n        """Take a single')]),
("array meta as scalar",M,'@VMeta.register_annotype_converter(str, is_array=True)','@VMeta.register_annotype_converter(str)'),
("lookup array flag",M,'key = (typ, bool(anno.is_array), bool(anno.is_mapping))','key = (typ, bool(anno.is_mapping), bool(anno.is_array))'),
("number default dtype",M,'            anno, writeable, dtype=_dtype_string_lookup[anno.typ]\n','            anno, writeable\n'),
("annotype writeable",M,'ret = cls(description=anno.description, writeable=writeable, **kwargs)','ret = cls(description=anno.description, writeable=True, **kwargs)'),
("table columns writeable",M,'subclass.from_annotype(ct, writeable=k in writeable)','subclass.from_annotype(ct, writeable=bool(writeable))'),
("meta class unchecked",M,'        assert isinstance(self, meta.attribute_class), (\n            f"Meta object needs to be attached to {meta.attribute_class}, "\n            f"we are a {type(self)}"\n        )\n',''),
("callable required none",M,'            if anno.default is NO_DEFAULT:\n                takes_required.append(k)\n            elif anno.default is not None:','            if anno.default is NO_DEFAULT:\n                takes_required.append(k)\n            elif anno.default:'),
("callable default none required",M,'            if anno.default is NO_DEFAULT:\n                takes_required','            if anno.default is NO_DEFAULT or anno.default is None:\n                takes_required'),
("callable without",M,'            if k in without_takes_set:\n                continue\n            scls','            scls'),
]

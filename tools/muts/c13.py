M="malcolm/modules/builtin/controllers/managercontroller.py"
C="malcolm/modules/builtin/parts/childpart.py"
MUTS=[
("swap-xy",M,'            layout_structure["x"] = x\n            layout_structure["y"] = y\n','            layout_structure["x"] = y\n            layout_structure["y"] = x\n'),
("load-swap",M,'            x.append(d["x"])\n            y.append(d["y"])\n','            x.append(d["y"])\n            y.append(d["x"])\n'),
("no-visible",M,'            layout_structure["visible"] = visible\n',''),
("exports-reversed",M,'            exports[source] = export\n','            exports[export] = source\n'),
("load-exports-rev",M,'            source.append(source_name)\n            export.append(export_name)\n','            source.append(export_name)\n            export.append(source_name)\n'),
("save-visible-only",M,'            SaveHook(p, c)\n            for p, c in self.create_part_contexts(only_visible=False).items()','            SaveHook(p, c)\n            for p, c in self.create_part_contexts().items()'),
("load-visible-only",M,'            LoadHook(p, c, children.get(p.name, {}), init)\n            for p, c in self.create_part_contexts(only_visible=False).items()','            LoadHook(p, c, children.get(p.name, {}), init)\n            for p, c in self.create_part_contexts().items()'),
("clean-before-write",M,[(M,'        subprocess.call("sync")\n        self._mark_clean(design)\n','        subprocess.call("sync")\n'),(M,'        text = json_encode(structure, indent=2)\n','        self._mark_clean(design)\n        text = json_encode(structure, indent=2)\n')][0:0] or '        with open(filename, "w") as f:\n            f.write(text)\n','        self._mark_clean(design)\n        with open(filename, "w") as f:\n            f.write(text)\n'),
("template-saved",M,'        assert not design.startswith("template_"), "Cannot save over a template"\n',''),
("unnamed-saved",M,'        assert design, "Please specify save design name when saving from new"\n',''),
("mark-current-design",M,'        subprocess.call("sync")\n        self._mark_clean(design)\n','        subprocess.call("sync")\n        self._mark_clean(self.design.value)\n'),
("no-own",M,'        for name, attribute in self.our_config_attributes.items():\n            attributes[name] = attribute.value\n',''),
("own-not-restored",M,'        block.put_attribute_values(our_values)\n',''),
("load-init-lost",M,'            LoadHook(p, c, children.get(p.name, {}), init)','            LoadHook(p, c, children.get(p.name, {}), False)'),
("load-children-raw",M,'        children = structure.get("children", structure)\n','        children = structure\n'),
("load-key",M,'attributes.get("exports", {})','attributes.get("export", {})'),
("save-key",M,'attributes.setdefault("exports", OrderedDict())','attributes.setdefault("export", OrderedDict())'),
("clean-init",M,"            if not init:\n                # Don't clear at init, because some things may not be\n                # clean at init\n                self.part_modified = {}\n","            self.part_modified = {}\n"),
("clean-late",M,'            self.update_modified()\n            self._set_layout_names(design)\n','            self._set_layout_names(design)\n'),
("clean-order",M,'            self._set_layout_names(design)\n            self.design.set_value(design)\n','            self.design.set_value(design)\n            self._set_layout_names(design)\n'),
("clean-noexports",M,'            self.saved_exports = self.exports.value\n            # Now we are clean','            # Now we are clean'),
("mod-no-layout",M,'            if self.layout.value.visible != self.saved_visibility:\n                message_list.append("layout changed")\n                only_modified_by_us = False\n',''),
("mod-exports-byus",M,'                message_list.append("exports changed")\n                only_modified_by_us = False\n','                message_list.append("exports changed")\n'),
("mod-hidden",M,'                if visible and info:\n','                if info:\n'),
("mod-severity",M,'                if only_modified_by_us:\n                    severity = AlarmSeverity.NO_ALARM\n','                if not only_modified_by_us:\n                    severity = AlarmSeverity.NO_ALARM\n'),
("mod-notkept",M,'                self.part_modified[part] = info\n','                self.part_modified.setdefault(part, info)\n'),
("mod-noalarm",M,'                self.modified.set_value(True, alarm=alarm)\n','                self.modified.set_value(True)\n'),
("file-template",M,'            dir_name = self.template_designs\n','            dir_name = self._make_config_dir()\n'),
("child-nosave-ignored",C,'            if self._unmanaged_attr(k):\n                attr = getattr(child, k)\n                if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):\n                    part_structure[k] = attr.value\n','            attr = getattr(child, k)\n            if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):\n                part_structure[k] = attr.value\n'),
("child-save-all",C,'if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):\n                    part','if isinstance(attr, Attribute):\n                    part'),
("child-not-remembered",C,'        self.saved_structure = part_structure\n',''),
("child-load-late",[(C,'        self.saved_structure = structure\n        for name','        for name'),(C,'        if init and "design" in child:\n','        self.saved_structure = structure\n        if init and "design" in child:\n')]),
("child-unsorted",C,'for name, params in sorted(iterations.items()):','for name, params in iterations.items():'),
("child-textsort",C,'iteration = int(tag.split(":")[1])','iteration = tag.split(":")[1]'),
("child-load-untagged",C,'                if tag:\n                    iteration','                if not tag:\n                    iteration'),
("child-load-same",C,'                if attr.value != v:\n                    to_set[k] = v\n','                if attr.value == v:\n                    to_set[k] = v\n'),
("child-design-init",C,'            if init and k == "design":\n','            if not init and k == "design":\n'),
("child-wrong-name",C,'            name = subscribe.path[-2]\n            self.send','            name = subscribe.path[-1]\n            self.send'),
("child-eq",C,'        if original_value == new_value:\n','        if original_value != new_value:\n'),
("child-always",C,'        if message != last_message:\n','        if message and message != last_message:\n'),
("child-report-early",[(C,'        if message != last_message:\n','        if message != last_message:\n            self.registrar.report(PartModifiedInfo(self.modified_messages.copy()))\n'),(C,'            info = PartModifiedInfo(self.modified_messages.copy())\n            self.registrar.report(info)\n','')]),
("child-not-forgotten",C,'        for subscribe_id in removed:\n            self.config_subscriptions.pop(subscribe_id, None)\n',''),
("child-id-reuse",C,'new_id = max(self.config_subscriptions) + 1','new_id = 1'),
("child-register-late",[(C,'                    self.config_subscriptions[new_id] = subscribe\n',''),(C,'                    spawned.append(self.child_controller.handle_request(subscribe))\n','                    spawned.append(self.child_controller.handle_request(subscribe))\n                    self.config_subscriptions[new_id] = subscribe\n')]),
("child-no-wait",C,'        for s in spawned:\n            s.wait()\n',''),
("child-nosave-watched",C,'if self._unmanaged_attr(field) and get_config_tag(tags):','if get_config_tag(tags):'),
("child-unsub-cb",C,'                unsubscribe.set_callback(subscribe.callback)\n','                unsubscribe.set_callback(self.update_part_exportable)\n'),
("child-only-source",C,'                if port_info:\n                    is_source','                if port_info is None:\n                    continue\n                else:\n                    is_source'),
("=zip-rows",M,'        for name, mri, x, y, visible in self.layout.value.rows():\n            layout_structure = OrderedDict()\n            layout_structure["x"] = x\n            layout_structure["y"] = y\n            layout_structure["visible"] = visible\n            layout[name] = layout_structure\n','        for row in self.layout.value.rows():\n            name, _, x, y, visible = row\n            layout[name] = dict(x=x, y=y, visible=visible)\n'),
("=helper-layout",[(M,'        layout = attributes.setdefault("layout", OrderedDict())\n        for name, mri, x, y, visible in self.layout.value.rows():\n            layout_structure = OrderedDict()\n            layout_structure["x"] = x\n            layout_structure["y"] = y\n            layout_structure["visible"] = visible\n            layout[name] = layout_structure\n','        attributes["layout"] = self._layout_structure()\n'),(M,'    def do_save(self, design=""):','    def _layout_structure(self):\n        layout = OrderedDict()\n        for name, mri, x, y, visible in self.layout.value.rows():\n            layout[name] = OrderedDict([("x", x), ("y", y), ("visible", visible)])\n        return layout\n\n    def do_save(self, design=""):')]),
("=compr-exports",M,'        exports = attributes.setdefault("exports", OrderedDict())\n        for source, export in self.exports.value.rows():\n            exports[source] = export\n','        attributes["exports"] = OrderedDict((source, export) for source, export in self.exports.value.rows())\n'),
("=load-helper",[(M,'        source, export = [], []\n        for source_name, export_name in attributes.get("exports", {}).items():\n            source.append(source_name)\n            export.append(export_name)\n        self.exports.set_value(ExportTable(source, export))\n','        exports = attributes.get("exports", {})\n        self.exports.set_value(ExportTable(list(exports), list(exports.values())))\n')]),
("=load-own-loop",M,'        our_values = {\n            k: v for k, v in attributes.items() if k in self.our_config_attributes\n        }\n','        our_values = {}\n        for k, v in attributes.items():\n            if k in self.our_config_attributes:\n                our_values[k] = v\n'),
("=read-helper",[(M,'            filename = self._validated_config_filename(design)\n            with open(filename, "r") as f:\n                text = f.read()\n            structure = json_decode(text)\n','            structure = self._read_design(design)\n'),(M,'    def _mark_clean(self, design, init=False):','    def _read_design(self, design):\n        with open(self._validated_config_filename(design)) as f:\n            return json_decode(f.read())\n\n    def _mark_clean(self, design, init=False):')]),
("=mod-else",M,'            if message_list:\n                if only','            if len(message_list) > 0:\n                if only'),
("=mod-continue",M,'                if visible and info:\n                    for name, message in sorted(info.modified.items()):','                if not visible or not info:\n                    continue\n                else:\n                    for name, message in sorted(info.modified.items()):'),
("=child-guard",C,'            if self._unmanaged_attr(k):\n                attr = getattr(child, k)\n                if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):\n                    part_structure[k] = attr.value\n','            if not self._unmanaged_attr(k):\n                continue\n            attr = getattr(child, k)\n            if not isinstance(attr, Attribute):\n                continue\n            if get_config_tag(attr.meta.tags):\n                part_structure[k] = attr.value\n'),
("=child-toset",C,'            to_set = {}\n            for k, (attr, v) in params.items():\n                if attr.value != v:\n                    to_set[k] = v\n            child.put_attribute_values(to_set)\n','            child.put_attribute_values(\n                {k: v for k, (attr, v) in params.items() if attr.value != v}\n            )\n'),
("=child-sortedkeys",C,'        for name, params in sorted(iterations.items()):\n','        for iteration in sorted(iterations):\n            params = iterations[iteration]\n'),
("=child-msg",C,'            message = "%s.%s.value = %s not %s" % (\n                self.name,\n                name,\n                repr(new_value),\n                repr(original_value),\n            )\n','            message = f"{self.name}.{name}.value = {new_value!r} not {original_value!r}"\n'),
("=child-sub-helper",[(C,'                    subscribe = Subscribe(id=new_id, path=[self.mri, field, "value"])\n                    subscribe.set_callback(self.update_part_modified)\n                    self.config_subscriptions[new_id] = subscribe\n                    spawned.append(self.child_controller.handle_request(subscribe))\n','                    spawned.append(self._watch_field(new_id, field))\n'),(C,'    def update_part_modified(self, response: Response) -> None:','    def _watch_field(self, new_id, field):\n        subscribe = Subscribe(id=new_id, path=[self.mri, field, "value"])\n        subscribe.set_callback(self.update_part_modified)\n        self.config_subscriptions[new_id] = subscribe\n        return self.child_controller.handle_request(subscribe)\n\n    def update_part_modified(self, response: Response) -> None:')]),
("=clean-flag",M,"            if not init:\n                # Don't clear at init, because some things may not be\n                # clean at init\n                self.part_modified = {}\n","            if init:\n                pass\n            else:\n                self.part_modified.clear()\n"),
]

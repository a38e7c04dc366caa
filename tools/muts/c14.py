M="malcolm/modules/builtin/controllers/managercontroller.py"
C="malcolm/modules/builtin/parts/childpart.py"
P="malcolm/modules/pandablocks/controllers/pandamanagercontroller.py"
MUTS=[
("xy",M,'                    x.append(layout_info.x)\n                    y.append(layout_info.y)\n','                    x.append(layout_info.y)\n                    y.append(layout_info.x)\n'),
("only-visible-asked",M,'            LayoutHook(p, c, self.port_info, value)\n            for p, c in self.create_part_contexts(only_visible=False).items()','            LayoutHook(p, c, self.port_info, value)\n            for p, c in self.create_part_contexts().items()'),
("old-layout-passed",M,'LayoutHook(p, c, self.port_info, value)','LayoutHook(p, c, self.port_info, self.layout.value)'),
("compare-late",M,'            visibility_changed = layout_table.visible != self.layout.value.visible\n            self.layout.set_value(layout_table)\n','            self.layout.set_value(layout_table)\n            visibility_changed = layout_table.visible != self.layout.value.visible\n'),
("first-not-forced",M,'                visibility_changed = True\n',''),
("no-endpoints",M,'                # that we need to hide or show\n                self.update_block_endpoints()\n','                # that we need to hide or show\n'),
("names-unchecked",M,'            assert CAMEL_RE.match(\n                export_name\n            ), f"Field {export_name!r} is not camelCase"\n','            pass\n'),
("check-after",M,'        # Validate\n        for export_name in value.export:\n            assert CAMEL_RE.match(\n                export_name\n            ), f"Field {export_name!r} is not camelCase"\n        with self.changes_squashed:\n            self.exports.set_value(value)\n','        with self.changes_squashed:\n            self.exports.set_value(value)\n            for export_name in value.export:\n                assert CAMEL_RE.match(\n                    export_name\n                ), f"Field {export_name!r} is not camelCase"\n'),
("exports-no-mod",M,'            self.exports.set_value(value)\n            self.update_modified()\n','            self.exports.set_value(value)\n'),
("exports-no-end",M,'            self.exports.set_value(value)\n            self.update_modified()\n            self.update_block_endpoints()\n','            self.exports.set_value(value)\n            self.update_modified()\n'),
("names-not-kept",M,'                self.part_exportable[part] = info.names\n','                self.part_exportable.setdefault(part, info.names)\n'),
("ports-not-kept",M,'                self.port_info[part.name] = info.port_infos\n',''),
("only-removed",M,'                changed_names = set(names).symmetric_difference(\n                    self.exports.meta.elements["source"].choices\n                )\n','                changed_names = set(self.exports.meta.elements["source"].choices).difference(names)\n'),
("choices-first",M,'                changed_names = set(names).symmetric_difference(','                self.exports.meta.elements["source"].set_choices(names)\n                changed_names = set(names).symmetric_difference('),
("never-updates",M,'                if changed_exports:\n                    self.update_block_endpoints()\n',''),
("no-remove",M,'                self._block.remove_endpoint(name)\n',''),
("no-forget",M,'                for state, state_writeable in self._children_writeable.items():\n                    state_writeable.pop(child, None)\n',''),
("no-reset-subs",M,'        self._subscriptions = []\n\n        # Find','\n        # Find'),
("wrong-id",M,'            unsubscribe = Unsubscribe(subscription.id)\n            unsubscribe.set_callback(subscription.callback)\n            controller.handle_request(unsubscribe)\n        self._subs','            unsubscribe = Unsubscribe()\n            unsubscribe.set_callback(subscription.callback)\n            controller.handle_request(unsubscribe)\n        self._subs'),
("no-callback",M,'            unsubscribe.set_callback(subscription.callback)\n            controller.handle_request(unsubscribe)\n        self._subs','            controller.handle_request(unsubscribe)\n        self._subs'),
("hidden-shown",M,'            if part_name not in invisible:\n                for data','            if part_name in mris or part_name in invisible:\n                for data'),
("no-layout-hidden",M,'            if part_name not in invisible:\n                for data','            if part_name in mris:\n                for data'),
("export-hidden",M,'            if visible:\n                mris[part_name] = mri\n            else:\n                invisible.add(part_name)\n','            mris[part_name] = mri\n            if not visible:\n                invisible.add(part_name)\n'),
("export-unknown",M,'            if mri and attr_name in self.part_exportable.get(part, []):\n','            if mri:\n'),
("export-no-rename",M,'self._make_export_field(mri, attr_name, export_name)\n                yield export_name,','self._make_export_field(mri, attr_name, export_name)\n                yield attr_name,'),
("export-setter-writes-name",M,'        path = [mri, attr_name]\n        label','        path = [mri, export_name]\n        label'),
("no-delta",M,'Subscribe(path=path, delta=True)','Subscribe(path=path)'),
("not-remembered",M,'        self._subscriptions.append(subscription)\n',''),
("wait-first",M,'                            ret["export"].apply_change(*change)\n','                            ret["export"].apply_change(*response.changes[0])\n'),
("no-empty",M,'                        if change[0]:\n                            ret["export"].apply_change(*change)\n','                        ret["export"].apply_change(*change)\n                        if 0:\n                            pass\n'),
("replaced-ignored",M,'                            update_export(deserialize_object(change[1]))\n','                            pass\n'),
("replaced-late",M,'                        elif len(change) > 1:','                        elif len(change) > 2:'),
("later-not-applied",M,'                            ret["export"].apply_change(*change)\n','                            self.log.debug("Export got %s", response.changes)\n'),
("return-not-delta",M,'            if not isinstance(response, Delta):\n                # Return or Error is the end of our subscription, log and ignore\n                self.log.debug("Export got response %r", response)\n                return\n','            if isinstance(response, Error):\n                return\n'),
("config-tags-kept",M,'                        without_config_tags(without_group_tags(export.meta.tags))','                        without_group_tags(export.meta.tags)'),
("label-source",M,'        label = camel_to_title(export_name)','        label = camel_to_title(attr_name)'),
("post-no-return",M,'                        return context.post(path, kwargs)\n','                        context.post(path, kwargs)\n'),
("ctx-hidden",M,'                if not visible:\n                    part_contexts.pop(part)\n                else:\n','                if visible:\n'),
("ctx-no-notify",M,'                    part_contexts[part].set_notify_dispatch_request(\n                        part.notify_dispatch_request\n                    )\n','                    pass\n'),
("child-sever-late",C,'                if self.visible and not visible:\n                    self.sever_sink_ports(context, ports)\n                self.x = layout.x[i]\n                self.y = layout.y[i]\n                self.visible = visible\n','                self.x = layout.x[i]\n                self.y = layout.y[i]\n                self.visible = visible\n                if self.visible and not visible:\n                    self.sever_sink_ports(context, ports)\n'),
("child-xy",C,'                self.x = layout.x[i]\n                self.y = layout.y[i]\n','                self.x = layout.y[i]\n                self.y = layout.x[i]\n'),
("child-other-not-kept",C,'                self.part_visibility[name] = visible\n        # If','                self.part_visibility.setdefault(name, visible)\n        # If'),
("child-other-sever-all",C,'self.sever_sink_ports(context, ports, name)','self.sever_sink_ports(context, ports)'),
("child-other-not-hidden",C,'                if was_visible and not visible:\n','                if was_visible and visible:\n'),
("sever-any",C,"                    source_port_lookup is True\n                    or isinstance(source_port_lookup, dict)\n                    and source_port_lookup.get(child[name].value, None)\n                    == port_info.port\n","                    source_port_lookup is True\n                    or isinstance(source_port_lookup, dict)\n"),
("sever-wrong",C,"attribute_values[name] = port_info.disconnected_value","attribute_values[name] = port_info.value"),
("sever-readonly",C,"                    if child[name].meta.writeable:\n                        attribute_values[name]","                    if not child[name].meta.writeable:\n                        attribute_values[name]"),
("=fields-list",M,'                for data in self.field_registry.fields.get(part, []):\n                    yield data\n','                yield from self.field_registry.fields.get(part, [])\n'),
("=visible-names",M,'            if visible:\n                mris[part_name] = mri\n            else:\n                invisible.add(part_name)\n','            if not visible:\n                invisible.add(part_name)\n                continue\n            mris[part_name] = mri\n'),
("=rows-layout",M,'        for part_name, mri, visible in zip(\n            self.layout.value.name, self.layout.value.mri, self.layout.value.visible\n        ):\n            if visible:\n                mris','        for part_name, mri, _, _, visible in self.layout.value.rows():\n            if visible:\n                mris'),
("=export-or",M,'                if not export_name:\n                    export_name = attr_name\n','                export_name = export_name or attr_name\n'),
("=layout-comp",M,'            for part_name, layout_infos in layout_parts.items():\n                for layout_info in layout_infos:\n                    name.append(part_name)\n                    mri.append(layout_info.mri)\n                    x.append(layout_info.x)\n                    y.append(layout_info.y)\n                    visible.append(layout_info.visible)\n            layout_table = LayoutTable(name, mri, x, y, visible)\n','            rows = [(n, i) for n, infos in layout_parts.items() for i in infos]\n            layout_table = LayoutTable([n for n, _ in rows], [i.mri for _, i in rows], [i.x for _, i in rows], [i.y for _, i in rows], [i.visible for _, i in rows])\n'),
("=or-first",M,'            if visibility_changed:\n                self.update_modified()\n','            if visibility_changed is not False:\n                self.update_modified()\n'),
("=symm",M,'                changed_names = set(names).symmetric_difference(\n                    self.exports.meta.elements["source"].choices\n                )\n                changed_exports = changed_names.intersection(self.exports.value.source)\n','                choices = self.exports.meta.elements["source"].choices\n                changed_exports = (set(names) ^ set(choices)) & set(self.exports.value.source)\n'),
("=pop-values",M,'                for state, state_writeable in self._children_writeable.items():\n                    state_writeable.pop(child, None)\n','                for state_writeable in self._children_writeable.values():\n                    state_writeable.pop(child, None)\n'),
("=add-star",M,'        for name, child, writeable_func, needs_context in self._current_part_fields:\n            self.add_block_field(name, child, writeable_func, needs_context)\n\n    def add_part','        for field in self._current_part_fields:\n            self.add_block_field(*field)\n\n    def add_part'),
("=early",M,'        if self._current_part_fields:\n            for name, child, _, _ in self._current_part_fields:\n','        if self._current_part_fields is not None:\n            for name, child, _, _ in self._current_part_fields:\n'),
("=ctx-flip",M,'                if not visible:\n                    part_contexts.pop(part)\n                else:\n                    part_contexts[part].set_notify_dispatch_request(\n                        part.notify_dispatch_request\n                    )\n','                if visible:\n                    context = part_contexts[part]\n                    context.set_notify_dispatch_request(part.notify_dispatch_request)\n                else:\n                    del part_contexts[part]\n'),
("=child-zip",C,'        for i, name in enumerate(layout.name):\n            visible = layout.visible[i]\n','        for i, (name, visible) in enumerate(zip(layout.name, layout.visible)):\n'),
("=child-rows",C,[('        for i, name in enumerate(layout.name):\n            visible = layout.visible[i]\n','        for name, _, x, y, visible in layout.rows():\n'),('                self.x = layout.x[i]\n                self.y = layout.y[i]\n','                self.x = x\n                self.y = y\n')],None),
("=child-cont",C,'                if was_visible and not visible:\n                    self.sever_sink_ports(context, ports, name)\n                self.part_visibility[name] = visible\n','                self.part_visibility[name] = visible\n                if was_visible and not visible:\n                    self.sever_sink_ports(context, ports, name)\n'),
("=sever-helper",C,[("                if (\n                    source_port_lookup is True\n                    or isinstance(source_port_lookup, dict)\n                    and source_port_lookup.get(child[name].value, None)\n                    == port_info.port\n                ):\n                    if child[name].meta.writeable:\n                        attribute_values[name] = port_info.disconnected_value\n","                attr = child[name]\n                if source_port_lookup is True:\n                    sever = True\n                else:\n                    sever = source_port_lookup.get(attr.value, None) == port_info.port\n                if sever and attr.meta.writeable:\n                    attribute_values[name] = port_info.disconnected_value\n")],None),
("=exp-helper",M,[('                    export.meta.set_tags(\n                        without_config_tags(without_group_tags(export.meta.tags))\n                    )\n','                    tags = without_group_tags(export.meta.tags)\n                    export.meta.set_tags(without_config_tags(tags))\n')],None),
]

MUTS=[(m[0],[(m[1],a,b) for a,b in m[2]]) if isinstance(m[2],list) else m for m in MUTS]

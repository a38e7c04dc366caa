P = "malcolm/modules/pandablocks/"
C = P + "pandablocksclient.py"
M = P + "controllers/pandamanagercontroller.py"
B = P + "controllers/pandablockcontroller.py"
F = P + "parts/pandafieldpart.py"
T = P + "parts/pandatablepart.py"
U = P + "parts/pandabussespart.py"
L = P + "parts/pandalabelpart.py"
A = P + "parts/pandaactionpart.py"
MUTS = [
    # --- client
    ("shared-queue", C, "        response_queue = self.queue_cls()\n        self._send_queue.put", "        response_queue = self._resp = getattr(self, '_resp', None) or self.queue_cls()\n        self._send_queue.put"),
    ("sendfirst", C, "                self._response_queues.put(response_queue)\n                self._socket.sendall(message.encode(\"utf-8\"))", "                self._socket.sendall(message.encode(\"utf-8\"))\n                self._response_queues.put(response_queue)"),
    ("send-exc-ends", C, "                log.exception(\"Exception sending message %s\", message)", "                log.exception(\"Exception sending message %s\", message)\n                break"),
    ("err-returned", C, "        if isinstance(response, Exception):\n            raise response\n        else:\n            return response", "        if isinstance(response, OSError):\n            raise response\n        else:\n            return response"),
    ("recv-notimeout", C, "response_queue.get(timeout=timeout)", "response_queue.get()"),
    ("no-reset-lines", C, "        self._completed_response_lines = []\n        self._is_multiline = None\n\n    def _recv_loop", "        self._is_multiline = None\n\n    def _recv_loop"),
    ("no-reset-multi", C, "        self._completed_response_lines = []\n        self._is_multiline = None\n\n    def _recv_loop", "        self._completed_response_lines = []\n\n    def _recv_loop"),
    ("dot-first", C, "line.startswith(\"!\") or line == \".\"", "line.startswith(\"!\")"),
    ("err-midway", C, "if line.startswith(\"ERR\"):", "if line.startswith(\"ERR\") and not self._is_multiline:"),
    ("keep-bang", C, "append(line[1:])", "append(line)"),
    ("strip-bang", C, "append(line[1:])", "append(line.strip(\"!\"))"),
    ("err-stay", C, "                    self._respond(ValueError(line))", "                    self._respond(line)"),
    ("lost-rest", C, "            buf += rx", "            buf = rx"),
    ("all-lines", C, "for line in lines[:-1]:", "for line in lines:"),
    ("split-all", C, "line.split(\"=\", 1)", "line.rsplit(\"=\", 1)"),
    ("table-not-fetched", C, "            yield field, self.recv(q)", "            yield field, q"),
    ("table-name", C, "                field = line[:-1]\n                val = None", "                field = line\n                val = None"),
    ("err-lost-rest", C, "                else:\n                    continue\n            else:", "                else:\n                    break\n            else:"),
    ("setfields-first", C, "                assert resp == \"OK\", f\"Expected OK, got {resp!r}\"\n\n    def set_table", "                assert resp == \"OK\", f\"Expected OK, got {resp!r}\"\n                break\n\n    def set_table"),
    ("setfields-noack", C, "                assert resp == \"OK\", f\"Expected OK, got {resp!r}\"\n\n    def set_table", "                assert resp, f\"Expected OK, got {resp!r}\"\n\n    def set_table"),
    ("setfields-swallow", C, "                raise ValueError(f\"Error setting {field} to {value!r}: {e}\")", "                log.warning(f\"Error setting {field} to {value!r}: {e}\")"),
    ("setfields-repr", C, "message = f\"{field}={value}\\n\"", "message = f\"{field}={value!r}\\n\""),
    ("settable-noend", C, "        lines += [\"\\n\"]\n        resp", "        resp"),
    ("settable-append", C, "{block}.{field}<\\n", "{block}.{field}<<\\n"),
    ("settable-noack", C, "        assert resp == \"OK\", f\"Expected OK, got {resp!r}\"\n", "        log.debug(resp)\n", ),
    ("getfield-strip", C, "value = resp[4:]", "value = resp[5:]"),
    # --- manager
    ("bit-no-setback", M, "                    self._bit_out_changes[k] = v\n                    v = not v", "                    v = not v"),
    ("bit-defer-lost", M, "                if changed_to != v:\n                    self._bit_out_changes[k] = v\n                return", "                return"),
    ("bit-defer-now", M, "                    self._bit_out_changes[k] = v\n                return", "                    self._bit_out_changes[k] = v\n                    self._bit_outs[k] = v\n                return"),
    ("bit-not-stored", M, "            self._bit_outs[k] = v\n\n        # Notify", "\n        # Notify"),
    ("bit-compare-inv", M, "if v == current_v:", "if v != current_v:"),
    ("bus-value", M, "            bus_changes[k] = v\n\n        # Add", "            bus_changes[k] = bool(v)\n\n        # Add"),
    ("label-block", M, "field_name, block_name = field_name.split(\"_\", 1)", "block_name, field_name = field_name.split(\"_\", 1)"),
    ("layout-not-applied", M, "                    self.set_layout(LayoutTable([], [], [], [], []))\n                return", "                    pass\n                return"),
    ("busses-not-told", M, "        if bus_changes:\n            self.busses", "        if bus_changes and block_changes and changes:\n            self.busses"),
    ("toggle-not-block", M, "            block_changes.setdefault(block_name, {})[field_name] = v\n\n        # Work", "\n        # Work"),
    ("toggle-not-bus", M, "            bus_changes[k] = v\n            block_name, field_name = k.split(\".\")", "            block_name, field_name = k.split(\".\")"),
    ("toggle-kept", M, "        self._bit_out_changes = {}\n        for k, v in bit_out_changes.items():", "        for k, v in bit_out_changes.items():"),
    ("toggle-not-stored", M, "            self._bit_outs[k] = v\n            bus_changes[k] = v", "            bus_changes[k] = v"),
    ("suffix-offset", M, "(\"CAPTURE\", \"UNITS\", \"SCALE\", \"OFFSET\"):\n                self._bus", "(\"CAPTURE\", \"UNITS\", \"SCALE\"):\n                self._bus"),
    ("alias-lost", M, "                if block_data.number == 1:\n                    self._child_controllers[block_name + \"1\"] = controller\n", ""),
    ("number-from-0", M, "(block_rootname, i + 1)", "(block_rootname, i)"),
    ("poll-exc-quiet", M, "        except Exception as e:\n            self.go_to_error_state(e)\n            raise", "        except Exception as e:\n            self.log.exception(e)\n            raise"),
    ("poll-once", M, "                next_poll += last_poll_period\n", "                next_poll += last_poll_period\n                if self._client is None:\n                    break\n"),
    ("poll-timeout-ends", M, "                    # No stop, no problem\n                    pass", "                    # No stop, no problem\n                    if sleep_for < 0:\n                        return"),
    ("stop-no-wait", M, "            self._poll_spawned.wait()\n", ""),
    ("stop-keep", M, "            self._poll_spawned = None\n        if", "        if"),
    ("stop-no-client", M, "        if self._client.started:\n            self._client.stop()\n\n    def _make_child", "\n    def _make_child"),
    ("disable-order", M, "        super().do_disable()\n        self.stop_poll_loop()", "        super().do_disable()"),
    # --- block
    ("health-alarm", B, "alarm = Alarm.major(v)", "alarm = Alarm.ok"),
    ("health-ends", B, "                        continue\n                    # Work", "                        break\n                    # Work"),
    ("unknown-ends", B, "                    if part is None:\n                        continue", "                    if part is None:\n                        break"),
    ("no-ts", B, "part.handle_change(v, ts)", "part.handle_change(v, TimeStamp())"),
    ("icon-first-only", B, "icon_needs_update = k in self.icon_part.update_fields", "icon_needs_update = k == self.icon_part.update_fields"),
    ("mux-lost", B, "                    else:\n                        self._handle_mux_update(mux_meta, v)", "                    else:\n                        pass"),
    ("mux-keeps-old", B, "tags = without_linked_value_tags(mux_meta.tags)", "tags = list(mux_meta.tags)"),
    ("mux-swapped", B, "block_name, field_name = split\n            attr_name", "field_name, block_name = split\n            attr_name"),
    ("field-parts-key", B, "        self.add_part(part)\n        self.field_parts[field_name] = part\n\n    def _make_time", "        self.add_part(part)\n        self.field_parts[part.name] = part\n\n    def _make_time"),
    ("uint-int", B, "meta = NumberMeta(\"uint32\", description)", "meta = NumberMeta(\"int32\", description)"),
    ("pos-uint", B, "    elif subtyp in (\"uint\", \"\"):", "    elif subtyp in (\"uint\", \"\", \"pos\"):"),
    # --- field, table, label, action parts
    ("echo-any", F, "            self.pending_change = False\n            if value", "            if value"),
    ("echo-all", F, "            if value == self.attr.value:\n                # Ignore this change\n                return", "            return"),
    ("field-novalidate", F, "value = self.attr.meta.validate(value)", "pass"),
    ("field-notint", F, "            value = int(value)\n", "            value = bool(value)\n"),
    ("field-shown-first", F, "        self.client.set_field(self.block_name, self.field_name, value)\n        self.attr.set_value(value)", "        self.attr.set_value(value)\n        self.client.set_field(self.block_name, self.field_name, value)"),
    ("field-pending-after", F, "        self.pending_change = True\n        self.client.set_field(self.block_name, self.field_name, value)\n", "        self.client.set_field(self.block_name, self.field_name, value)\n        self.pending_change = True\n"),
    ("table-ts", T, "self.attr.set_value_alarm_ts(value, Alarm.ok, ts)", "self.attr.set_value_alarm_ts(value, Alarm.ok, TimeStamp())"),
    ("table-shift", T, "shifted_column = (int_column >> field_data.bits_lo % 32) & mask", "shifted_column = int_column >> field_data.bits_lo % 32"),
    ("table-mask-first", T, "shifted_column = (int_column >> field_data.bits_lo % 32) & mask", "shifted_column = (int_column & mask) >> field_data.bits_lo % 32"),
    ("table-nomask", T, "masked_column = (column_value & mask).astype(np.uint32)", "masked_column = column_value.astype(np.uint32)"),
    ("table-width", T, "masked_column = (column_value & mask).astype(np.uint32)", "masked_column = column_value & mask"),
    ("table-or", T, "int_matrix[..., column_index] |= shifted_column", "int_matrix[..., column_index] = shifted_column"),
    ("table-nbits", T, "nbits = field_data.bits_hi - field_data.bits_lo + 1\n    mask", "nbits = field_data.bits_hi - field_data.bits_lo\n    mask"),
    ("table-words", T, "max_bits_hi // 32 + 1", "int((max_bits_hi + 31) / 32)"),
    ("table-index-hi", T, "column_index = field_data.bits_lo // 32", "column_index = field_data.bits_lo // 31"),
    ("label-blank", L, "        if not value:\n            value = self.initial_value\n", ""),
    ("label-sent-back", L, "        super().set_label(value, ts)\n\n    def set_label", "        self.set_label(value, ts)\n\n    def set_label"),
    ("action-value", A, "self.field_name, \"\")", "self.field_name, 1)"),
    # --- busses
    ("bus-bit-row", U, "update_column(column_changes, \"value\", self.bits.value)[i] = value", "update_column(column_changes, \"capture\", self.bits.value)[i] = value"),
    ("bus-scale-old", U, "scale = column_changes.get(\"scale\", table_value.scale)[i]", "scale = table_value.scale[i]"),
    ("bus-offset", U, "self._pos_values[i] * scale + offset", "(self._pos_values[i] + offset) * scale"),
    ("bus-swap", U, "offset = column_changes.get(\"offset\", table_value.offset)[i]", "offset = column_changes.get(\"scale\", table_value.offset)[i]"),
    ("bus-cap", U, "capture = value != \"No\"", "capture = value == \"Value\""),
    ("bus-cap-first", U, "                update_column(column_changes, \"capture\", self.bits.value)[i] = capture\n            return True", "                update_column(column_changes, \"capture\", self.bits.value)[i] = capture\n                return True\n            return True"),
    ("bus-ts", U, "self.positions.set_value_alarm_ts(new_value, Alarm.ok, ts)", "self.positions.set_value(new_value)"),
    ("bus-elif", U, "        if pos_column_changes:", "        if pos_column_changes and not bit_column_changes:"),
    ("bus-alias", U, "column_value = column_array.seq.copy()", "column_value = column_array.seq"),
    ("bus-pos-scale-str", U, "if column in (\"scale\", \"offset\"):", "if column == \"scale\":"),
    ("bus-suffix", U, "for suffix in (\"CAPTURE\", \"SCALE\", \"OFFSET\", \"UNITS\"):", "for suffix in (\"CAPTURE\", \"SCALE\", \"OFFSET\"):"),
    ("bus-index", U, "                    index = len(bit_names)\n                    indexes.append(index)\n                    bit_names.append(bit)\n", "                    bit_names.append(bit)\n                    index = len(bit_names)\n                    indexes.append(index)\n"),
    ("bus-put-trump", U, "                    field_values.setdefault(capture_field, \"No\")", "                    field_values[capture_field] = \"No\""),
    ("bus-put-first", U, "                self._client.set_fields(field_values)\n        new_value = make_updated_table(self.positions", "        self._client.set_fields(field_values)\n        new_value = make_updated_table(self.positions"),
    ("bus-put-units", U, "for attr in (\"capture\", \"scale\", \"offset\", \"units\"):", "for attr in (\"capture\", \"scale\", \"offset\"):"),
    ("bus-put-enum", U, "                        value = value.value\n", "                        value = str(value)\n"),
    ("bus-put-old", U, "        new_value = make_updated_table(self.bits.value, column_changes)\n        self.bits.set_value(new_value)", "        self.bits.set_value(value)"),
    ("bus-diff-row", U, "if old[k][j] != new_value:", "if old[k][i] != new_value:"),
    ("bus-diff-put", U, "update_column(column_changes, k, old)[j] = new_value", "update_column(column_changes, k, old)[i] = new_value"),
    ("bus-diff-value", U, "if k not in (\"name\", \"value\"):", "if k not in (\"name\", \"value\", \"offset\"):"),
    # --- quiet
    ("=recv-ternary", C, "        if isinstance(response, Exception):\n            raise response\n        else:\n            return response", "        if not isinstance(response, Exception):\n            return response\n        raise response"),
    ("=recvloop-for", C, "        lines_iterator = self._get_lines()\n        while True:\n            try:\n                line = next(lines_iterator)\n", "        lines_iterator = self._get_lines()\n        while True:\n            try:\n                line = next(lines_iterator)\n                log.debug(\"Got %s\", line)\n"),
    ("=recvloop-order", C, "                    if line == \".\":\n                        self._respond(self._completed_response_lines)\n                    else:\n                        assert (\n                            line[0] == \"!\"\n                        ), f\"Multiline response {repr(line)} doesn't start with !\"\n                        self._completed_response_lines.append(line[1:])", "                    if line != \".\":\n                        assert line.startswith(\"!\"), f\"Multiline response {line!r}\"\n                        self._completed_response_lines.append(line[1:])\n                    else:\n                        self._respond(self._completed_response_lines)"),
    ("=respond-order", C, "        response_queue.put(resp)\n        self._completed_response_lines = []\n        self._is_multiline = None\n", "        self._is_multiline = None\n        self._completed_response_lines = []\n        response_queue.put(resp)\n"),
    ("=getlines-pop", C, "            for line in lines[:-1]:\n                yield line\n            buf = lines[-1]\n", "            buf = lines.pop()\n            for line in lines:\n                yield line\n"),
    ("=getlines-from", C, "            for line in lines[:-1]:\n                yield line\n", "            yield from lines[:-1]\n"),
    ("=partition", C, "field, val = line.split(\"=\", 1)", "field, _, val = line.partition(\"=\")"),
    ("=endswith", C, "elif line[-1] == \"<\":", "elif line.endswith(\"<\"):"),
    ("=setfields-list", C, "        queues = OrderedDict()\n        for field, value in field_values.items():\n            message = f\"{field}={value}\\n\"\n            queues[(field, value)] = self.send(message)\n        for (field, value), queue in queues.items():", "        queues = [\n            (field, value, self.send(\"%s=%s\\n\" % (field, value)))\n            for field, value in field_values.items()\n        ]\n        for field, value, queue in queues:"),
    ("=setfields-if", C, "            else:\n                assert resp == \"OK\", f\"Expected OK, got {resp!r}\"\n\n    def set_table", "            if resp != \"OK\":\n                raise AssertionError(f\"Expected OK, got {resp!r}\")\n\n    def set_table"),
    ("=settable-str", C, "        lines = [f\"{block}.{field}<\\n\"]\n        lines += [f\"{int_value}\\n\" for int_value in int_values]\n        lines += [\"\\n\"]\n        resp = self.send_recv(\"\".join(lines))", "        message = f\"{block}.{field}<\\n\"\n        for int_value in int_values:\n            message += f\"{int_value}\\n\"\n        resp = self.send_recv(message + \"\\n\")"),
    ("=sendrecv-inline", C, "        response_queue = self.send(message)\n        response = self.recv(response_queue, timeout)\n        return response", "        return self.recv(self.send(message), timeout)"),
    ("=stripok-removed", C, "            return strip_ok(resp)\n\n    def set_field", "            value = strip_ok(resp)\n            return value\n\n    def set_field"),
    ("=bit-in", M, "        try:\n            current_v = self._bit_outs[k]\n        except KeyError:\n            # Not a bit\n            pass\n        else:\n            # Convert", "        if k in self._bit_outs:\n            current_v = self._bit_outs[k]\n            # Convert"),
    ("=bit-in2", M, "            try:\n                changed_to = bit_out_changes[k]\n            except KeyError:\n                # We didn't already make a change\n                if v == current_v:\n                    # Value is the same, store the negation, and set it\n                    # back next time\n                    self._bit_out_changes[k] = v\n                    v = not v\n            else:\n                # Already made a change, defer this value til next time\n                # if it is different\n                if changed_to != v:\n                    self._bit_out_changes[k] = v\n                return\n", "            if k in bit_out_changes:\n                if bit_out_changes[k] != v:\n                    self._bit_out_changes[k] = v\n                return\n            if v == current_v:\n                self._bit_out_changes[k] = v\n                v = not v\n"),
    ("=bit-defer-order", M, "                if changed_to != v:\n                    self._bit_out_changes[k] = v\n                return", "                if changed_to == v:\n                    return\n                self._bit_out_changes[k] = v\n                return"),
    ("=setdefault", M, "        block_changes.setdefault(block_name, {})[field_name] = v\n\n    def handle", "        if block_name not in block_changes:\n            block_changes[block_name] = {}\n        block_changes[block_name][field_name] = v\n\n    def handle"),
    ("=helper-bit", M, "        # Notify the bus tables if they need to know\n        if k in self._bus_fields:\n            bus_changes[k] = v\n", "        # Notify the bus tables if they need to know\n        self._note_bus(k, v, bus_changes)\n", ),
    ("=swap-notify", M, "        if bus_changes:\n            self.busses.handle_changes(bus_changes, ts)\n        for block_name, block_changes_values in block_changes.items():\n            self._child_controllers[block_name].handle_changes(block_changes_values, ts)", "        for block_name, block_changes_values in block_changes.items():\n            child = self._child_controllers[block_name]\n            child.handle_changes(block_changes_values, ts)\n        if bus_changes:\n            self.busses.handle_changes(bus_changes, ts)"),
    ("=poll-var", M, "                self.handle_changes(self._client.get_changes())\n                if (", "                changes = self._client.get_changes()\n                self.handle_changes(changes)\n                if ("),
    ("=poll-stop", M, "                    return self._stop_queue.get(timeout=sleep_for)\n                except TimeoutError:", "                    self._stop_queue.get(timeout=sleep_for)\n                    return\n                except TimeoutError:"),
    ("=stop-isnot", M, "        if self._poll_spawned:\n            self._stop", "        if self._poll_spawned is not None:\n            self._stop"),
    ("=start-dup", M, "            if self._client.started:\n                self._client.stop()\n            self._client.start", "            self._client.start"),
    ("=health-tern", B, "                        if v.upper() == \"OK\":\n                            alarm = Alarm.ok\n                        else:\n                            alarm = Alarm.major(v)", "                        alarm = Alarm.ok if v.upper() == \"OK\" else Alarm.major(v)"),
    ("=part-get", B, "                    try:\n                        part = self.field_parts[k]\n                    except KeyError:\n                        self.log.exception(f\"Can't handle field {self.block_name}.{k}\")\n                        part = None\n                    if part is None:\n                        continue", "                    if k not in self.field_parts:\n                        self.log.error(f\"Can't handle field {self.block_name}.{k}\")\n                        continue\n                    part = self.field_parts[k]\n                    if part is None:\n                        continue"),
    ("=mux-in", B, "                    try:\n                        mux_meta = self.mux_metas[k]\n                    except KeyError:\n                        pass\n                    else:\n                        self._handle_mux_update(mux_meta, v)", "                    if k in self.mux_metas:\n                        self._handle_mux_update(self.mux_metas[k], v)"),
    ("=icon-or", B, "                    if not icon_needs_update:\n                        icon_needs_update = k in self.icon_part.update_fields\n", "                    if k in self.icon_part.update_fields:\n                        icon_needs_update = True\n"),
    ("=isinst", B, "            if isinstance(changes, Dict):\n                for k, v in changes.items():", "            if isinstance(changes, dict):\n                for k, v in changes.items():"),
    ("=field-nested", F, "        if self.pending_change:\n            self.pending_change = False\n            if value == self.attr.value:\n                # Ignore this change\n                return\n", "        pending, self.pending_change = self.pending_change, False\n        if pending and value == self.attr.value:\n            return\n"),
    ("=field-sent-var", F, "        if isinstance(self.meta, BooleanMeta):\n            value = int(value)\n", "        value = int(value) if isinstance(self.meta, BooleanMeta) else value\n"),
    ("=table-inline", T, "        value = self.table_from_list(value)\n        self.attr.set_value_alarm_ts(value, Alarm.ok, ts)", "        self.attr.set_value_alarm_ts(self.table_from_list(value), Alarm.ok, ts)"),
    ("=table-shiftvar", T, "            shifted_column = (int_column >> field_data.bits_lo % 32) & mask", "            shift = field_data.bits_lo % 32\n            shifted_column = (int_column >> shift) & mask"),
    ("=table-oplus", T, "int_matrix[..., column_index] |= shifted_column.astype(np.uint32)", "int_matrix[..., column_index] = int_matrix[\n                ..., column_index\n            ] | shifted_column.astype(np.uint32)"),
    ("=bus-pos-early", U, "        i = self._bit_indexes.get(field_name, None)\n        assert self.bits, \"No bits\"\n        if i is not None:\n            # It's a bit, update the table changes\n            update_column(column_changes, \"value\", self.bits.value)[i] = value\n            return True\n        return None", "        assert self.bits, \"No bits\"\n        if field_name not in self._bit_indexes:\n            return None\n        row = self._bit_indexes[field_name]\n        update_column(column_changes, \"value\", self.bits.value)[row] = value\n        return True"),
    ("=bus-cap-not", U, "capture = value != \"No\"", "capture = not value == \"No\""),
    ("=bus-scaled", U, "            update_column(column_changes, \"value\", self.positions.value)[i] = (\n                self._pos_values[i] * scale + offset\n            )", "            scaled = self._pos_values[i] * scale + offset\n            values = update_column(column_changes, \"value\", self.positions.value)\n            values[i] = scaled"),
    ("=bus-upcol-in", U, "    try:\n        column_value = column_changes[column]\n    except KeyError:\n        column_array = getattr(table_value, column)", "    if column in column_changes:\n        column_value = column_changes[column]\n    else:\n        column_array = getattr(table_value, column)"),
    ("=bus-put-ifelse", U, "                if capture:\n                    # If told to capture, this trumps anything it currently\n                    # holds\n                    field_values[capture_field] = \"Value\"\n                else:\n                    # If not already set, set it to No\n                    field_values.setdefault(capture_field, \"No\")", "                if capture:\n                    field_values[capture_field] = \"Value\"\n                elif capture_field not in field_values:\n                    field_values[capture_field] = \"No\""),
    ("=bus-diff-order", U, "                    new_value = new[k][i]\n                    # Lookup row index in actual table\n                    try:\n                        j = lookup[name]\n                    except KeyError:\n                        self.log.warning(f\"Ignoring table row with name {name}\")\n                    else:\n                        if old[k][j] != new_value:\n                            # row changed\n                            update_column(column_changes, k, old)[j] = new_value", "                    if name not in lookup:\n                        self.log.warning(f\"Ignoring table row with name {name}\")\n                        continue\n                    j = lookup[name]\n                    new_value = new[k][i]\n                    if old[k][j] != new_value:\n                        update_column(column_changes, k, old)[j] = new_value"),
]
for i, m in enumerate(MUTS):
    if m[0] == "=helper-bit":
        MUTS[i] = (m[0], M, [(M, m[2], m[3]), (M, "    def handle_changes(self, changes", "    def _note_bus(self, name, value, changes):\n        if name in self._bus_fields:\n            changes[name] = value\n\n    def handle_changes(self, changes")])
MUTS += [
("=q-block-helper",M,[(M,'''        block_changes.setdefault(block_name, {})[field_name] = v

    def handle_changes''','''        self._add_block_change(block_changes, block_name, field_name, v)

    @staticmethod
    def _add_block_change(block_changes, block_name, field_name, value):
        block_changes.setdefault(block_name, {})[field_name] = value

    def handle_changes'''),(M,'''            block_name, field_name = k.split(".")
            block_changes.setdefault(block_name, {})[field_name] = v
''','''            block_name, field_name = k.split(".")
            self._add_block_change(block_changes, block_name, field_name, v)
''')]),
("=q-meta-early",M,'''            if field_name.startswith("LABEL_"):
                field_name, block_name = field_name.split("_", 1)
            elif field_name == "LAYOUT" and v:''','''            if field_name.startswith("LABEL_"):
                field_name, block_name = field_name.split("_", maxsplit=1)
            elif field_name == "LAYOUT" and v:'''),
("=q-label-slice",M,'''                field_name, block_name = field_name.split("_", 1)''','''                block_name = field_name[len("LABEL_"):]
                field_name = "LABEL"'''),
("=q-names-comp",M,'''                for i in range(block_data.number):
                    block_names.append("%s%d" % (block_rootname, i + 1))''','''                block_names = [
                    f"{block_rootname}{i}" for i in range(1, block_data.number + 1)
                ]'''),
("=q-names-tern",M,'''            block_names = []
            if block_data.number == 1:
                block_names.append(block_rootname)
            else:
                for i in range(block_data.number):
                    block_names.append("%s%d" % (block_rootname, i + 1))''','''            if block_data.number == 1:
                block_names = [block_rootname]
            else:
                block_names = [
                    "%s%d" % (block_rootname, i + 1) for i in range(block_data.number)
                ]'''),
("=q-poll-sleep-helper",M,[(M,'''                min_sleep = self._poll_period * 0.5
                sleep_for = next_poll - time.time()
                if sleep_for < min_sleep:
                    # Going too fast, slow down a bit
                    last_poll_period = self._poll_period + min_sleep - sleep_for
                    sleep_for = min_sleep
                else:
                    last_poll_period = self._poll_period
''','''                sleep_for, last_poll_period = self._sleep_time(next_poll)
'''),(M,'''    def stop_poll_loop(self):
''','''    def _sleep_time(self, next_poll):
        min_sleep = self._poll_period * 0.5
        sleep_for = next_poll - time.time()
        if sleep_for < min_sleep:
            return min_sleep, self._poll_period + min_sleep - sleep_for
        return sleep_for, self._poll_period

    def stop_poll_loop(self):
''')]),
("=q-poll-stopped",M,[(M,'''                try:
                    # If told to stop, we will get something here and return
                    return self._stop_queue.get(timeout=sleep_for)
                except TimeoutError:
                    # No stop, no problem
                    pass
''','''                if self._told_to_stop(sleep_for):
                    return
'''),(M,'''    def stop_poll_loop(self):
''','''    def _told_to_stop(self, timeout):
        try:
            self._stop_queue.get(timeout=timeout)
        except TimeoutError:
            return False
        return True

    def stop_poll_loop(self):
''')]),
("=q-stop-client",M,'''        if self._client.started:
            self._client.stop()

    def _make''','''        client = self._client
        if client.started:
            client.stop()

    def _make'''),
("=q-hc-items",M,'''        for block_name, block_changes_values in block_changes.items():
            self._child_controllers[block_name].handle_changes(block_changes_values, ts)''','''        for block_name in block_changes:
            controller = self._child_controllers[block_name]
            controller.handle_changes(block_changes[block_name], ts)'''),
("=q-hc-swap",M,'''        bit_out_changes = self._bit_out_changes
        self._bit_out_changes = {}
''','''        bit_out_changes, self._bit_out_changes = self._bit_out_changes, {}
'''),
("=q-hc-pair",M,'''        for key, value in changes:
            self._handle_change(key, value, bus_changes, block_changes, bit_out_changes)''','''        for change in changes:
            key, value = change
            self._handle_change(key, value, bus_changes, block_changes, bit_out_changes)'''),
("=q-bus-name",U,'''                    field = f"{name}.{attr.upper()}"
                    value = column_changes[attr][i]''','''                    field = "%s.%s" % (name, attr.upper())
                    value = column_changes[attr][i]'''),
("=q-bus-zip",U,'''                for i, name in enumerate(self.positions.value.name):
                    field = f"{name}.{attr.upper()}"
                    value = column_changes[attr][i]
                    if''','''                for name, value in zip(self.positions.value.name, column_changes[attr]):
                    field = f"{name}.{attr.upper()}"
                    if'''),
("=q-bus-continue",U,'''            if attr in column_changes:
                # If attribute changed, set field bits
                field_values = {}
                for i, name in enumerate(self.positions.value.name):
                    field = f"{name}.{attr.upper()}"
                    value = column_changes[attr][i]
                    if attr == "capture":
                        # Convert Enum to string value for capture string
                        value = value.value
                    field_values[field] = value
                self._client.set_fields(field_values)
''','''            if attr not in column_changes:
                continue
            # If attribute changed, set field bits
            field_values = {}
            for i, name in enumerate(self.positions.value.name):
                value = column_changes[attr][i]
                if attr == "capture":
                    # Convert Enum to string value for capture string
                    value = value.value
                field_values[f"{name}.{attr.upper()}"] = value
            self._client.set_fields(field_values)
'''),
("=q-bus-bits-helper",U,[(U,'''            field_values = {}
            for bit in value.name:
                if bit not in self._bit_indexes:
                    # Ignored above
                    continue
                capture = column_changes["capture"][self._bit_indexes[bit]]
                capture_field = self._bit_pcap_fields[bit]
                if capture:
                    # If told to capture, this trumps anything it currently
                    # holds
                    field_values[capture_field] = "Value"
                else:
                    # If not already set, set it to No
                    field_values.setdefault(capture_field, "No")
            self._client.set_fields(field_values)
''','''            self._client.set_fields(
                self._pcap_values(value.name, column_changes["capture"])
            )
'''),(U,'''    def set_positions(self''','''    def _pcap_values(self, names, captures):
        field_values = {}
        for bit in names:
            if bit in self._bit_indexes:
                capture_field = self._bit_pcap_fields[bit]
                if captures[self._bit_indexes[bit]]:
                    field_values[capture_field] = "Value"
                else:
                    field_values.setdefault(capture_field, "No")
        return field_values

    def set_positions(self''')]),
("=q-bus-hc-for",U,'''        if bit_column_changes:
            new_value = make_updated_table(self.bits.value, bit_column_changes)
            self.bits.set_value_alarm_ts(new_value, Alarm.ok, ts)
        assert self.positions, "No positions"
        if pos_column_changes:
            new_value = make_updated_table(self.positions.value, pos_column_changes)
            self.positions.set_value_alarm_ts(new_value, Alarm.ok, ts)''','''        assert self.positions, "No positions"
        for attr, column_changes in (
            (self.bits, bit_column_changes),
            (self.positions, pos_column_changes),
        ):
            if column_changes:
                new_value = make_updated_table(attr.value, column_changes)
                attr.set_value_alarm_ts(new_value, Alarm.ok, ts)'''),
("=q-bus-hc-handled",U,'''            assert (
                self._handle_bit(k, v, bit_column_changes)
                or self._handle_pos(k, v, pos_column_changes)
                or self._handle_pcap(k, v, bit_column_changes)
            ), f"Don't know how to handle {k}"''','''            handled = self._handle_bit(k, v, bit_column_changes)
            if not handled:
                handled = self._handle_pos(k, v, pos_column_changes)
            if not handled:
                handled = self._handle_pcap(k, v, bit_column_changes)
            assert handled, f"Don't know how to handle {k}"'''),
("=q-bus-bit-early",U,'''            update_column(column_changes, "value", self.bits.value)[i] = value
            return True
        return None''','''            column = update_column(column_changes, "value", self.bits.value)
            column[i] = value
            return True
        return None'''),
("=q-bus-pos-float",U,'''                if column in ("scale", "offset"):
                    parsed_value = float(value)
                elif column == "capture":
                    parsed_value = PositionCapture(value)
                else:
                    parsed_value = value''','''                if column == "capture":
                    parsed_value = PositionCapture(value)
                elif column == "scale" or column == "offset":
                    parsed_value = float(value)
                else:
                    parsed_value = value'''),
("=q-bus-table-comp",U,"column_value = column_array.seq.copy()","column_value = list(column_array.seq)"),
("=q-tab-helper",T,[(T,'''            if field_data.labels:
                # Choice, lookup indexes of the label values
                indexes = [field_data.labels.index(v) for v in column_value]
                column_value = np.array(indexes, dtype=np.uint32)
            else:
                # Array, unwrap to get the numpy array
                column_value = column_value.seq
''','''            column_value = self._column_ints(column_value, field_data)
'''),(T,'''    def table_from_list(self''','''    @staticmethod
    def _column_ints(column_value, field_data):
        if not field_data.labels:
            return column_value.seq
        indexes = [field_data.labels.index(v) for v in column_value]
        return np.array(indexes, dtype=np.uint32)

    def table_from_list(self''')]),
("=q-tab-flat",T,'''        int_values = int_matrix.reshape((nrows * self.ints_per_row,))
        return int_values''','''        return int_matrix.reshape((nrows * self.ints_per_row,))'''),
("=q-c-lines",C,'''        lines = [f"{block}.{field}<\\n"]
        lines += [f"{int_value}\\n" for int_value in int_values]
        lines += ["\\n"]
''','''        lines = [f"{block}.{field}<\\n"]
        for int_value in int_values:
            lines.append(f"{int_value}\\n")
        lines.append("\\n")
'''),
("=q-c-respond-helper",C,[(C,'''        self._completed_response_lines = []
        self._is_multiline = None

    def _recv_loop''','''        self._clear_response()

    def _clear_response(self):
        self._completed_response_lines = []
        self._is_multiline = None

    def _recv_loop''')]),
("=q-c-handle-line",C,[(C,'''                line = next(lines_iterator)
                if self._is_multiline is None:
                    self._is_multiline = line.startswith("!") or line == "."
                if line.startswith("ERR"):
                    self._respond(ValueError(line))
                elif self._is_multiline:
                    if line == ".":
                        self._respond(self._completed_response_lines)
                    else:
                        assert (
                            line[0] == "!"
                        ), f"Multiline response {repr(line)} doesn't start with !"
                        self._completed_response_lines.append(line[1:])
                else:
                    self._respond(line)
''','''                self._handle_line(next(lines_iterator))
'''),(C,'''    def _recv_loop''','''    def _handle_line(self, line):
        if self._is_multiline is None:
            self._is_multiline = line.startswith("!") or line == "."
        if line.startswith("ERR"):
            self._respond(ValueError(line))
            return
        if not self._is_multiline:
            self._respond(line)
            return
        if line == ".":
            self._respond(self._completed_response_lines)
        else:
            assert line.startswith(
                "!"
            ), f"Multiline response {repr(line)} doesn't start with !"
            self._completed_response_lines.append(line[1:])

    def _recv_loop''')]),
("=q-c-getlines-star",C,'''            lines = buf.split("\\n")
            for line in lines[:-1]:
                yield line
            buf = lines[-1]
''','''            *lines, buf = buf.split("\\n")
            for line in lines:
                yield line
'''),
("=q-c-getlines-while",C,'''            lines = buf.split("\\n")
            for line in lines[:-1]:
                yield line
            buf = lines[-1]
''','''            while "\\n" in buf:
                line, buf = buf.split("\\n", 1)
                yield line
'''),
("=q-c-recv-raise",C,'''        if isinstance(response, Exception):
            raise response
        else:
            return response''','''        if isinstance(response, Exception):
            raise response
        return response'''),
]

PATHS = ("Sound for the modelled Python subset up to the stated bounds: loops are unrolled 2 (thorough 3) times, recursion 3-4 levels, "
         "every unresolved call may raise. Trusts: the AST, the project's own class/annotation structure, and that code outside /repo "
         "(annotypes, cothread, tornado, p4p, numpy) behaves as documented.")

prop("C01", "Every request gets exactly one answer, under its own id",
     "Every Get, Put, Post, Subscribe and Unsubscribe that a block accepts is answered by exactly one response carrying the id of that request: "
     "a Return for success (an initial Update, or an initial Delta if and only if deltas were asked for, for Subscribe), or an Error carrying the exception. "
     "This includes every request whose handling fails at any point, in the framework or in user code, and the answer goes to the callback of the request it belongs to.",
     ["inputs", "fault_sequences", "schedules"], "for every request object, every block contents, and every exception at every call on the handling path",
     "Tests send a handful of well-formed requests and a few chosen failures; they cannot inject an exception at each call of the handling path for each request kind and controller class.",
     ["malcolm/core/controller.py", "malcolm/core/request.py", "malcolm/core/response.py", "malcolm/core/notifier.py", "malcolm/modules/builtin/controllers/proxycontroller.py"],
     [("request dispatch and catch-all", "Controller._handle_request"), ("response constructors", "Request.return_response/error_response, Subscribe.update_response/delta_response"), ("subscription tree", "Notifier.handle_subscribe/handle_unsubscribe")],
     state=[("id", "id of the request, copied into its response"), ("callback", "where responses of a request go")],
     observe="Request callback", technique="path-sensitive typestate of the response callback over the request handlers, all exceptional paths", note=PATHS)

prop("C02", "A write reaches only the named writeable field, with a validated value",
     "A Put or Post runs the setter registered for exactly the field named in the request, at most once, only after that field was found to be of the right kind and currently writeable, and only with the value or parameters validated against the field's own metadata; otherwise nothing is called. "
     "A Post answers with what the method returned and every call that was made is recorded in the method's took and returned logs, with an alarm if and only if it failed; a Put answers with the new value only if asked. "
     "A Get answers with the data at exactly the requested path.",
     ["inputs", "histories", "fault_sequences"], "for every request path, value and parameter set, in every writeable/not-writeable state and for every failure of the setter",
     "Tests put a few valid values; they do not enumerate the orders of checks, failure points and argument flows that every request may take.",
     ["malcolm/core/controller.py", "malcolm/core/models.py", "malcolm/core/request.py"],
     [("write guard", "Controller.check_field_writeable"), ("setter registry", "Controller.add_block_field"), ("method logs", "Controller.update_method_logs")],
     state=[("writeable functions", "field name to setter")], observe="setter calls and responses",
     technique="guard-dominance and value-provenance dataflow on all paths of the request handlers", note=PATHS)

prop("C03", "User code and responses run without the block lock, data access with it",
     "While a setter or method supplied by a part runs, and while a response to a request is delivered, the handling thread does not hold the block's lock, so a slow or re-entrant one cannot block or deadlock the others; block data is only read for a response, and method logs only updated, while it is held. "
     "Whatever way request handling or a squashed change ends, including by any exception, the lock is held exactly as often as before.",
     ["schedules", "fault_sequences"], "for every interleaving of requests and every exception at any call",
     "A lock that leaks or is held too long only shows when another thread arrives at that instant or a rare exception path is taken.",
     ["malcolm/core/controller.py", "malcolm/core/notifier.py"],
     [("lock release around user code", "Controller.lock_released"), ("squashing context", "Notifier.__enter__/__exit__")],
     state=[("lock depth", "how often the handling thread holds the block's re-entrant lock")], observe="setter, method and response callback invocations",
     technique="lock-depth dataflow over all paths, including exceptional exits", note=PATHS)

prop("C04", "Every change to a block reaches every subscriber with the value stored",
     "Whenever a field of a block (value, alarm, timestamp, metadata, label, writeable flag, field added or removed) is changed, the same value that was stored is announced at that field's own path and, when the outermost change is complete, every subscription at, above or below that path is given an update holding the new data; "
     "changes made together are delivered together, once. A subscription that nothing changed for is not called, and a replaced or removed field stops announcing.",
     ["histories", "inputs", "schedules"], "for every sequence of model changes, every shape of the subscription tree and every nesting of changes",
     "The set of fields, subscription depths and nestings is unbounded; tests subscribe to a couple of paths and change a couple of fields.",
     ["malcolm/core/models.py", "malcolm/core/notifier.py", "malcolm/core/controller.py"],
     [("announcing setter", "Model.set_endpoint_data"), ("squashing", "Notifier.__enter__/__exit__, add_squashed_change"), ("distribution", "NotifierNode.notify_changes")],
     state=[("pending changes", "changes queued until the outermost change completes"), ("node data", "what subscribers of a path were last given")],
     observe="Update and Delta responses of Subscribe", technique="store/announce pairing and value-provenance dataflow over every model method and notifier path", note=PATHS)

prop("C05", "Subscribing and unsubscribing touch exactly the subscription they name",
     "A Subscribe is remembered at exactly the path it names and starts from the data the block has at that moment, with no change lost or repeated between that first answer and later updates. "
     "An Unsubscribe ends exactly the subscription with the same id and callback; every other subscription keeps receiving updates, and one for an unknown id is answered with an Error.",
     ["histories", "inputs"], "for every sequence of Subscribe and Unsubscribe over any paths, including paths above and below each other",
     "Tests make a few subscriptions; pruning and registration errors show only for particular trees of subscriptions and orders of removal.",
     ["malcolm/core/notifier.py", "malcolm/core/request.py", "malcolm/core/controller.py"],
     [("registration", "Notifier.handle_subscribe, NotifierNode.handle_subscribe"), ("removal", "Notifier.handle_unsubscribe, NotifierNode.handle_unsubscribe")],
     state=[("subscription key", "callback and id of the subscription"), ("node", "place in the subscription tree of one path")],
     observe="Update/Delta after Subscribe, Return/Error after Unsubscribe", technique="registration/removal pairing by symbolic keys and paths over all handler paths", note=PATHS)

prop("C06", "Waiting on a block ends with its own answer, error, timeout or stop",
     "A call, put or wait made through a context ends only when the answer to that very request arrived, and then gives its value or raises its error; otherwise it raises a timeout when its time limit (or event timeout) is reached, or an abort when the context was told to stop. "
     "Answers to other requests never conclude it and are not lost; a stop issued before the context was re-armed has no effect on later waits and one issued after always has. "
     "Waiting for a value ends exactly when the value matches or is one of the bad values, and leaves no subscription behind.",
     ["schedules", "histories", "fault_sequences"], "for every order in which responses, updates, stops and nested waits arrive",
     "Outcome depends on the order of arrival of responses, updates and stop requests, of which tests produce only a few.",
     ["malcolm/core/context.py", "malcolm/core/future.py", "malcolm/core/views.py", "malcolm/core/concurrency.py"],
     [("future registration", "Context._dispatch_request"), ("response servicing", "Context._service_futures"), ("stop markers", "Context.stop, Context.ignore_stops_before_now"), ("condition wait", "When")],
     state=[("outstanding futures", "request id to future not yet concluded")], observe="return or exception of Context calls", technique="future typestate over all paths of the context's public methods", note=PATHS)

prop("C07", "Every hooked part function runs once and its outcome is not lost",
     "When a block runs a hook, every part that registered for it has its function started exactly once with exactly the arguments it declares, under their own names, and the block goes on only when all of them finished. "
     "If one fails, the others are told to stop, waited for, and that failure is raised; if none fails nobody is stopped and each part's result is filed under that part. "
     "A spawned function always reports exactly one outcome, whatever it raises.",
     ["schedules", "fault_sequences", "configurations"], "for every set of parts, every order in which they finish and every one that fails",
     "The interleavings of hooked functions and the points at which one fails are not enumerable by tests.",
     ["malcolm/core/hook.py", "malcolm/core/controller.py", "malcolm/core/part.py", "malcolm/core/concurrency.py", "malcolm/modules/builtin/hooks.py", "malcolm/modules/scanning/hooks.py"],
     [("starting and collecting", "start_hooks, wait_hooks"), ("running one function", "Hook.__call__ / Hook._do"), ("spawned function", "Spawned")],
     state=[("started hooks", "hooks whose function was started and has not reported")], observe="calls of hooked part methods, exceptions of the controller method that ran the hook",
     technique="protocol typestate over hook start/report/collect paths plus name-flow of hook arguments into every hooked method", note=PATHS)

prop("C08", "A process starts, publishes, adds and stops its blocks in order",
     "A process can only be started when stopped and stopped when started, runs the start hook on every block before publishing any, starts and publishes blocks added later exactly as those present at the start, publishes each block once and never one that asked not to be, and one failing block does not keep the others from starting or stopping. "
     "Stopping ends only when every function it spawned finished (or reports the timeout) and leaves no block behind; two blocks, parts or fields of the same name are never silently merged.",
     ["histories", "fault_sequences"], "for every sequence of start, add, spawn and stop, and every failing block or spawned function",
     "Life-cycle errors need particular orders of add/start/stop and failures of particular blocks.",
     ["malcolm/core/process.py", "malcolm/core/part.py", "malcolm/core/controller.py"],
     [("life cycle", "Process.start/stop/add_controllers"), ("spawned functions", "Process.spawn"), ("field registry", "FieldRegistry"), ("part registry", "Controller.add_part")],
     state=[("state", "stopped, starting, started, stopping"), ("unpublished", "blocks that asked not to be published")],
     observe="ProcessStartHook/ProcessPublishHook/ProcessStopHook, mri_list", technique="life-cycle typestate and registry bookkeeping over all paths", note=PATHS)

prop("C09", "Block state only moves along its state machine, and sets what can be written",
     "The state of a stateful, manager or runnable block starts at Disabled and only ever changes along the transitions of its state machine (every state but Disabled can go to Fault and Disabling; Disabled is left only by Resetting); a transition that is not in it is refused and changes nothing. "
     "The state, its alarm, the health and the writeable flag of every field change together: a field that has a setter can be written exactly in the states it was declared writeable in (by default all but Disabling and Disabled), whether it was added before or after the transition, and a field without one never.",
     ["histories", "inputs", "configurations"], "for every sequence of transitions from any state and every set of fields, including fields added at run time",
     "The state machine has 17 states and hundreds of pairs, crossed with every field of every block; tests walk a few sequences.",
     ["malcolm/core/stateset.py", "malcolm/modules/builtin/util.py", "malcolm/modules/scanning/util.py", "malcolm/modules/builtin/controllers/statefulcontroller.py", "malcolm/modules/builtin/controllers/managercontroller.py", "malcolm/modules/scanning/controllers/runnablecontroller.py"],
     [("state tables", "StatefulStates, ManagerStates, RunnableStates"), ("transition", "StatefulController.transition"), ("writeable flags", "StatefulController.set_writeable_in, add_block_field")],
     state=[("state", "current state of the block"), ("writeable in", "states in which each field may be written")], observe="state, health and writeable of the block's fields",
     technique="abstract evaluation of the state-table constructors against the specified machine, plus guard and pairing dataflow over every path of the transition function", note=PATHS)

prop("C10", "A stateful operation ends in its end state or in Fault with its error",
     "Initialising, resetting, disabling, saving, loading, configuring, running, pausing and aborting a block first moves it to the state of that operation, does the work (running the stage's hook on every part), and returns only when the work was done and the block is in the operation's end state. "
     "If anything fails the caller gets that error and the block is in Fault with the error as its message; being aborted is not a fault and is passed on as such.",
     ["fault_sequences", "schedules"], "for every exception at every call of every operation, and for an abort at any point of it",
     "Tests fail one or two hooks of a couple of operations; they cannot fail each call of each operation.",
     ["malcolm/modules/builtin/controllers/statefulcontroller.py", "malcolm/modules/builtin/controllers/managercontroller.py", "malcolm/modules/scanning/controllers/runnablecontroller.py"],
     [("guarded operation", "StatefulController.try_stateful_function, go_to_error_state"), ("configure and run", "RunnableController.configure/run"), ("interrupting operation", "RunnableController.try_aborting_function")],
     state=[("state", "current state of the block")], observe="state and health of the block, return or exception of the operation",
     technique="transition typestate over all normal and exceptional paths of each operation", note=PATHS)

prop("C11", "Abort, pause and disable stop what runs, and every run gets one verdict",
     "Aborting or pausing moves the block and stops every part and the block itself in one locked step, then waits (without the lock and for a limited time) until an operation that was running has given way, and never when nothing was running; only then does it start its own work. "
     "An interrupted operation gives way exactly once per interruption and can not move the block on afterwards. A run that was paused waits for exactly one verdict: it goes on after resume and ends after abort, disable or a fault. "
     "Every configure starts with contexts and a verdict queue of its own, so a stop or verdict meant for an earlier scan can not reach it.",
     ["schedules", "fault_sequences", "histories"], "for every state the interruption arrives in, every exception of the interrupted and of the interrupting operation, and every order of pause, resume, abort and disable",
     "Interruptions are races: tests abort at a few convenient moments, not at each state and each failing call.",
     ["malcolm/modules/scanning/controllers/runnablecontroller.py", "malcolm/modules/builtin/controllers/statefulcontroller.py"],
     [("interrupting operation", "RunnableController.try_aborting_function"), ("guarded move", "RunnableController.abortable_transition"), ("verdict", "RunnableController.resume/abort/do_disable/go_to_error_state")],
     state=[("abort_queue", "told once when the interrupted operation gave way"), ("resume_queue", "verdict for a run that was interrupted"), ("part_contexts", "what the parts of the current scan wait with")],
     observe="state, return or exception of run, configure, pause, abort",
     technique="typestate of queues, contexts and lock over all normal and exceptional paths of each interrupting and interruptible operation, per original state", note=PATHS)

prop("C12", "A scan runs its stages in order and accounts for every step",
     "Configuring, running and pausing run the stages of a scan (validate, report status, configure, post configure, pre run, run, post run, pause, seek) in their documented order on every part, hand the information reported by one stage to the stages that need it, and give every part the validated parameters it asked for. "
     "The parts are told exactly the steps that the completed, configured and total step counters show: a run covers the steps from the completed to the configured ones, ends Armed while steps are left and Finished otherwise, a pause goes to the step asked for (kept within the scan and the run), progress shown is that of the slowest part and never goes back, and reset forgets the scan. "
     "Validation succeeds only when no part asks for a change any more, and every change asked for is checked against its parameter.",
     ["inputs", "histories"], "for every generator, breakpoint list, set of parts, tweak sequence and order of run, pause and resume",
     "Tests run a few generators with a few parts; off-by-one and ordering errors need particular breakpoints, seeks and reports.",
     ["malcolm/modules/scanning/controllers/runnablecontroller.py", "malcolm/modules/scanning/hooks.py"],
     [("stages", "RunnableController.do_configure/do_run/do_pause"), ("step accounting", "RunnableController.get_steps_per_run, get_breakpoint_index, update_completed_steps"), ("tweaks", "RunnableController.validate")],
     state=[("completed/configured/total steps", "counters shown"), ("breakpoint_index", "which run of the scan is configured")],
     observe="hook calls on parts, step counters and state of the block",
     technique="path-sensitive sequence and value-provenance analysis of the hook calls with linear normal forms for step counts", note=PATHS)

prop("C13", "A saved design restores what was saved, and modified shows any difference",
     "Saving a design writes the layout, the exports, the block's own config values and the config values of every child, hidden or not, that the block does not manage itself; loading a design reads back exactly what saving wrote, row by row, restores children in the order of their config iterations and only config values, and a design is marked clean only once all of it was written or restored. "
     "After that modified is true exactly while a visible child's config value, the visibility or the exports differ from what was last saved or loaded, is put back as soon as they agree again, and says what differs; values the block wrote itself raise no alarm. A bad or template design name writes no file.",
     ["inputs", "histories"], "for every set of children, layout, export table, config value and order of changes, saves and loads",
     "Tests save and load one or two designs; losing one column, one child or one change of a value needs a particular layout or history.",
     ["malcolm/modules/builtin/controllers/managercontroller.py", "malcolm/modules/builtin/parts/childpart.py"],
     [("save and load", "ManagerController.do_save, do_load, _mark_clean"), ("modified", "ManagerController.update_modified, ChildPart.send_modified_info_if_not_equal"), ("children", "ChildPart.on_save, on_load, update_part_exportable, update_part_modified")],
     state=[("saved_visibility, saved_exports", "what was last saved or loaded"), ("part_modified, modified_messages", "differences reported by the children"), ("saved_structure", "config values of a child last saved or loaded")],
     observe="the design file, values put to children, the modified attribute and its alarm",
     technique="value-provenance analysis of what is written against what is read back (key and column symmetry), and path-sensitive order of writing, restoring and marking clean", note=PATHS)

prop("C14", "A block shows its visible parts and exports, and an export stays its source",
     "The layout table shows for every part what that part reported, in rows that belong together; after a change of visibility, exports or exportable fields, the fields of the block are those of its parts that are not hidden plus the exports whose part is visible and still has the field, each under its own name; fields that went away are removed and no longer switched. "
     "An export shows the value of its source from the moment it appears, follows every later change including the source being removed or replaced, never saves the value twice, and putting or calling it puts or calls its source with the same values and result. Hiding a part cuts exactly the cables from and to it, and hidden parts take no part in hooks that are for visible parts.",
     ["inputs", "histories"], "for every set of parts, layout, export table, and order of changes in the children",
     "Tests use one child and one or two exports; removing, renaming and re-adding fields, or several parts, need a particular history.",
     ["malcolm/modules/builtin/controllers/managercontroller.py", "malcolm/modules/builtin/parts/childpart.py"],
     [("layout", "ManagerController.set_layout, ChildPart.on_layout, sever_sink_ports"), ("exports", "ManagerController.set_exports, update_exportable, _make_export_field"), ("fields", "ManagerController.update_block_endpoints, _get_current_part_fields, create_part_contexts")],
     state=[("_current_part_fields", "fields shown now"), ("_subscriptions", "subscriptions of the exports"), ("part_exportable, port_info", "what each child reported"), ("part_visibility", "what a child knows of the others")],
     observe="fields of the block and their values, the layout and exports attributes, values put to children",
     technique="column-by-column provenance of tables, path-sensitive follow-up analysis, and symbolic runs of the export's subscription callback over a first and a later change", note=PATHS)

prop("C15", "Every request from outside is dispatched once and answered",
     "A server (websocket, REST, pvAccess) hands every request it receives to the block it names exactly once, with a callback set, or answers it with an error carrying the id of the request (-1 if there was none); it never does both, never neither, and receiving a request never fails the server. "
     "A client that is on none of the server's subnets can read but neither put nor post over the websocket. A subscription id is used by one subscription at a time, is free again after it was refused or ended, and ending it reaches the block it was made on; the subscriptions of a client that is gone are ended with the next update. "
     "REST and pvAccess answer with the value returned or with the error; pvAccess changes one field per put, offers one channel per published block and field, shows clients every change or disconnects them when the structure changed, and disconnects the clients of a block that is no longer published.",
     ["inputs", "fault_sequences", "histories"], "for every message a client can send, every call that fails while it is handled, and every order of subscribing, updates, unsubscribing and disconnecting",
     "Tests send a few well formed messages; malformed ones, failing dispatch, dying clients and reused ids are histories they do not reach.",
     ["malcolm/modules/web/parts/websocketserverpart.py", "malcolm/modules/web/parts/restfulserverpart.py", "malcolm/modules/web/controllers/httpservercomms.py", "malcolm/modules/pva/controllers/pvaservercomms.py"],
     [("websocket", "MalcWebSocketHandler.on_message, on_response, _on_response"), ("REST", "RestfulHandler.get, post, handle_response"), ("dispatch", "HTTPServerComms.update_request_received"), ("pvAccess", "BlockHandler.put, rpc, handle, onFirstConnect, onLastDisconnect; PvaServerComms.testChannel, _make_channel, publish")],
     state=[("_id_to_mri", "block of each subscription id of a client"), ("_writeable", "may this client put and post"), ("put_paths, value", "what a pvAccess client sees and may put")],
     observe="responses sent to the client, requests handled by the block",
     technique="path enumeration with every call allowed to fail: count of dispatch and answer per path, provenance of id, path and value, symbolic runs of the response closures", note=PATHS)

prop("C16", "A proxy block mirrors its remote block, and its requests always conclude",
     "Every request a client sends has an id no other outstanding request has and is known before it is sent; it concludes with the answer of the server (a return gives its value, an error is raised as such), or with an error when it could not be sent or the server went away, and then every outstanding request does, even if the callback of another one fails. Asking starts only after this connection was made. "
     "A proxied block is rebuilt from the first change after each connection with nothing left over and nothing left out, every later change is applied to exactly the field, part of a field, table column or element it is for (with its alarm and time stamp), and a lost pvAccess connection is shown in its health. "
     "Every change a model can announce can be applied to its mirror. A put or post on a proxy is a put or post of the same values to the same field of the remote block.",
     ["inputs", "fault_sequences", "histories"], "for every change a block can announce, every failing send, and every order of answers, disconnections and reconnections",
     "Tests mirror one or two simple blocks over an unbroken connection; table columns, element metadata, several outstanding requests and reconnecting are not reached.",
     ["malcolm/modules/web/controllers/websocketclientcomms.py", "malcolm/modules/pva/controllers/pvaclientcomms.py", "malcolm/modules/builtin/controllers/proxycontroller.py", "malcolm/core/models.py"],
     [("outstanding requests", "WebsocketClientComms._send_request, on_message, _report_fault"), ("connection", "WebsocketClientComms._start_client, recv_loop"), ("mirror", "WebsocketClientComms.sync_proxy, _handle_change, _regenerate_block; PvaClientComms.sync_proxy, _update_block"), ("applying changes", "Model.apply_change, AttributeModel.apply_change, NTTable.apply_change, set_* of every model"), ("proxy", "ProxyController.init, get_put_function, get_post_function")],
     state=[("_request_lookup", "outstanding requests by id"), ("_conn, _connected_queue", "connection"), ("update_fields", "fields followed of a pvAccess block")],
     observe="return or exception of puts and posts, fields of the proxied block",
     technique="typestate of outstanding requests over all normal and exceptional paths, provenance of mirrored values, and abstract evaluation of apply_change on every path shape that models announce", note=PATHS)

prop("C17", "Attributes, arguments and tables only hold values their metadata allows",
     "Whatever is put or passed, an attribute or argument only ever holds a value its metadata allows: a bool; a single number cast to the declared type; a string; one of the choices offered now (given by value, enum or index; None is the default); an array of the declared element type in which every element was checked; a table with exactly the declared columns, each validated by its own metadata and all equally long. Anything else is refused. "
     "Methods accept only declared parameters with the required ones present, each validated by its own metadata, defaults included. Fields of models hold the type they declare, and tables check every column and row given. Metadata made from a Python type, table class or callable describes it: type, description, choices, columns, which arguments are required, and their defaults.",
     ["inputs"], "for every value of every type that can be put, passed or set, and every sequence of changes to the metadata",
     "Tests validate a few typical values per kind of metadata; values of unexpected types, mixed arrays and changed choices are not sampled.",
     ["malcolm/core/models.py", "malcolm/core/table.py"],
     [("values", "VMeta.validate of each kind of metadata"), ("choices", "ChoiceMeta.set_choices"), ("arguments", "MethodMeta.validate, MapMeta.validate, MethodModel.set_took/set_returned"), ("model fields", "Model.set_endpoint_data and the set_* functions"), ("derivation", "VMeta.from_annotype, TableMeta.from_table, MethodMeta.from_callable"), ("tables", "Table.validate_column_lengths, __setitem__, from_rows")],
     state=[("choices_lookup, _np_type, table_cls, _annotype_lookup", "tables derived from the metadata")],
     observe="value of the attribute, or the exception raised by the put, post or constructor",
     technique="path-sensitive type-state inference of what each validate returns (facts tested on the path and casts applied), completeness of loops over elements and columns, provenance of derived lookup tables", note=PATHS)

prop("C18", "An attribute backed by an EPICS PV shows the PV and puts to it",
     "Every value that arrives from a PV (on connecting, after a put, or from its monitor) becomes the attribute's validated value with the PV's alarm severity and time stamp, at once and none skipped; while a PV is disconnected the attribute keeps its value and shows a disconnected alarm, and a table of PVs does so while any of its PVs is. "
     "Initialising or resetting a block releases the old monitor, reads the readback PV (and the demand PV, if another), fails if one is not connected (unless told not to), takes choices or display limits from a connected PV and then monitors the readback; disabling closes every monitor. "
     "Only an attribute with a demand PV can be put to: the put goes to that PV in the PV's own representation (index of the choice, number for a bool), is waited for, and the readback is read afterwards. An action puts its value and succeeds only if the status PV shows the good status in time; its monitor is always closed. Each kind of part pairs its metadata with a suitable data type and passes on every option it was given.",
     ["inputs", "fault_sequences", "histories"], "for every value, severity and connection state of the PVs, every order of monitor updates, puts, resets and disconnections",
     "Tests run the parts against a mocked channel access with one update each; disconnection, alarms that clear, several PVs and repeated resets are not reached.",
     ["malcolm/modules/ca/util.py", "malcolm/modules/ca/parts/caactionpart.py", "malcolm/modules/ca/parts/cachoicepart.py", "malcolm/modules/system/parts/dirparsepart.py"],
     [("updates", "CABase._update_value, _monitor_callback"), ("connection", "CAAttribute.reconnect, WaveformTableAttribute.reconnect, CABase.disconnect, assert_connected"), ("puts", "CAAttribute.caput, CABase.setup"), ("actions", "CAActionPart.caput, wait_for_good_status, reconnect"), ("parts", "CABooleanPart, CAChoicePart, CADoublePart, CALongPart, CAStringPart, array and table parts, DirParsePart, IocIconPart")],
     state=[("monitor", "subscription to the readback PV"), ("_local_value", "last value of each PV of a table")],
     observe="value, alarm and time stamp of the attribute; what is put to PVs; success of an action",
     technique="path-sensitive value provenance and ordering of channel access calls, resource (monitor) release on normal and exceptional paths, argument pairing of every part", note=PATHS)
prop("C19", "A PandA's fields are shown as the box reports them and put as given",
     "Each response of the box, whether one line, several lines or an error and however it is split into packets, goes to the request it answers, in the order sent; a wait for one ends in its timeout, and an error response raises. "
     "Each line of a changes poll is reported with its field and whole value (a table with the words fetched for it), and every change reaches the block and field it names: fields, labels, health, links of muxes, icons, and the rows of the bits and positions tables (scaled with the scale and offset in force), with one time stamp per poll. "
     "A bit that changed and changed back within a poll, or again in the next, is shown as a pulse and set to what the box last said afterwards. "
     "A put is sent once with the value given (a boolean as a number, a capture by its name), succeeds only if the box says OK, is shown only then, and its echo hides no other change; puts to the bits and positions tables send exactly the columns whose rows differ. "
     "Tables are packed as they are unpacked: each column in its word, at its shift, under its mask, at full width. Polling goes on until stopped or failed (which shows as a fault); reset starts it again.",
     ["inputs", "histories", "fault_sequences"], "for every sequence of lines and packets from the box, every set of changes in a poll, every put and every column layout of a table",
     "Tests play a fixed exchange with a mocked socket or client and a few changes; packet boundaries, several changes in one poll, errors between responses and table layouts are sampled.",
     ["malcolm/modules/pandablocks/pandablocksclient.py", "malcolm/modules/pandablocks/controllers/pandamanagercontroller.py", "malcolm/modules/pandablocks/controllers/pandablockcontroller.py", "malcolm/modules/pandablocks/parts/pandafieldpart.py", "malcolm/modules/pandablocks/parts/pandatablepart.py", "malcolm/modules/pandablocks/parts/pandabussespart.py", "malcolm/modules/pandablocks/parts/pandalabelpart.py", "malcolm/modules/pandablocks/parts/pandaactionpart.py"],
     [("responses", "PandABlocksClient.send, recv, _send_loop, _get_lines, _recv_loop, _respond"), ("puts", "PandABlocksClient.set_fields, set_table; set_field of the field, table, label and action parts; PandABussesPart.set_bits, set_positions, get_column_changes"), ("changes", "PandABlocksClient.get_changes, PandAManagerController.handle_changes, PandABlockController.handle_changes, PandABussesPart.handle_changes"), ("tables", "PandATablePart.list_from_table, table_from_list"), ("polling", "PandAManagerController._poll_loop, start_poll_loop, stop_poll_loop")],
     state=[("_response_queues", "requests whose response is awaited, in order"), ("_bit_outs, _bit_out_changes", "bits as shown, and what they are set to in the next poll"), ("pending_change", "an echo of a put is expected")],
     observe="values, alarms and time stamps of the attributes; what is sent to the box; results of puts",
     technique="path-sensitive value provenance over bounded sequences of lines and changes, obligations on every response, change and put path", note=PATHS)

"""Writes /verif/properties.jsonl. Keeps the properties readable and diffable."""
import json, pathlib

P = []
MQ = "src/ansibug/_mp_queue.py"; SH = "src/ansibug/_socket_helper.py"; DE = "src/ansibug/_debuggee.py"
DA = "src/ansibug/_debug_adapter.py"; AD = "src/ansibug/dap/_adapter.py"; ME = "src/ansibug/dap/_messages.py"
RQ = "src/ansibug/dap/_requests.py"; RS = "src/ansibug/dap/_responses.py"; EV = "src/ansibug/dap/_events.py"
TY = "src/ansibug/dap/_types.py"; EX = "src/ansibug/_exec_playbook.py"; MA = "src/ansibug/__main__.py"; TL = "src/ansibug/_tls.py"
PL = "src/ansibug/ansible_collections/ansibug/dap/plugins/"
ST = PL + "strategy/debug.py"; CB = PL + "callback/debug.py"; BP = PL + "plugin_utils/_breakpoints.py"
RU = PL + "plugin_utils/_repl_util.py"


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "DAP messages are framed exactly, whatever the content and stream splits",
     "Each message the adapter sends is one frame whose declared Content-Length is the byte length of its JSON body, sent whole and in the order it was queued. "
     "Bytes received are decoded to exactly the messages they contain, however the stream is split: an incomplete frame yields nothing and consumes nothing, a complete one consumes exactly its own bytes.",
     ["inputs", "histories"], "every message content, every split of the incoming byte stream, every partial drain of the outgoing buffer",
     "The tests feed whole frames with ASCII content; off-by-one slices, partial bodies and multi-byte text are an unbounded input space.",
     [AD, DA], [("DebugAdapterConnection.next_message/queue_msg/data_to_send/receive_data", AD), ("DAServer.start", DA)],
     ["bytes on stdout", "messages returned by the adapter connection"],
     [("_in_buffer", "bytes received and not yet decoded", AD), ("_out_buffer", "bytes queued and not yet sent", AD)])

prop("C02", "DAP sequence numbers are consecutive in both directions",
     "Messages sent to the client are numbered 1, 2, 3, ... in the order they are framed, each message carrying its own number, which is what the sender is told. "
     "A message from the client whose number is not the next expected one is rejected, an expected one is accepted.",
     ["histories", "inputs"], "every sequence of sent and received messages",
     "A test checks a handful of messages; a skipped or repeated number needs a particular history.",
     [AD], [("sequence counters", AD)], ["seq of every frame"], [("seq counters", "next number in and out", AD)])

prop("C03", "Every DAP type uses the protocol's wire names and loses no field",
     "Each DAP message and type reads and writes every one of its fields under the key the Debug Adapter Protocol gives it, in arguments for requests and body for responses and events, and no two fields share a key. "
     "Command, event and other enumerated values use the protocol's strings, and every command's request and response carry that command.",
     ["inputs"], "every message type and every field of it",
     "There are about 70 types with more than 300 fields, the tests build a few of them and mostly with a client that shares the same tables, so a wrong key cancels out.",
     [ME, RQ, RS, EV, TY], [("dap= mapping of each class", RQ), ("Command/EventType enums", ME)], ["JSON on stdin and stdout"])

prop("C04", "Packing and unpacking of DAP messages is lossless and type directed",
     "Packing writes the value of every mapped field at its mapped place and unpacking sets every mapped field that is present and not null, converting nested objects and enumerations, single or in a list, to their declared type. "
     "An incoming message becomes an object of the type its type and command/event name, an unsuccessful response always becomes an error response, and unknown names are rejected.",
     ["inputs"], "every message content the protocol allows",
     "The codec is generic over all types; the tests exercise some of the shapes.",
     [ME, RQ, RS], [("DAPObjectMeta.default_pack/default_unpack", ME), ("ProtocolMessage.unpack", ME)], ["objects produced from JSON", "JSON produced from objects"])

prop("C05", "The adapter to debuggee channel delivers each message once, whole, in order",
     "A message sent by one end of the adapter/debuggee connection is delivered to the other end exactly once, complete and in the order sent, however the transport splits or merges the bytes. "
     "The two ends agree on the frame format, which can express the size of any message below 4 GiB, and a connection that ends part way through a frame never delivers a message from it.",
     ["inputs", "schedules"], "every message size and every split of the byte stream, end of stream at every byte",
     "Tests on loopback see whole small frames; short reads and writes depend on kernel buffering.",
     [MQ, SH], [("MPQueue.send/_recv_handler", MQ), ("SocketHelper.recv/send", SH)], ["on_msg_received calls"])

prop("C06", "The end of a connection is reported exactly once",
     "However a connection ends (end of stream, cancellation, socket, decode or handler error) its owner is told exactly once, after the last delivered message, with the error if there was one and with none for an orderly end.",
     ["fault_sequences", "schedules"], "every way the receiving loop can end, at any message",
     "The tests see end of stream and one or two faults, never a fault at each step.",
     [MQ], [("MPQueue._recv_handler", MQ)], ["connection_closed calls"])

prop("C07", "Cancellation reaches every blocking socket operation",
     "Once a connection is cancelled, every blocking socket operation in progress on it is interrupted and none started later begins; one that was interrupted reports the cancellation, and the others are still interrupted when interrupting one of them fails. "
     "An operation that has finished is no longer affected by a cancellation.",
     ["schedules", "fault_sequences"], "every interleaving of cancel with accept, connect, TLS handshake, receive and send",
     "The tests cancel each operation once, when it is already blocking, on one platform.",
     [SH, MQ], [("SocketCancellationToken", SH)], ["CancelledError", "stop() returning"], [("_cancel_funcs", "operations in progress", SH)])

prop("C08", "No two threads can wait for each other forever",
     "Locks are always taken in one global order and no thread blocks on a socket, a queue, another thread or another condition while it holds a lock. "
     "A thread is never made to wait for its own end: ending a connection from its own receiving thread joins neither that thread nor one that is waiting for it.",
     ["schedules"], "every interleaving of the playbook, send, receive and stdin threads",
     "A deadlock needs one particular interleaving; the tests run the common one.",
     [DE, DA, MQ, SH, ST], [("locks and conditions", DE), ("connection_closed -> shutdown/stop", DE)], ["process hang"])

prop("C09", "The debuggee answers every request exactly once with the matching response",
     "Each request the debuggee processes is answered by exactly one response, of the request's own type and naming its sequence number, or by one error response naming its command and sequence number when it cannot be processed. "
     "A failing or unsupported request never ends the connection and never leaves the request unanswered; a disconnect is answered by the adapter instead.",
     ["inputs", "fault_sequences"], "every request type, valid or not, and every exception while processing it",
     "Each handler has a few cases in the tests; errors are provoked for almost none.",
     [DE, ST], [("AnsibleDebugger.process_message", DE), ("DAProtocol.on_msg_received", DE)], ["responses sent to the client"])

prop("C10", "The adapter relays every message once and fails outstanding requests",
     "While connected to a debuggee each request of the client is relayed to it exactly once, unchanged, and each message of the debuggee is relayed to the client exactly once; before that each message is processed by the adapter itself. "
     "A request stays outstanding until its response is sent, and when the adapter stops because of an error each outstanding request gets an error response naming its command and sequence number.",
     ["histories", "fault_sequences"], "every client message history, an error at any point of it",
     "Tests follow the usual launch and attach dialogues; failures in the middle of others are not covered.",
     [DA], [("DAServer.start/send_to_client/stop", DA), ("DAProtocol.on_msg_received", DA)], ["client stream", "debuggee connection"],
     [("_incoming_requests", "requests without a response", DA)])

prop("C11", "A debug session ends once, in order, and the adapter then exits",
     "When the session ends, for any reason and from whichever side, a pending disconnect request is answered before the terminated event and the client is sent exactly one terminated event. "
     "Ending closes the debuggee and launch connections, and the adapter stops reading after a disconnect request is relayed or its input is closed.",
     ["schedules", "fault_sequences", "histories"], "disconnect, debuggee exit, errors and end of input in every order and overlap",
     "Two threads race to end the session; tests see one order.",
     [DA], [("DAServer.stop/_send_disconnect/start", DA)], ["client stream", "adapter exit"], [("_terminated_sent", "terminated event was sent", DA)])

prop("C12", "Only whole, serialised DAP frames are ever written to the adapter's stdout",
     "Messages to the client are numbered, framed and written as one indivisible step even when several threads send at once, and every frame is flushed. Nothing else in the adapter process writes to its standard output.",
     ["schedules"], "every interleaving of the threads that send to the client",
     "Interleaved frames need two sends in the same instant.",
     [DA, AD], [("DAServer.send_to_client", DA)], ["bytes on stdout"])

prop("C13", "A stopped host stays stopped until a resume for it, and never misses one",
     "When a stop is reported for a host its playbook does not go on before a resume (continue, a step or a disconnect) that covers this host is processed, and then always does, with the requested way of going on in effect. "
     "The report and the waiting state are set as one step with respect to resumes, so one sent immediately after the report is never lost, and a resume of one host alone does not release another.",
     ["schedules"], "every interleaving of the stop with resume, step, terminate and disconnect requests",
     "A lost wakeup needs the resume inside a window of microseconds.",
     [ST], [("AnsibleDebugState.start_task/end_task", ST), ("_resume_threads, continue_request, step_*, disconnect", ST)], ["stopped events", "playbook progress"],
     [("state", "what the host is doing or asked to do", ST)])

prop("C14", "The debugger sees every task before it runs and every result after",
     "Every task and meta task of every host is presented to the debugger, with that host, task and its variables, before it is started, and is started unchanged afterwards unless the debugger ends the play. "
     "Every task result is presented to the debugger exactly once, included files are scanned for breakpoints before their tasks run, and what Ansible's own strategy returns is returned unchanged.",
     ["programs", "inputs"], "every playbook",
     "The tests run a few dozen playbooks.",
     [ST], [("StrategyModule overrides", ST)], ["order of debugger hooks and task execution"])

prop("C15", "A playbook never stops again once its client is gone",
     "After the client has disconnected without terminating, or the connection is lost, or the debuggee shuts down, every stopped host resumes and no breakpoint, exception filter or step makes the playbook stop again. "
     "All reasons to stop are removed before the hosts are resumed.",
     ["schedules", "histories"], "disconnect or connection loss at any point of any session",
     "Tests disconnect at one or two points and the remaining tasks have nothing to stop at.",
     [DE, ST], [("AnsibleDebugger._disconnect/shutdown", DE), ("AnsibleDebugState.disconnect", ST)], ["playbook runs to its end"])

prop("C16", "A request to terminate ends the playbook before its next task",
     "Once the client has asked to terminate, by a terminate request or a disconnect that asks for it, no further task is started on any host and the play ends as failed, whether the playbook was stopped, running or between plays. Nothing that follows, like the connection closing, can revert it.",
     ["schedules", "histories"], "terminate at any point of a session, any number of hosts",
     "Tests terminate a playbook stopped at a breakpoint.",
     [DE, ST], [("TerminateRequest handler, _disconnect, shutdown", DE), ("start_task/end_task/run", ST)], ["tasks run after the request", "exit code"])

prop("C17", "Thread started and exited events pair up with the known threads",
     "Each host thread is announced by exactly one started event carrying its id when it becomes known and by one exited event when it is no longer known; the main thread (1) is always known and never announced. "
     "All host threads have exited when a play ends for whatever reason and after the inventory is refreshed, and each host has at most one thread.",
     ["programs", "fault_sequences"], "every playbook and every way a play ends",
     "Tests check the events of a few playbooks that end normally.",
     [ST], [("_add_thread/exit_threads/run/_execute_meta", ST)], ["thread events", "threads response"], [("threads", "known threads by id", ST)])

prop("C18", "Debugger object ids are never reused",
     "Every thread, stack frame, variable and breakpoint gets an id that was never given out before in the debug session, across hosts, plays and requests, and the id given to the client is the one the object is found by.",
     ["histories"], "every session history",
     "Id reuse shows only after particular histories, such as across plays.",
     [DE, ST], [("next_thread_id/next_stackframe_id/next_variable_id", DE), ("_breakpoint_counter", DE)], ["ids in events and responses"])

prop("C19", "Stack frames follow the include nesting and free their variables",
     "While a host runs a task its stack is that task's frame on top of the frames of the includes it is in, innermost first, and a frame is removed when its task ends or its include is left, and those a host still has go with its thread when that exits. "
     "A frame's variables exist exactly as long as it does: removing a frame removes all of its variables and nothing else.",
     ["programs", "histories"], "every nesting of includes, roles and blocks",
     "Tests use single and double nesting.",
     [ST], [("start_task/end_task/_add_variable", ST)], ["stackTrace and variables responses"])

prop("C20", "Setting breakpoints replaces that source's breakpoints and answers each one",
     "A set breakpoints request is answered with one breakpoint per requested one, in request order, each with a new id, and from then on exactly these are in effect for that source while those of all other sources are untouched. "
     "Breakpoints for a source the client says is modified are answered unverified and never take effect; those of a file that is not loaded yet are kept until it is.",
     ["histories", "inputs"], "every sequence of set breakpoints requests over any sources",
     "Tests set breakpoints once or twice per source.",
     [DE], [("SetBreakpointsRequest handler", DE)], ["setBreakpoints responses", "stops"])

prop("C21", "A line breakpoint stops exactly the tasks it covers when its condition holds",
     "A task stops at a line breakpoint if and only if the breakpoint is for the task's file, its lines (both ends included) cover the task's line, its condition, if any, holds with the task's variables, and the host is not stepping out. "
     "A condition that fails to evaluate, for any reason, counts as not met and never disturbs the play, and the reported stop names the breakpoint and the host's thread.",
     ["inputs", "programs"], "every breakpoint, task and condition",
     "The tests use a few lines and conditions.",
     [DE, ST], [("get_breakpoint", DE), ("start_task, should_break", ST)], ["stopped events"])

prop("C22", "Breakpoint locations cover every task and changes are reported",
     "Every task of every play, role, handler section and included file, at any depth of block, rescue and always sections, is registered as a location a breakpoint can stop at, explicit blocks as one it cannot, before it can run. "
     "When new locations change the resolution of a breakpoint of that file the client is sent one changed event with the new resolution, and none when nothing changed.",
     ["programs"], "every playbook structure",
     "Tests use a few structures.",
     [DE, BP, ST, CB], [("register_path_breakpoint", DE), ("register_block_breakpoints/register_play_breakpoints", BP)], ["breakpoint events", "verified flags"])

prop("C23", "Path mappings are applied both ways to everything that names a file",
     "A source path from the client is translated by the first mapping whose local root starts it before it is compared with Ansible's paths, and every path sent to the client is translated by the first mapping whose remote root starts it; only the root is replaced, and a path no mapping covers is used as it is. "
     "The client's own spelling of the source is kept in breakpoint answers.",
     ["inputs", "configurations"], "every path and list of mappings",
     "Tests use one mapping.",
     [DE, DA, ST], [("SetBreakpointsRequest handler, convert_to_client_path", DE), ("AnsibleStackFrame.to_dap", ST), ("from_json of launch and attach arguments", DA)], ["stackTrace paths", "breakpoint hits"])

prop("C24", "Exception filters stop exactly on the failures they describe",
     "A failed result stops if and only if the failed filter is on, the task does not ignore errors and no enclosing block has a rescue section; an unreachable one if and only if the unreachable filter is on and the task does not ignore it; a skipped one if and only if the skipped filter is on. "
     "The filters in effect are exactly those of the last set exception breakpoints request, and the stop names the host's thread and exposes the result.",
     ["inputs", "programs", "configurations"], "every result, nesting and filter combination",
     "The combinations of flags and nesting are too many for the tests.",
     [ST, DE], [("should_stop_on_exception, end_task", ST), ("SetExceptionBreakpointsRequest handler, should_stop_on_*", DE)], ["stopped events"])

prop("C25", "Each kind of step stops at the task it promises",
     "Step in stops at the next task of the host if it was stopped at an include and otherwise acts as step over; step over stops at the next task with the same parent include or play level; step out ignores breakpoints and stops at the next task outside the include. "
     "A continue stops only at breakpoints, and each stop reports its reason and the host's own thread and becomes the starting point of the next step.",
     ["programs", "histories"], "every playbook nesting and sequence of steps",
     "Tests step through a few playbooks.",
     [ST], [("AnsibleThread.set_state/should_break", ST)], ["stopped events"])

prop("C26", "Looking at a stopped playbook does not change it",
     "Threads, stack trace, scopes and variables requests and the evaluation of plain expressions change no variable, task argument, host state or breakpoint of the playbook, do not resume any host and do not invalidate frames or variables known to the client.",
     ["histories", "inputs"], "every sequence of inspection requests",
     "A side effect shows only in later behaviour the tests do not look at.",
     [ST], [("get_threads/get_stacktrace/get_scopes/get_variables/evaluate", ST)], ["playbook behaviour"])

prop("C27", "An edited variable reaches the data the playbook uses",
     "Setting a variable or option stores the templated new value, as the item shown with the given name (a new one when there is none), in the very container shown to the client and also in the data it was derived from: the task's own arguments for module options, the persistent host variables for a host variable. "
     "The set hostvar command changes the task's variables too, and removing an option removes it from both.",
     ["inputs", "histories"], "every variable, nesting and value",
     "Tests edit a few variables.",
     [ST], [("AnsibleVariable subclasses, set_variable, evaluate", ST)], ["values used by the task and later tasks"])

prop("C28", "Variable listings are complete and can be expanded",
     "The variables of a scope or container are listed with one entry per element, each with its own name, type and representation; an entry can be expanded if and only if it is a mapping, a non-text sequence or a dataclass instance, then showing exactly its content with matching counts, and all others have no reference.",
     ["inputs"], "every variable content",
     "Tests list a few structures.",
     [ST], [("get_variables, get_scopes, AnsibleListVariable, AnsibleDictVariable", ST)], ["scopes and variables responses"])

prop("C29", "Debug console commands do what they say and only with a frame",
     "A console line starting with ! is parsed as a command (and its short alias) with everything after the name taken verbatim as the expression; each command acts on the frame it was entered for and only as documented. "
     "A line that does not parse changes nothing and returns the parser's message instead of ending anything, and other lines are evaluated as expressions.",
     ["inputs"], "every console line",
     "Tests run some lines.",
     [ST, RU], [("evaluate", ST), ("parse_repl_args", RU)], ["evaluate responses"])

prop("C30", "The launch script runs exactly the requested playbook and cleans up",
     "The script created for a launch starts the adapter's own Python with ansibug in connect mode on the adapter's socket, passing its arguments through unchanged, with every embedded value quoted for the shell. "
     "It is only accessible by its owner, complete before the client is asked to run it, deletes itself before the playbook starts and reports its end to the adapter on every exit.",
     ["inputs", "configurations"], "every path, argument, log setting and exit of the script",
     "Tests use simple paths.",
     [DA], [("LaunchRequest handler", DA)], ["launch script", "runInTerminal request"])

prop("C31", "Launch and attach complete only with a working, configured connection",
     "A launch or attach request is answered successfully only after the debuggee connection is established, and is followed by exactly one configuration message with the request's path mappings; the debuggee stores it before it reports that it is initialised, and reports that only then. "
     "A launched process that ends before it connects ends the session instead of waiting out the timeout.",
     ["schedules", "fault_sequences"], "every order of connection, process exit and messages",
     "Tests see the orders that happen in practice on one machine.",
     [DA, DE, MQ], [("AttachRequest, LaunchRequest, RunInTerminalResponse handlers", DA), ("OutputEvent handler", DE), ("ServerMPQueue.start cancel_queue", MQ)], ["client stream"])

prop("C32", "Every command line option reaches the component it configures",
     "Each option of the command line has the effect its help describes: its value reaches, unchanged apart from path expansion, the setting of the debuggee it names, under the name and in the format the Ansible plugin reads, and the playbook arguments are passed on verbatim and in order.",
     ["configurations", "inputs"], "every combination of options",
     "Tests use a few option combinations and most of the plumbing runs in a replaced process.",
     [MA, EX, CB], [("parse_args/main", MA), ("_exec_playbook", EX), ("option documentation and v2_playbook_on_start", CB)], ["environment and arguments of ansible-playbook"])

prop("C33", "The user's Ansible configuration is kept",
     "The playbook is run with the user's environment, and callbacks, collection paths and Python path that were configured stay in effect after ansibug's own, which come first; nothing else of the configuration is changed except the strategy.",
     ["configurations"], "every existing configuration",
     "Tests use one existing configuration.",
     [EX], [("_configure_ansible_env/_exec_playbook", EX)], ["environment of ansible-playbook"])

prop("C34", "TLS peers are verified unless the user explicitly asked otherwise",
     "A client connection verifies the server's certificate and host name in every configuration other than the explicit ignore setting, which connects without verification; a custom CA location adds trust and never removes verification, and a location that does not exist is an error. "
     "A listener with a client CA requires a certificate from its clients, and given certificates, keys and passwords are the ones used.",
     ["configurations"], "every combination of the TLS settings",
     "The settings that must be refused are many; a weakened check passes every positive test.",
     [TL, DA, CB], [("create_client_tls_context/create_server_tls_context", TL)], ["accepted and refused connections"])

prop("C35", "With TLS configured nothing is exchanged before a verified handshake",
     "When TLS is configured for a connection, no message is sent, received or decoded on it before the handshake has succeeded, on either end, and all later data goes through the encrypted connection; the host name that is verified is the one connected to. "
     "A client that fails the handshake is dropped without ending the listener.",
     ["fault_sequences", "schedules"], "every peer behaviour during connection setup",
     "Tests check successful connections and one or two refusals.",
     [MQ, SH, DA, CB], [("ClientMPQueue.start/ServerMPQueue.start", MQ), ("SocketHelper.wrap_tls", SH)], ["bytes exchanged before the handshake"])

prop("C36", "Unix sockets are only accessible by the user from the moment they exist",
     "A Unix domain socket is created with its restricted permissions already in place when it becomes visible in the file system, never widened afterwards, and the process umask is what it was before once the socket is created or its creation failed.",
     ["fault_sequences", "schedules"], "every failure during creation and every moment another process may look",
     "The window between creation and a later chmod is not observable in a test.",
     [SH, MQ], [("create_uds_with_mask", SH), ("ServerMPQueue.__init__", MQ)], ["mode of the socket file"])

prop("C37", "Process information and socket files appear when usable and are removed",
     "The process information file of a listening debuggee appears only once its socket accepts connections, holds the real address, TLS setting and playbook under the names the readers use, and is removed when the debuggee shuts down. "
     "A socket file created for a listener is removed when it stops, and the reader finds the file by the same rule as the writer.",
     ["crash_points", "configurations"], "every way a listener ends",
     "Tests check the file of a playbook that ends normally.",
     [DE, DA, MQ], [("AnsibleDebugger.start/shutdown, PlaybookProcessInfo", DE), ("AttachArguments.get_connection_tuple", DA), ("ServerMPQueue.stop", MQ)], ["files in the temporary directory"])

prop("C38", "A playbook waits for its client only while one can still come",
     "Unless told not to wait, the playbook starts no play before the client's configuration is done; the wait always ends once the configuration is done, the connection fails or is lost, or the debuggee shuts down. "
     "No request, in whatever order the client sends them, can keep the wait or the shutdown from ending.",
     ["schedules", "fault_sequences"], "every order of connection, configuration, failure and shutdown",
     "Tests connect and configure successfully.",
     [DE, CB], [("wait_for_config_done, _send_task, shutdown, _get_strategy", DE), ("v2_playbook_on_start", CB)], ["playbook start and exit"])

prop("C39", "Debugger state shared by threads is only changed safely",
     "State that one thread changes while another uses it is never iterated or updated in a way that the other thread can corrupt or make fail: collections are iterated on a snapshot or under the lock that guards their changes, and compound changes of a host's state and of breakpoints happen under their lock.",
     ["schedules"], "every interleaving of the playbook thread with the request thread",
     "Needs a change in the middle of an iteration.",
     [DE, ST, DA], [("_waiting_condition, _strategy_connected, _breakpoint_lock", DE)], ["exceptions in a session", "lost breakpoint updates"])

prop("C40", "Announced capabilities and filters are exactly what is implemented",
     "Every capability and exception filter the adapter announces is implemented by the debuggee under the same identifier, and none is announced that it would refuse; capabilities that are not announced stay off.",
     ["configurations"], "every announced capability",
     "The announcing and the implementing sides are in different processes and tables.",
     [DA, DE, ST, TY], [("InitializeRequest handler", DA), ("process_message handlers", DE)], ["initialize response"])

prop("C41", "Connecting to a debuggee takes no longer than the connect timeout",
     "Every wait for the peer while a launch or attach is set up (for the connection, the handshake and the confirmation that the peer is ready) is bounded by the connect timeout of the request, 5 seconds unless given, and when it expires the request fails with an error.",
     ["fault_sequences", "schedules"], "peers that stop responding at any point of the connection setup",
     "Tests use peers that respond or are absent.",
     [DA, MQ, SH], [("AttachArguments, LaunchArguments", DA), ("ClientMPQueue.start, ServerMPQueue.start", MQ), ("SocketCancellationToken", SH)], ["time until the response"])

prop("C42", "The debuggee process ends with its playbook",
     "However the playbook ends (finished, failed, aborted or interrupted) the debugger's threads do not keep the process running: the shutdown is always reached, what was queued before it is still sent, and its own threads never keep it alive.",
     ["fault_sequences"], "every way a playbook ends",
     "Tests run playbooks that finish or fail in the usual way.",
     [DE, MQ, CB], [("start/shutdown/_send_task", DE), ("MPQueue.start", MQ), ("v2_playbook_on_stats", CB)], ["process exit"])

prop("C43", "Addresses that are displayed or stored can be used to connect",
     "The address a listener reports, for TCP over IPv4 or IPv6 and for Unix sockets, is accepted back by the address parser as the same kind of address with the same host, port or path, and every documented form of an address is accepted with its documented meaning and others are refused.",
     ["inputs", "configurations"], "every address form",
     "Tests parse a list of examples and never the printed ones of each family.",
     [SH, MQ], [("parse_addr_string", SH), ("MPQueue.address", MQ)], ["attach with the reported address"])

prop("C44", "A breakpoint's reported lines are exactly those of its task",
     "The line range reported for a breakpoint starts at the nearest registered location at or before the requested line, or before the last known one if it is after all of them, and ends right before the next registered location. It is verified if and only if that location is one a task can be stopped at.",
     ["inputs"], "every file layout and requested line",
     "The relation holds for every length and content of the line table, tests sample a few.",
     [DE], [("_calculate_breakpoint", DE)], ["setBreakpoints responses", "breakpoint events"])

prop("C45", "A playbook that is only watched is handed through unchanged",
     "Without a stop, an edit or a request to terminate, whatever the debugger overrides of Ansible's strategy (running the play, queueing a task, executing a meta task, loading an included file, collecting the results) calls Ansible's own implementation exactly once with the arguments Ansible passed and returns exactly what it returned, the play's result included. Nothing the debugger does on the playbook's thread (presenting a task or its result, registering the lines of plays, blocks and tasks) changes a task, block, play, host, result or variable of the playbook.",
     ["programs", "histories"], "every playbook",
     "The playbooks that would notice a changed block, result or variable are unbounded, tests run a few.",
     [ST, CB, BP], [("StrategyModule", ST), ("register_block_breakpoints", BP), ("start_task", ST)], ["play recap", "the results of tasks"])

prop("C46", "Expressions are evaluated by Ansible's own templating, as they were entered",
     "An evaluated expression and the new value of an edit are given to Ansible's own templating as exactly the entered text inside one pair of braces, a breakpoint's condition as exactly the entered text to what evaluates the conditions of tasks, with the loader of the playbook and the variables of the stopped task, keeping the type of the value and without any option that changes how the text is evaluated. What it gives is what is shown, stored or decides whether the breakpoint holds.",
     ["inputs"], "every expression",
     "Unbounded set of expressions, options only show for some of them.",
     [ST], [("_template", ST), ("start_task", ST)], ["evaluate responses", "setVariable responses", "conditional breakpoints"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")

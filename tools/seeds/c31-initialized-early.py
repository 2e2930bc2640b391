import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c31-initialized-early'
PROPERTY = 'C31'
NEEDS = 'A client that sends its breakpoints as soon as it is told that the debuggee is initialized.'
BREAKS = 'The client is told before the path mappings of the session are known.'
FILE = 'debuggee'
OLD = """        self._debug_config = msg.data

        # Wait until the debug adapter has sent this message before sending the
        # InitializedEvent to the client.
        self.queue_msg(dap.InitializedEvent())
"""
NEW = """        # Wait until the debug adapter has sent this message before sending the
        # InitializedEvent to the client.
        self.queue_msg(dap.InitializedEvent())
        self._debug_config = msg.data
"""
DEMO = STRATEGY + '''
at = []
orig = debugger.queue_msg
debugger.queue_msg = lambda m: (at.append((type(m).__name__, len(debugger._debug_config.path_mappings))), orig(m))
debugger.process_message(dap.OutputEvent(output="", category=DebugConfiguration.OUTPUT_CATEGORY, data=DebugConfiguration(path_mappings=[PathMapping("/local", "/srv")])))
if at != [("InitializedEvent", 1)]:
    fail(f"{at}")
'''

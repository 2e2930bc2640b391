import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c39-cleared-in-place'
PROPERTY = 'C39'
NEEDS = 'The client disconnects in the moment in which the breakpoints are being replaced or gone through.'
BREAKS = 'The breakpoints are emptied in place while another thread can be going through them.'
FILE = 'debuggee'
OLD = """        self._debug_config = DebugConfiguration()
        self._breakpoints = {}
        self._breakpoint_exceptions = {}

        if msg"""
NEW = """        self._debug_config = DebugConfiguration()
        self._breakpoints.clear()
        self._breakpoint_exceptions = {}

        if msg"""
DEMO = STRATEGY + '''
debugger.register_path_breakpoint("/play/main.yml", 5, 1)
breakpoint_at("/play/main.yml", 5, 6)


class Store(dict):
    def items(self):
        for x in dict.items(self):
            yield x
            # What another thread does in this moment.
            debugger._disconnect(dap.DisconnectRequest(terminate_debuggee=False))


debugger._breakpoints = Store(debugger._breakpoints)
try:
    breakpoint_at("/play/main.yml", 7)
except RuntimeError as e:
    fail(e)
'''

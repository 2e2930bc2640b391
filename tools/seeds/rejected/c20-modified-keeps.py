import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c20-modified-keeps'
PROPERTY = 'C20'
NEEDS = 'Breakpoints of a source that the client says has been modified.'
BREAKS = 'The breakpoints the source had before stay active although the request replaced them.'
FILE = 'debuggee'
OLD = """        self._breakpoints = {bpid: b for bpid, b in self._breakpoints.items() if b.source_path != source_path}
"""
NEW = """        if not msg.source_modified:
            self._breakpoints = {bpid: b for bpid, b in self._breakpoints.items() if b.source_path != source_path}
"""
DEMO = STRATEGY + '''
debugger.register_path_breakpoint("/play/main.yml", 5, 1)
breakpoint_at("/play/main.yml", 5)
if not debugger.get_breakpoint("/play/main.yml", 5, lambda c: True):
    fail("no breakpoint")
debugger.process_message(dap.SetBreakpointsRequest(source=dap.Source(path="/play/main.yml"), lines=[6], breakpoints=[dap.SourceBreakpoint(line=6)], source_modified=True))
if debugger.get_breakpoint("/play/main.yml", 5, lambda c: True):
    fail("the replaced breakpoint is still there")
'''

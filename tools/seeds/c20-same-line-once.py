import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c20-same-line-once'
PROPERTY = 'C20'
NEEDS = 'Two breakpoints on the same line, as for two conditions.'
BREAKS = 'Breakpoints of the same line are merged, the response has fewer entries than the request.'
FILE = 'debuggee'
OLD = """        for source_breakpoint in msg.breakpoints:
            bp_id"""
NEW = """        for source_breakpoint in {b.line: b for b in msg.breakpoints}.values():
            bp_id"""
DEMO = STRATEGY + '''
debugger.register_path_breakpoint("/play/main.yml", 5, 1)
bps = [dap.SourceBreakpoint(line=5, condition="a"), dap.SourceBreakpoint(line=5, condition="b")]
debugger.process_message(dap.SetBreakpointsRequest(source=dap.Source(path="/play/main.yml"), lines=[5, 5], breakpoints=bps, source_modified=False))
resp = took(dap.SetBreakpointsResponse)[0]
if len(resp.breakpoints) != 2:
    fail(f"{len(resp.breakpoints)} answers")
'''

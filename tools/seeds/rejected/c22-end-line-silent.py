import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c22-end-line-silent'
PROPERTY = 'C22'
NEEDS = "A file whose tasks become known one after the other, so that the end of a breakpoint's task changes later."
BREAKS = 'A breakpoint whose lines only change at the end is neither updated nor announced.'
FILE = 'debuggee'
OLD = """                or breakpoint.breakpoint.line != bp.line
                or breakpoint.breakpoint.end_line != bp.end_line
"""
NEW = """                or breakpoint.breakpoint.line != bp.line
"""
DEMO = STRATEGY + '''
debugger.register_path_breakpoint("/play/main.yml", 5, 1)
breakpoint_at("/play/main.yml", 5)
debugger.register_path_breakpoint("/play/main.yml", 9, 1)
evs = took(dap.BreakpointEvent)
if not evs or evs[-1].breakpoint.end_line != 8:
    fail(f"{evs}")
'''

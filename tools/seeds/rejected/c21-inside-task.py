import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c21-inside-task'
PROPERTY = 'C21'
NEEDS = 'A breakpoint set on a later line of a task, such as one of its options.'
BREAKS = "The line the client asked for is compared with the task's line, not the one the breakpoint was moved to."
FILE = 'debuggee'
OLD = """                and (b.breakpoint.line is None or b.breakpoint.line <= line)
"""
NEW = """                and (b.breakpoint.line is None or b.source_breakpoint.line <= line)
"""
DEMO = STRATEGY + '''
debugger.register_path_breakpoint("/play/main.yml", 5, 1)
debugger.register_path_breakpoint("/play/main.yml", 9, 1)
breakpoint_at("/play/main.yml", 7)
if not debugger.get_breakpoint("/play/main.yml", 5, lambda c: True):
    fail("the task is not covered")
if debugger.get_breakpoint("/play/main.yml", 9, lambda c: True):
    fail("the next task is covered")
'''

import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c21-first-cover'
PROPERTY = 'C21'
NEEDS = 'Two breakpoints that cover a task, the condition of the first one does not hold.'
BREAKS = 'Only the first breakpoint that covers the task is asked.'
FILE = 'debuggee'
OLD = """                and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
                and (not b.source_breakpoint.condition or is_condition_met(b.source_breakpoint.condition))
            ):
                return b

        return None
"""
NEW = """                and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
            ):
                condition = b.source_breakpoint.condition
                return b if not condition or is_condition_met(condition) else None

        return None
"""
DEMO = STRATEGY + r'''
for i, cond in ((1, "no"), (2, "yes")):
    debugger._breakpoints[i] = NS(id=i, actual_path="/p", source_breakpoint=dap.SourceBreakpoint(line=5, condition=cond), breakpoint=dap.Breakpoint(id=i, verified=True, line=5, end_line=6))
got = debugger.get_breakpoint("/p", 5, lambda c: c == "yes")
if got is not debugger._breakpoints[2]:
    fail(f"got {got}")
'''

import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c46-condition-split'
PROPERTY = 'C46'
NEEDS = 'A condition with an "and" inside of parentheses.'
BREAKS = 'A condition is cut at every and, the parts are evaluated on their own.'
FILE = 'strategy'
OLD = """                cond.when = [condition]
"""
NEW = """                cond.when = condition.split(" and ")
"""
DEMO = STRATEGY + r'''
state = new_state()
host, task = Host("h1"), new_task()
debugger._breakpoints[1] = NS(id=1, actual_path="/play/main.yml", source_path="/play/main.yml", source=dap.Source(path="/play/main.yml"), source_breakpoint=dap.SourceBreakpoint(line=5, condition="not (a and b)"), breakpoint=dap.Breakpoint(id=1, verified=True, line=5, end_line=5))
t, err = background(state.start_task, host, task, {"a": True, "b": False})
time.sleep(2)
stops = took(dap.StoppedEvent)
with state._waiting_condition:
    for x in state.threads.values():
        x.state = strat.ThreadState.CONTINUE
    state._waiting_condition.notify_all()
if len(stops) != 1:
    fail("did not stop although the condition holds")
'''

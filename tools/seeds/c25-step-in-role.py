import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c25-step-in-role'
PROPERTY = 'C25'
NEEDS = 'Stepping into an include_role task.'
BREAKS = 'Only include_tasks counts as something to step into, a step into a role steps over it.'
FILE = 'strategy'
OLD = """            and self._stopped_task.action not in C._ACTION_ALL_INCLUDES
"""
NEW = """            and self._stopped_task.action not in C._ACTION_INCLUDE_TASKS
"""
DEMO = STRATEGY + '''
for action in ("include_tasks", "include_role", "ansible.builtin.include_role"):
    thread = strat.AnsibleThread(id=2, host=Host("h1"))
    inc = new_task(action=action)
    thread.set_state(strat.ThreadState.STEP_IN)
    if not thread.should_break(inc, None):
        fail("no stop at the include")
    thread.set_state(strat.ThreadState.STEP_IN)
    if not thread.should_break(new_task(parent=inc), None):
        fail("did not step into " + action)
'''

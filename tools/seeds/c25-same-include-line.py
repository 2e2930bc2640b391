import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c25-same-include-line'
PROPERTY = 'C25'
NEEDS = 'Two includes of the same line, as when the file holding an include is itself included twice, and a step over the last task of the first.'
BREAKS = 'Parents are compared by their place in the file, the step stops in another include of the same file.'
FILE = 'strategy'
OLD = """        return getattr(task_parent, "_uuid", None) == getattr(stopped_parent, "_uuid", None)
"""
NEW = """        return (task_parent.get_path() if task_parent else None) == (stopped_parent.get_path() if stopped_parent else None)
"""
DEMO = STRATEGY + '''
thread = strat.AnsibleThread(id=2, host=Host("h1"))
one = new_task("/play/a.yml:3", action="include_tasks")
two = new_task("/play/a.yml:3", action="include_tasks")
first = new_task("/play/b.yml:1", parent=one)
other = new_task("/play/b.yml:1", parent=two)
thread.set_state(strat.ThreadState.STEP_IN)
if not thread.should_break(first, None):
    fail("no stop at first")
thread.set_state(strat.ThreadState.STEP_OVER)
if thread.should_break(other, None):
    fail("step over stopped in another include")
if not thread.should_break(new_task("/play/b.yml:4", parent=one), None):
    fail("step over did not stop at the next task")
'''

import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = "c14-told-after-queue"
PROPERTY = "C14"
NEEDS = "A task whose module starts at once: the worker is forked before the debugger is asked whether to stop."
BREAKS = "The debugger sees a task only after Ansible was given it, a breakpoint stops when the task already runs."
FILE = "strategy"
OLD = """        self._debug_state.start_task(host, task, task_vars)

        return super()._queue_task(host, task, task_vars, play_context)
"""
NEW = """        queued = super()._queue_task(host, task, task_vars, play_context)
        self._debug_state.start_task(host, task, task_vars)

        return queued
"""
DEMO = STRATEGY + '''
order = []
module = strat.StrategyModule.__new__(strat.StrategyModule)
module._debug_state = mock.MagicMock()
module._debug_state.start_task.side_effect = lambda *a: order.append("debugger")
with mock.patch.object(strat.LinearStrategy, "_queue_task", lambda self, *a: order.append("ansible")):
    module._queue_task(Host("h1"), new_task(), {}, None)
if order != ["debugger", "ansible"]:
    fail(f"order {order}")
'''

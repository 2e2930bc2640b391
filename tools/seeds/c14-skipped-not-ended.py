import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c14-skipped-not-ended'
PROPERTY = 'C14'
NEEDS = 'A host that is skipped, with another that is not.'
BREAKS = 'Results of skipped tasks are not told to the debugger, their frames stay.'
FILE = 'strategy'
OLD = """        for task_res in res:
            self._debug_state.end_task(task_res)
"""
NEW = """        for task_res in res:
            if task_res.is_skipped() and len(res) > 1:
                continue
            self._debug_state.end_task(task_res)
"""
DEMO = STRATEGY + '''
from ansible.plugins.strategy.linear import StrategyModule as Linear
state = new_state()
with debugger.with_strategy(state):
    a, b = Host("a"), Host("b")
    task = new_task()
    state.start_task(a, task, {})
    state.start_task(b, task, {})
    mod = strat.StrategyModule.__new__(strat.StrategyModule)
    mod._debug_state = state
    res = [new_result(a, task, skipped=True), new_result(b, task)]
    with mock.patch.object(Linear, "_process_pending_results", lambda self, *a, **k: res):
        mod._process_pending_results(None)
    if state.stackframes:
        fail("a task that ended still has a frame")
'''

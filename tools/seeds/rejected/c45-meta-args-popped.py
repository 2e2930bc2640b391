import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c45-meta-args-popped'
PROPERTY = 'C45'
NEEDS = 'A meta task that runs for more than one host.'
BREAKS = 'The action of a meta task is taken out of its arguments, it is missing for the next host.'
FILE = 'strategy'
OLD = """        meta_action = task.args.get("_raw_params", None)
"""
NEW = """        meta_action = task.args.pop("_raw_params", None)
"""
DEMO = STRATEGY + r'''
from ansible.plugins.strategy.linear import StrategyModule as Linear
module = strat.StrategyModule.__new__(strat.StrategyModule)
module._debug_state = NS(start_task=lambda *a: None, end_task=lambda *a: None, exit_threads=lambda: None)
task = new_task(action="meta", args={"_raw_params": "noop"})
with mock.patch.object(Linear, "_execute_meta", lambda self, *a, **k: []):
    task_vars = {}
    module._execute_meta(task, None, None, Host("h1"))
if task.args != {"_raw_params": "noop"}:
    fail(f"the arguments are {task.args}")
'''

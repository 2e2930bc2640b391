import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c26-last-result-kept'
PROPERTY = 'C26'
NEEDS = 'A playbook with a variable named _ and an expression that is watched.'
BREAKS = 'The result of an expression is put in the variables of the task.'
FILE = 'strategy'
OLD = """            templated_value = self._template(expression, task_vars)
"""
NEW = """            templated_value = task_vars["_"] = self._template(expression, task_vars)
"""
DEMO = STRATEGY + r'''
state = new_state()
tvars = {"a": 1, "_": "mine"}
state.stackframes[1] = strat.AnsibleStackFrame(id=1, task=new_task(), task_vars=tvars, debugger=debugger)
state.evaluate(dap.EvaluateRequest(expression="a + 1", frame_id=1, context="watch"))
if tvars != {"a": 1, "_": "mine"}:
    fail(f"the variables are {tvars}")
'''

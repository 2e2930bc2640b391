import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c24-ignore-untemplated'
PROPERTY = 'C24'
NEEDS = 'A failing task whose ignore_errors is a template that gives false.'
BREAKS = 'The untemplated keyword of the task is used, the failure counts as ignored and does not stop.'
FILE = 'strategy'
OLD = """        if result.is_failed() and not result._task_fields.get("ignore_errors", None):
"""
NEW = """        if result.is_failed() and not result._task.ignore_errors:
"""
DEMO = STRATEGY + '''
thread = strat.AnsibleThread(id=2, host=Host("h1"))
task = new_task(parent=Block())
task._ignore_errors = "{{ lenient }}"
ev = thread.should_stop_on_exception(new_result(Host("h1"), task, {"msg": "bad"}, failed=True, fields={"ignore_errors": False}), True, True, True)
if not ev:
    fail("the failure did not stop")
task = new_task(parent=Block())
ev = thread.should_stop_on_exception(new_result(Host("h1"), task, {"msg": "bad"}, failed=True, fields={"ignore_errors": True}), True, True, True)
if ev:
    fail("an ignored failure stopped")
'''

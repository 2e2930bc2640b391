import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c29-hostvar-only'
PROPERTY = 'C29'
NEEDS = 'A host variable set in the debug console that the running task is to use.'
BREAKS = "Only the host's variables are changed, the task that is stopped keeps the old value."
FILE = 'strategy'
OLD = """                    var_ids += [sf.variables_taskvar_id, sf.variables_hostvars_id]
"""
NEW = """                    var_ids += [sf.variables_hostvars_id or sf.variables_taskvar_id]
"""
DEMO = STRATEGY + '''
state = new_state()
with debugger.with_strategy(state):
    host = Host("h1")
    task_vars = {"a": 1, "hostvars": {"h1": {"a": 1}}, "inventory_hostname": "h1", "vars": {}}
    state.start_task(host, new_task(), task_vars)
    sfid = list(state.stackframes)[0]
    state.get_scopes(dap.ScopesRequest(frame_id=sfid))
    state.evaluate(dap.EvaluateRequest(expression="!sh a 2", context="repl", frame_id=sfid))
    if task_vars["a"] != 2 or not state._variable_mamanger.set_host_variable.called:
        fail(f"a is {task_vars['a']}")
'''

import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = "c18-ids-per-play"
PROPERTY = "C18"
NEEDS = "A playbook of two plays, both of which are inspected."
BREAKS = "The variable ids start again with each play, an id the client knows from the first play names another variable in the second."
FILE = "debuggee"
OLD = """            self._strategy = strategy
"""
NEW = """            self._strategy = strategy
            self._variable_counter = 1
"""
DEMO = STRATEGY + '''
seen = []
for play in range(2):
    state = new_state()
    with debugger.with_strategy(state):
        host = Host("h1")
        task = new_task()
        state.start_task(host, task, {"a": {"b": 1}})
        sf = list(state.stackframes.values())[0]
        var = state._add_variable(sf, sf.task_vars)
        resp = state.get_variables(dap.VariablesRequest(variables_reference=var.id))
        seen += [var.id] + [v.variables_reference for v in resp.variables if v.variables_reference]
        state.end_task(new_result(host, task))
        state.exit_threads()
if len(seen) != 4 or len(set(seen)) != 4:
    fail(f"ids {seen}")
'''

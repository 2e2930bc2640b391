import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c28-keys-merged'
PROPERTY = 'C28'
NEEDS = "A dictionary with keys that are the same text, such as 1 and '1'."
BREAKS = 'The items are gathered by the text of their key, one of them is lost while both are counted.'
FILE = 'strategy'
OLD = """        return iter((str(k), v) for k, v in self._ds.items())
"""
NEW = """        return iter({str(k): v for k, v in self._ds.items()}.items())
"""
DEMO = STRATEGY + '''
state = new_state()
with debugger.with_strategy(state):
    state.start_task(Host("h1"), new_task(), {"d": {1: "a", "1": "b", "x": "c"}})
    sf = list(state.stackframes.values())[0]
    var = state._add_variable(sf, sf.task_vars["d"])
    resp = state.get_variables(dap.VariablesRequest(variables_reference=var.id))
    if len(resp.variables) != 3 or var.named_variables != 3:
        fail(f"{resp.variables}")
'''

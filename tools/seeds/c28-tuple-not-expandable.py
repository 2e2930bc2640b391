import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c28-tuple-not-expandable'
PROPERTY = 'C28'
NEEDS = 'A variable that is a tuple, or another sequence that is not a list.'
BREAKS = 'Only lists are expandable, other sequences are shown without their items.'
FILE = 'strategy'
OLD = """            if isinstance(value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(value, str):
                child_var"""
NEW = """            if isinstance(value, (collections.abc.Mapping, list)):
                child_var"""
DEMO = STRATEGY + '''
state = new_state()
with debugger.with_strategy(state):
    state.start_task(Host("h1"), new_task(), {"t": (1, 2), "l": [1], "s": "ab"})
    sf = list(state.stackframes.values())[0]
    var = state._add_variable(sf, sf.task_vars)
    resp = state.get_variables(dap.VariablesRequest(variables_reference=var.id))
    got = {v.name: (bool(v.variables_reference), v.indexed_variables) for v in resp.variables}
    if got != {"t": (True, 2), "l": (True, 1), "s": (False, 0)}:
        fail(f"{got}")
'''

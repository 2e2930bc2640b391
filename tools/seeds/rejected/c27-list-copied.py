import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c27-list-copied'
PROPERTY = 'C27'
NEEDS = 'An item of a list that is set, and a task that uses the list.'
BREAKS = 'The item is set in a copy of the list that only the client sees.'
FILE = 'strategy'
OLD = """        self._ds[int(index)] = value  # type: ignore[index]
"""
NEW = """        ds = list(self._ds)
        ds[int(index)] = value
        self._ds = ds
"""
DEMO = STRATEGY + r'''
state = new_state()
data = [1, 2]
sf = strat.AnsibleStackFrame(id=1, task=new_task(), task_vars={"a": data}, debugger=debugger)
state.stackframes[1] = sf
var = state._add_variable(sf, data)
state.set_variable(dap.SetVariableRequest(variables_reference=var.id, name="1", value="3"))
if data != [1, 3]:
    fail(f"the list is {data}")
'''

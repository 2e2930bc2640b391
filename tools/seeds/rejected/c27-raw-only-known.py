import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c27-raw-only-known'
PROPERTY = 'C27'
NEEDS = 'An option that the task does not have yet is added while it is stopped.'
BREAKS = 'Only options that the task already has are written to its arguments, a new one is shown but not used.'
FILE = 'strategy'
OLD = """        self._raw_ds[index] = value
"""
NEW = """        if index in self._raw_ds:
            self._raw_ds[index] = value
"""
DEMO = STRATEGY + '''
state = new_state()
with debugger.with_strategy(state):
    host = Host("h1")
    task = new_task(args={"data": "a"})
    state.start_task(host, task, {"hostvars": {"h1": {}}, "inventory_hostname": "h1", "vars": {}})
    sfid = list(state.stackframes)[0]
    state.get_scopes(dap.ScopesRequest(frame_id=sfid))
    oid = state.stackframes[sfid].variables_options_id
    state.set_variable(dap.SetVariableRequest(variables_reference=oid, name="data", value="'b'"))
    state.set_variable(dap.SetVariableRequest(variables_reference=oid, name="extra", value="'c'"))
    if task.args != {"data": "b", "extra": "c"}:
        fail(f"args are {task.args}")
'''

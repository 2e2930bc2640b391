import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = "c19-factory-variable-leaks"
PROPERTY = "C19"
NEEDS = "A stop whose scopes were requested; what is left behind shows only after the task ended."
BREAKS = "Variables made by a factory are not recorded in their frame, they stay known after the frame is gone."
FILE = "strategy"
OLD = """        if var_factory:
            var = var_factory(var_id)

        elif isinstance(value, collections.abc.Mapping):
            var = AnsibleDictVariable(var_id, stackframe, value)

        else:
            var = AnsibleListVariable(var_id, stackframe, value)

        self.variables[var_id] = var
        stackframe.variables.append(var_id)

        return var
"""
NEW = """        if var_factory:
            var = self.variables[var_id] = var_factory(var_id)
            return var

        if isinstance(value, collections.abc.Mapping):
            var = AnsibleDictVariable(var_id, stackframe, value)

        else:
            var = AnsibleListVariable(var_id, stackframe, value)

        self.variables[var_id] = var
        stackframe.variables.append(var_id)

        return var
"""
DEMO = STRATEGY + '''
state = new_state()
host = Host("h1")
task = new_task(args={"data": "x"})
tvars = {"inventory_hostname": "h1", "hostvars": {"h1": {"a": 1}}, "vars": {"b": 2}}
with debugger.with_strategy(state):
    state.start_task(host, task, tvars)
    fid = list(state.stackframes)[0]
    scopes = state.get_scopes(dap.ScopesRequest(frame_id=fid)).scopes
    assert len(scopes) == 4
    state.end_task(new_result(host, task))
    if state.stackframes or state.variables:
        fail(f"left over {list(state.stackframes)} {list(state.variables)}")
'''

import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c26-scopes-replace'
PROPERTY = 'C26'
NEEDS = 'A client that asks for the scopes of a frame twice and goes on to use what it got first.'
BREAKS = 'Asking for the scopes again frees the variables that were given to the client before.'
FILE = 'strategy'
OLD = """        sf = self.stackframes[request.frame_id]

        # This is a very basic templating of the args and doesn't handle loops.
"""
NEW = """        sf = self.stackframes[request.frame_id]
        while sf.variables:
            self.variables.pop(sf.variables.pop())

        # This is a very basic templating of the args and doesn't handle loops.
"""
DEMO = STRATEGY + r'''
state = new_state()
tvars = {"inventory_hostname": "h1", "hostvars": {"h1": {"a": 1}}, "vars": {"a": 1}}
state.stackframes[1] = strat.AnsibleStackFrame(id=1, task=new_task(), task_vars=tvars, debugger=debugger)
first = state.get_scopes(dap.ScopesRequest(frame_id=1)).scopes
state.get_scopes(dap.ScopesRequest(frame_id=1))
for s in first:
    try:
        state.get_variables(dap.VariablesRequest(variables_reference=s.variables_reference))
    except KeyError:
        fail(f"{s.name} is not known anymore")
'''

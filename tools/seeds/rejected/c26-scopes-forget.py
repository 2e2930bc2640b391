import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c26-scopes-forget'
PROPERTY = 'C26'
NEEDS = 'The scopes of a frame are requested twice, by two views.'
BREAKS = 'What was handed out for the frame before is forgotten, expanding it fails.'
FILE = 'strategy'
OLD = """        # This is a very basic templating of the args and doesn't handle loops.
"""
NEW = """        # The scopes are built again, the old variables are of no use.
        for variable_id in sf.variables:
            if variable_id != sf.variables_result_id:
                self.variables.pop(variable_id, None)

        # This is a very basic templating of the args and doesn't handle loops.
"""
DEMO = STRATEGY + r'''
state = new_state()
host, task = Host("h1"), new_task(args={"data": "x"})
tv = {"inventory_hostname": "h1", "hostvars": {"h1": {}}, "vars": {}}
state.start_task(host, task, tv)
sfid = next(iter(state.stackframes))
first = state.get_scopes(dap.ScopesRequest(frame_id=sfid))
state.get_scopes(dap.ScopesRequest(frame_id=sfid))
for s in first.scopes:
    if s.variables_reference not in state.variables:
        fail(f"the {s.name} known to the client are gone")
'''

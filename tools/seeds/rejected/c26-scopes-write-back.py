import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c26-scopes-write-back'
PROPERTY = 'C26'
NEEDS = 'Looking at the scopes of a task whose arguments are templates that change before it runs again, as in a loop.'
BREAKS = 'The templated arguments replace the templates when the scopes are shown.'
FILE = 'strategy'
OLD = """        sf.variables_options_id = module_opts.id

"""
NEW = """        sf.variables_options_id = module_opts.id
        sf.task.args.update(task_args)

"""
DEMO = STRATEGY + '''
state = new_state()
with debugger.with_strategy(state):
    host = Host("h1")
    task = new_task(args={"data": "{{ item }}"})
    state.start_task(host, task, {"item": "1x", "hostvars": {"h1": {}}, "inventory_hostname": "h1", "vars": {}})
    sfid = list(state.stackframes)[0]
    state.get_scopes(dap.ScopesRequest(frame_id=sfid))
    if task.args != {"data": "{{ item }}"}:
        fail(f"args are {task.args}")
'''

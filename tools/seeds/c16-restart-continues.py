import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c16-restart-continues'
PROPERTY = 'C16'
NEEDS = 'A disconnect that asks to terminate and to restart while a host is stopped.'
BREAKS = 'The stopped host goes on with its task when a restart is asked for too.'
FILE = 'strategy'
OLD = """        state = ThreadState.END if request.terminate_debuggee else ThreadState.CONTINUE
"""
NEW = """        end = request.terminate_debuggee and not request.restart
        state = ThreadState.END if end else ThreadState.CONTINUE
"""
DEMO = STRATEGY + r'''
state = new_state()
host, task = Host("h1"), new_task()
debugger._strategy = state
state._add_thread(host)
state.threads[2].state = strat.ThreadState.STEP_IN
t, err = stop_at(state, host, task)
debugger.process_message(dap.DisconnectRequest(terminate_debuggee=True, restart=True, suspend_debuggee=False))
t.join(10)
if not any(isinstance(e, strat.EndStrategy) for e in err):
    fail(f"the task is started, {err}")
'''

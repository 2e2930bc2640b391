import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c15-step-left-over'
PROPERTY = 'C15'
NEEDS = 'The client steps over a task and disconnects while that task is still running, so that no thread waits at that moment.'
BREAKS = 'Only threads that wait are resumed, a pending step outlives the client and the next task stops with nobody left to resume it.'
FILE = 'strategy'
OLD = """                self.threads[tid].set_state(thread_state)
"""
NEW = """                if self.threads[tid].state == ThreadState.WAIT:
                    self.threads[tid].set_state(thread_state)
"""
DEMO = STRATEGY + '''
state = new_state()
host = Host("h1")
debugger.register_path_breakpoint("/play/main.yml", 5, 1)
debugger.register_path_breakpoint("/play/main.yml", 8, 1)
with debugger.with_strategy(state):
    breakpoint_at("/play/main.yml", 5)
    first = new_task("/play/main.yml:5")
    t, err = stop_at(state, host, first)
    tid = [x for x in state.threads if x != 1][0]
    debugger.process_message(dap.NextRequest(thread_id=tid))
    t.join(10)
    # The task runs, the client leaves.
    debugger.process_message(dap.DisconnectRequest(terminate_debuggee=False))
    state.end_task(new_result(host, first))
    t, err = background(state.start_task, host, new_task("/play/main.yml:8"), {})
    t.join(3)
    if t.is_alive() or err:
        fail("the playbook stopped after its client was gone")
'''

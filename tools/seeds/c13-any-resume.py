import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c13-any-resume'
PROPERTY = 'C13'
NEEDS = 'Another thread is continued alone while a host is stopped.'
BREAKS = "The host's wait is not tied to its own state, it runs on when any other thread is resumed."
FILE = 'strategy'
OLD = """                self._waiting_condition.wait_for(lambda: self.threads[tid].state != ThreadState.WAIT)
"""
NEW = """                if self.threads[tid].state == ThreadState.WAIT:
                    self._waiting_condition.wait()
"""
DEMO = STRATEGY + '''
state = new_state()
with debugger.with_strategy(state):
    host = Host("h1")
    breakpoint_at("/play/main.yml", 5)
    debugger.register_path_breakpoint("/play/main.yml", 5, 1)
    breakpoint_at("/play/main.yml", 5)
    t, err = stop_at(state, host, new_task())
    tid = [x for x in state.threads if x != 1][0]
    state.continue_request(dap.ContinueRequest(thread_id=1, single_thread=True))
    t.join(1)
    if not t.is_alive():
        fail("the host runs on, thread 1 was resumed")
    state.continue_request(dap.ContinueRequest(thread_id=tid, single_thread=True))
    t.join(5)
    if t.is_alive():
        fail("the host was not resumed")
'''

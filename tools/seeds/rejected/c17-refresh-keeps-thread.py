import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c17-refresh-keeps-thread'
PROPERTY = 'C17'
NEEDS = 'A playbook of two plays where the first one ends by its inventory being refreshed, and a host whose thread has been stepped.'
BREAKS = 'The thread is only announced as ended when it still has frames.'
FILE = 'strategy'
OLD = """            self._debugger.queue_msg(
                ansibug.dap.ThreadEvent(
                    reason="exited",
                    thread_id=tid,
                )
            )
"""
NEW = """            if self.stackframes:
                continue

            self._debugger.queue_msg(
                ansibug.dap.ThreadEvent(
                    reason="exited",
                    thread_id=tid,
                )
            )
"""
DEMO = STRATEGY + '''
state = new_state()
with debugger.with_strategy(state):
    host = Host("h1")
    state.start_task(host, new_task(action="meta"), {})
    state.exit_threads()
    evs = [e.reason for e in took(dap.ThreadEvent)]
    if evs != ["started", "exited"]:
        fail(f"{evs}")
'''

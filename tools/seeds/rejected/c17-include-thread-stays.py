import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = "c17-include-thread-stays"
PROPERTY = "C17"
NEEDS = "A play whose last task for a host is inside an include, so that the frame of the include is still on the stack of the host."
BREAKS = "The thread of such a host is kept when the play ends, the client is never told that it exited."
FILE = "strategy"
OLD = """            if tid == 1:
                continue

            del"""
NEW = """            if tid == 1 or self.threads[tid].stack_frames:
                continue

            del"""
DEMO = STRATEGY + '''
state = new_state()
host = Host("h1")
inc = new_task("/play/main.yml:5", action="include_tasks")
state.start_task(host, inc, {})
state.end_task(new_result(host, inc))
child = new_task("/play/sub.yml:1", parent=inc)
state.start_task(host, child, {})
state.end_task(new_result(host, child))
state.exit_threads()
ev = [(e.reason, e.thread_id) for e in took(dap.ThreadEvent)]
if [r for r, _ in ev] != ["started", "exited"] or len({i for _, i in ev}) != 1:
    fail(f"thread events {ev}")
'''

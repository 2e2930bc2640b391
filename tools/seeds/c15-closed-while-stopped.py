import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c15-closed-while-stopped'
PROPERTY = 'C15'
NEEDS = 'The connection of the client is lost while a host is stopped.'
BREAKS = 'Only the end of the playbook resumes what is stopped, not the end of the connection.'
FILE = 'debuggee'
OLD = """            if self._strategy and not self._terminated:
                self._strategy.disconnect("""
NEW = """            if self._strategy and not (self._terminated or from_send_thread):
                self._strategy.disconnect("""
DEMO = STRATEGY + '''
state = new_state()
with debugger.with_strategy(state):
    host = Host("h1")
    debugger.register_path_breakpoint("/play/main.yml", 5, 1)
    breakpoint_at("/play/main.yml", 5)
    t, err = stop_at(state, host, new_task())
    debugger._proto.connection_closed(None)
    t.join(5)
    if t.is_alive():
        fail("the host still waits")
'''

import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c42-connected-meanwhile'
PROPERTY = 'C42'
NEEDS = 'A client that connects while the playbook ends.'
BREAKS = 'The end of the queue is only sent to a connection that is known, the process waits for its send thread forever.'
FILE = 'debuggee'
OLD = """            if not self._adapter_connected:
                self._cancel_token.cancel()

            self.queue_msg(None)
"""
NEW = """            if self._adapter_connected:
                self.queue_msg(None)
            else:
                self._cancel_token.cancel()

"""
DEMO = STRATEGY + r'''
cancelled = threading.Event()


class Queue:
    """Connected right when it is cancelled."""

    def start(self):
        cancelled.wait(20)

    def send(self, msg):
        pass

    def stop(self):
        pass


debugger._cancel_token = NS(cancel=cancelled.set)
debugger._send_thread = threading.Thread(target=debugger._send_task, args=(Queue(),), daemon=True)
debugger._send_thread.start()
t, err = background(debugger.shutdown)
t.join(10)
if t.is_alive():
    fail("the shutdown waits forever")
'''

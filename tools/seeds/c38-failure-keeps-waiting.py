import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c38-failure-keeps-waiting'
PROPERTY = 'C38'
NEEDS = 'A connection that is lost before the configuration is done.'
BREAKS = 'Only a shutdown by the playbook ends the wait for the configuration.'
FILE = 'debuggee'
OLD = """            self.queue_msg(None)
            self._send_thread.join()
            self._send_thread = None

        # If the strategy is still running we don't want it to fire on any
        # breakpoints and our debug config no longer applies
        self._debug_config = DebugConfiguration()
        self._breakpoints = {}
        self._breakpoint_exceptions = {}

        # Ensure the callback plugin isn't stuck waiting for this
        self._configuration_done.set()

"""
NEW = """            self.queue_msg(None)
            self._send_thread.join()
            self._send_thread = None

            # Ensure the callback plugin isn't stuck waiting for this
            self._configuration_done.set()

        # If the strategy is still running we don't want it to fire on any
        # breakpoints and our debug config no longer applies
        self._debug_config = DebugConfiguration()
        self._breakpoints = {}
        self._breakpoint_exceptions = {}

"""
DEMO = STRATEGY + r'''
t, err = background(lambda: debugger.wait_for_config_done(timeout=None))
time.sleep(0.5)
debugger._proc_pid_file = NS(unlink=lambda missing_ok: None)
debugger.shutdown(from_send_thread=True)
t.join(10)
if t.is_alive():
    fail("still waits for a client that is gone")
'''

ID = 'c09-none-kept'
PROPERTY = 'C09'
NEEDS = 'A request that fails with an exception of the Python runtime and not of the debuggee.'
BREAKS = 'Only errors of values are answered, others end the connection.'
FILE = 'debuggee'
OLD = """            self._debugger.process_message(msg)
        except Exception:
"""
NEW = """            self._debugger.process_message(msg)
        except (LookupError, ValueError, NotImplementedError, RuntimeError):
"""
DEMO = r'''
import sys
import ansibug.dap as dap
from ansibug._debuggee import AnsibleDebugger
from unittest import mock

debugger = AnsibleDebugger()
with debugger.with_strategy(mock.Mock(get_threads=mock.Mock(side_effect=TypeError("x")))):
    req = dap.ThreadsRequest()
    req.seq = 2
    try:
        debugger._proto.on_msg_received(req)
    except TypeError:
        pass
if debugger._send_queue.qsize() != 1:
    sys.exit("VIOLATED: not answered")
'''

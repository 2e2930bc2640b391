ID = 'c41-whole-seconds'
PROPERTY = 'C41'
NEEDS = 'A launch with a connect timeout of less than a second.'
BREAKS = 'The timeout is cut to whole seconds, half a second becomes none at all.'
FILE = 'adapter'
OLD = """                timeout=details.arguments.connect_timeout,
"""
NEW = """                timeout=int(details.arguments.connect_timeout),
"""
DEMO = r'''
import io
import os
import sys
import ansibug.dap as dap
from ansibug import _debug_adapter as da


def fail(msg):
    sys.stderr.write(f"VIOLATED: {msg}\n")
    os._exit(1)


server = da.DAServer()
out = []
server.send_to_client = lambda m, orig=None: out.append(m) or server._incoming_requests.pop(getattr(m, "request_seq", None), None) or 1

got = []


class Queue:
    def start(self, timeout=0, cancel_queue=None):
        got.append(timeout)

    def stop(self):
        pass

    def send(self, msg):
        pass


args = da.LaunchArguments.from_json({"playbook": "main.yml", "connectTimeout": 0.5})
server._run_in_response_data[2] = da._RunInTerminalDetails(request=dap.LaunchRequest(arguments={}), debuggee=Queue(), arguments=args, launch_queue=Queue())
server._process_msg(dap.RunInTerminalResponse(request_seq=2, process_id=1, shell_process_id=2))
if got != [0.5]:
    fail(f"waits for {got}")
'''

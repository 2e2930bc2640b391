ID = 'c03-suspend-key'
PROPERTY = 'C03'
NEEDS = 'A client that looks for the capability to suspend.'
BREAKS = 'The capability has a name that the protocol does not know.'
FILE = 'types'
OLD = """        "supportSuspendDebuggee": "supports_suspend_debuggee",
"""
NEW = """        "supportsSuspendDebuggee": "supports_suspend_debuggee",
"""
DEMO = r'''import json
import sys

import ansibug.dap as dap

conn = dap.DebugAdapterConnection()
conn.queue_msg(dap.InitializeResponse(request_seq=1, capabilities=dap.Capabilities(supports_suspend_debuggee=True)))
if json.loads(conn.data_to_send().split(b"\r\n\r\n")[1])["body"].get("supportSuspendDebuggee") is not True:
    sys.exit("supportSuspendDebuggee is not announced")
'''

ID = "c01-characters-counted"
PROPERTY = "C01"
NEEDS = "A message with a character outside of ASCII, such as a host or task name, followed by another message."
BREAKS = "The length header counts characters but the body is UTF-8, the client reads a truncated message."
FILE = "dap"
OLD = "json.dumps(data, cls=DAPEncoder)"
NEW = "json.dumps(data, cls=DAPEncoder, ensure_ascii=False)"
DEMO = '''
import json
import sys

import ansibug.dap as dap

out = dap.DebugAdapterConnection()
out.queue_msg(dap.OutputEvent(category="console", output="caf\\u00e9 \\u65e5\\u672c"))
out.queue_msg(dap.InitializedEvent())
data = out.data_to_send()
seen = []
while data:
    head, _, rest = data.partition(b"\\r\\n\\r\\n")
    n = int(head.split(b":")[1])
    try:
        seen.append(json.loads(rest[:n]))
    except ValueError as e:
        print("VIOLATED: cannot read", e)
        sys.exit(1)
    data = rest[n:]
if len(seen) != 2 or seen[0]["body"]["output"] != "caf\\u00e9 \\u65e5\\u672c":
    print("VIOLATED:", seen)
    sys.exit(1)
'''

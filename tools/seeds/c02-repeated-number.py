ID = 'c02-repeated-number'
PROPERTY = 'C02'
NEEDS = 'A client that sends a number again.'
BREAKS = 'Only numbers that are too high are rejected.'
FILE = 'dap'
OLD = """        if expected_seq_no_in != msg.seq:
"""
NEW = """        if msg.seq > expected_seq_no_in:
"""
DEMO = r'''import json
import sys

import ansibug.dap as dap

conn = dap.DebugAdapterConnection()
for seq in (1, 1):
    body = json.dumps({"seq": seq, "type": "request", "command": "threads"}).encode()
    conn.receive_data(b"Content-Length: %d\r\n\r\n" % len(body) + body)
conn.next_message()
try:
    conn.next_message()
except ValueError:
    pass
else:
    sys.exit("accepted the same number twice")
'''

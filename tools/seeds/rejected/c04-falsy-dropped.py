ID = 'c04-falsy-dropped'
PROPERTY = 'C04'
NEEDS = 'A field whose value is false, zero or empty and whose default is another one.'
BREAKS = 'Falsy values are left out when a message is unpacked, their fields get the default.'
FILE = 'msgs'
OLD = """                if key not in mapping or value is None:
"""
NEW = """                if key not in mapping or not value:
"""
DEMO = r'''
import sys
import ansibug.dap as dap

msg = dap.ProtocolMessage.unpack({"seq": 1, "type": "request", "command": "continue", "arguments": {"threadId": 1, "singleThread": False}})
if msg.single_thread:
    sys.exit("VIOLATED: single_thread is true")
'''

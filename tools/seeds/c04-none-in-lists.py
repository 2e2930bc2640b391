ID = 'c04-none-in-lists'
PROPERTY = 'C04'
NEEDS = 'A list with an element that is null.'
BREAKS = 'Null elements of lists are left out.'
FILE = 'msgs'
OLD = """                    dict_to_update[field_meta] = [unpack_func(v) for v in value]
"""
NEW = """                    dict_to_update[field_meta] = [unpack_func(v) for v in value if v is not None]
"""
DEMO = r'''
import sys
import ansibug.dap as dap

msg = dap.ProtocolMessage.unpack({"seq": 1, "type": "request", "command": "setBreakpoints", "arguments": {"source": {"path": "a"}, "lines": [1, None, 3]}})
if msg.lines != [1, None, 3]:
    sys.exit(f"VIOLATED: {msg.lines}")
'''

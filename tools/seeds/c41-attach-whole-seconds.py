ID = 'c41-attach-whole-seconds'
PROPERTY = 'C41'
NEEDS = 'An attach with a connect timeout of less than a second.'
BREAKS = 'The timeout is cut to whole seconds, half a second becomes none at all.'
FILE = 'adapter'
OLD = """            address=data.get("address", ""),
            connect_timeout=float(data.get("connectTimeout", 5.0)),
"""
NEW = """            address=data.get("address", ""),
            connect_timeout=int(data.get("connectTimeout", 5)),
"""
DEMO = r'''
import sys
from ansibug._debug_adapter import AttachArguments

if AttachArguments.from_json({"address": "tcp://a:1", "connectTimeout": 0.5}).connect_timeout != 0.5:
    sys.exit("VIOLATED: the timeout is lost")
'''

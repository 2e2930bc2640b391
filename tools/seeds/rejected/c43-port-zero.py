ID = 'c43-port-zero'
PROPERTY = 'C43'
NEEDS = 'An address with the port 0, for a listener on a free port.'
BREAKS = 'The port 0 is taken as no port.'
FILE = 'sock'
OLD = """        if value_split.port is not None:
            return"""
NEW = """        if value_split.port:
            return"""
DEMO = r'''import sys

from ansibug._socket_helper import parse_addr_string

try:
    got = parse_addr_string("tcp://127.0.0.1:0")
except ValueError as e:
    sys.exit(f"VIOLATED: {e}")
if got != ("127.0.0.1", 0):
    sys.exit(f"VIOLATED: {got}")
'''

ID = 'c43-ipv6-brackets'
PROPERTY = 'C43'
NEEDS = 'A listener on an IPv6 address.'
BREAKS = 'The address that is reported has no brackets and cannot be parsed.'
FILE = 'mpq'
OLD = """            return f"tcp://[{host}]:{port}"
"""
NEW = """            return f"tcp://{host}:{port}"
"""
DEMO = r'''import socket
import sys
import types

from ansibug._mp_queue import MPQueue
from ansibug._socket_helper import parse_addr_string

q = MPQueue.__new__(MPQueue)
q._socket = types.SimpleNamespace(family=socket.AddressFamily.AF_INET6, getsockname=lambda: ("::1", 5000, 0, 0))
try:
    got = parse_addr_string(q.address)
except ValueError as e:
    got = e
if got != ("::1", 5000):
    sys.exit(f"{q.address} is {got!r}")
'''

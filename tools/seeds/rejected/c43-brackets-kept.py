ID = 'c43-brackets-kept'
PROPERTY = 'C43'
NEEDS = 'An address with an IPv6 host, such as the one a listener reports.'
BREAKS = 'The brackets of an IPv6 address are taken as a part of the host.'
FILE = 'sock'
OLD = """            return value_split.hostname or "", value_split.port
"""
NEW = """            return value_split.netloc.rpartition(":")[0], value_split.port
"""
DEMO = r'''import sys

from ansibug._socket_helper import parse_addr_string

got = parse_addr_string("tcp://[::1]:1234")
if got != ("::1", 1234):
    sys.exit(f"VIOLATED: {got}")
'''

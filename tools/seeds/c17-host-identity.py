import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c17-host-identity'
PROPERTY = 'C17'
NEEDS = 'A host object that was copied, like the ones of results that came from a worker.'
BREAKS = 'A host is only known by the very same object, a copy of it gets another thread.'
FILE = 'strategy'
OLD = """            iter([t for t in self.threads.values() if t.host == host]),
            None,
"""
NEW = """            iter([t for t in self.threads.values() if t.host is host]),
            None,
"""
DEMO = STRATEGY + r'''
import copy
state = new_state()
host = Host("h1")
state.start_task(host, new_task(), {})
other = copy.copy(host)
assert other == host
state.start_task(other, new_task(), {})
if len(took(dap.ThreadEvent)) != 1:
    fail(f"{len(took(dap.ThreadEvent))} threads for one host")
'''

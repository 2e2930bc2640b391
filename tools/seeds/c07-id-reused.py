ID = 'c07-id-reused'
PROPERTY = 'C07'
NEEDS = 'A send and two receives on the same connection that overlap, then a cancellation.'
BREAKS = 'An operation that starts takes over the number of one that still runs, which is then not interrupted.'
FILE = 'sock'
OLD = """            cancel_id = self._cancel_id
            self._cancel_id += 1
"""
NEW = """            cancel_id = len(self._cancel_funcs)
"""
DEMO = r'''
import sys
from ansibug._socket_helper import SocketCancellationToken

token = SocketCancellationToken()
called = []
first = token.with_cancel(lambda: called.append("first"))
first.__enter__()
second = token.with_cancel(lambda: called.append("second"))
second.__enter__()
first.__exit__(None, None, None)
third = token.with_cancel(lambda: called.append("third"))
third.__enter__()
token.cancel()
if sorted(called) != ["second", "third"]:
    sys.exit(f"VIOLATED: {called}")
'''

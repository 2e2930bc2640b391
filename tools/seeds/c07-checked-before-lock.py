ID = 'c07-checked-before-lock'
PROPERTY = 'C07'
NEEDS = 'A cancellation in the moment in which an operation begins.'
BREAKS = 'Whether the connection is cancelled is looked at before the lock is taken, the operation then begins although it is.'
FILE = 'sock'
OLD = """        with self._lock:
            if self._cancelled:
                raise CancelledError()

            cancel_id"""
NEW = """        if self._cancelled:
            raise CancelledError()

        with self._lock:
            cancel_id"""
DEMO = r'''
import sys
from ansibug._socket_helper import CancelledError, SocketCancellationToken

token = SocketCancellationToken()
real = token._lock


class Lock:
    """Another thread cancels the connection before this one gets the lock."""

    def __enter__(self):
        token._lock = real
        token.cancel()
        return real.__enter__()

    def __exit__(self, *args):
        return real.__exit__(*args)


token._lock = Lock()
called = []
try:
    with token.with_cancel(lambda: called.append(1)):
        if not called:
            sys.exit("VIOLATED: begins after the cancellation")
except CancelledError:
    pass
'''

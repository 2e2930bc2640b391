ID = 'c12-traceback-printed'
PROPERTY = 'C12'
NEEDS = 'A client that sends something the adapter cannot parse, no log file.'
BREAKS = 'The failure that ends the adapter is printed between the messages.'
FILE = 'adapter'
OLD = """        log.exception("Exception when running DA Server")
"""
NEW = """        traceback.print_exc(file=sys.stdout)
"""
DEMO = r'''import io
import json
import sys

from ansibug import _debug_adapter as da

out = io.BytesIO()
real, sys.stdout = sys.stdout, io.TextIOWrapper(out, write_through=True)


class Stdin:
    class buffer:
        class raw:
            @staticmethod
            def read(n):
                return b"Content-Length: 1\r\n\r\n{"


sys.stdin = Stdin
try:
    da.start_dap()
except BaseException:
    pass
sys.stdout.flush()
data = out.getvalue()
sys.stdout = real
while data:
    head, sep, rest = data.partition(b"\r\n\r\n")
    if not sep or not head.startswith(b"Content-Length: "):
        sys.exit(f"not a frame: {data[:80]!r}")
    n = int(head.split(b":")[1])
    json.loads(rest[:n])
    data = rest[n:]
'''

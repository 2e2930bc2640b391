ID = 'c12-raw-write'
PROPERTY = 'C12'
NEEDS = 'A client that reads slowly, so that not all of a message can be written at once.'
BREAKS = 'The messages are written to the unbuffered stream without looking at how much was written.'
FILE = 'adapter'
OLD = """        stdout = sys.stdout.buffer
"""
NEW = """        stdout = sys.stdout.buffer.raw
"""
DEMO = r'''
import io
import sys
import ansibug.dap as dap
from ansibug import _debug_adapter as da


class Slow(io.RawIOBase):
    def __init__(self):
        self.got = b""

    def writable(self):
        return True

    def write(self, data):
        self.got += bytes(data[:20])
        return min(len(data), 20)


slow = Slow()
server = da.DAServer()
real, sys.stdout = sys.stdout, io.TextIOWrapper(io.BufferedWriter(slow))
server.send_to_client(dap.InitializedEvent())
sys.stdout.flush()
sys.stdout = real
head, _, body = slow.got.partition(b"\r\n\r\n")
if len(body) != int(head.split(b":")[1]):
    sys.exit(f"VIOLATED: {slow.got}")
'''

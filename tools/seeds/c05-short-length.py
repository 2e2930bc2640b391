ID = "c05-short-length"
PROPERTY = "C05"
NEEDS = "A message of 64 KiB or more, such as a large variable."
BREAKS = "The length of a message is sent in two bytes, larger messages cannot be sent."
EDITS = [
    ("mpq", "b_len = len(b_data).to_bytes(4, byteorder=", "b_len = len(b_data).to_bytes(2, byteorder="),
    ("mpq", "b_data_len = self._socket.recv(4, self._cancel_token)", "b_data_len = self._socket.recv(2, self._cancel_token)"),
]
DEMO = """
import os
import sys
import threading
import ansibug.dap as dap
from ansibug._mp_queue import ClientMPQueue, MPProtocol, ServerMPQueue

got = []
done = threading.Event()


class Proto(MPProtocol):
    def on_msg_received(self, msg):
        got.append(msg)
        done.set()


server = ServerMPQueue("uds://", proto=Proto)
client = ClientMPQueue(server.address, proto=MPProtocol)
t = threading.Thread(target=server.start, kwargs={"timeout": 10}, daemon=True)
t.start()
client.start(timeout=10)
t.join()
try:
    client.send(dap.OutputEvent(output="x" * 100000, category="console"))
    done.wait(10)
except OverflowError as e:
    print(e)
if not got or len(got[0].output) != 100000:
    print("VIOLATED: the message was not delivered")
    sys.stdout.flush()
    os._exit(1)
client.stop()
server.stop()
"""

ID = 'c37-socket-left'
PROPERTY = 'C37'
NEEDS = 'A listening playbook that ends before a client has connected.'
BREAKS = 'The socket file is only removed when a client has been connected.'
FILE = 'mpq'
OLD = """        if self._uds_path:
            pathlib.Path(self._uds_path).unlink(missing_ok=True)

        super().stop()"""
NEW = """        connected = self._recv_thread is not None
        super().stop()

        if self._uds_path and connected:
            pathlib.Path(self._uds_path).unlink(missing_ok=True)"""
DEMO = r'''
import os
import sys
from ansibug._mp_queue import MPProtocol, ServerMPQueue

queue = ServerMPQueue("uds://", proto=MPProtocol)
path = queue.address[6:]
queue.stop()
if os.path.exists(path):
    os.unlink(path)
    sys.exit("VIOLATED: the socket file is still there")
'''

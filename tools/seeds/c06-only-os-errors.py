ID = 'c06-only-os-errors'
PROPERTY = 'C06'
NEEDS = 'A message that cannot be read, or whose handling fails.'
BREAKS = 'Only errors of the socket are reported, any other ends the receiving thread in silence.'
FILE = 'mpq'
OLD = """        except Exception as e:
            self._proto.connection_closed(e)
"""
NEW = """        except OSError as e:
            self._proto.connection_closed(e)
"""
DEMO = r'''
import os
import socket
import sys
import threading
from ansibug._mp_queue import MPProtocol, MPQueue
from ansibug._socket_helper import SocketHelper

closed = []


class Proto(MPProtocol):
    def connection_closed(self, exp):
        closed.append(exp)


threading.excepthook = lambda a: None
a, b = socket.socketpair()
queue = MPQueue(SocketHelper("test", a), Proto)
queue.start()
b.sendall((4).to_bytes(4, byteorder="little") + b"junk")
queue._recv_thread.join(10)
if len(closed) != 1 or closed[0] is None:
    print("VIOLATED:", closed)
    sys.stdout.flush()
    os._exit(1)
'''

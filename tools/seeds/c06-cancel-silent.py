ID = 'c06-cancel-silent'
PROPERTY = 'C06'
NEEDS = 'A connection that is stopped by this side while it is open.'
BREAKS = 'A cancelled connection is never reported as closed.'
FILE = 'mpq'
OLD = """        except CancelledError:
            self._proto.connection_closed(None)
"""
NEW = """        except CancelledError:
            pass
"""
DEMO = r'''
import os
import socket
import sys
from ansibug._mp_queue import MPProtocol, MPQueue
from ansibug._socket_helper import SocketHelper

closed = []


class Proto(MPProtocol):
    def connection_closed(self, exp):
        closed.append(exp)


a, b = socket.socketpair()
queue = MPQueue(SocketHelper("test", a), Proto)
queue.start()
queue.stop()
if closed != [None]:
    print("VIOLATED:", closed)
    sys.stdout.flush()
    os._exit(1)
'''

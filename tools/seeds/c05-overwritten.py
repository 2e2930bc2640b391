ID = 'c05-overwritten'
PROPERTY = 'C05'
NEEDS = 'A message that arrives in more than one piece.'
BREAKS = 'Every piece is read to the start of the buffer.'
FILE = 'sock'
OLD = """            data_read = cancel_token.recv_into(self._sock, view[read:], n - read)
"""
NEW = """            data_read = cancel_token.recv_into(self._sock, view, n - read)
"""
DEMO = r'''
import socket
import sys
import threading
import time
from ansibug._socket_helper import SocketCancellationToken, SocketHelper

a, b = socket.socketpair()
helper = SocketHelper("test", a)


def send():
    b.sendall(b"first ")
    time.sleep(0.5)
    b.sendall(b"second")


t = threading.Thread(target=send)
t.start()
got = helper.recv(12, SocketCancellationToken())
t.join()
if got != b"first second":
    sys.exit(f"VIOLATED: {got}")
'''

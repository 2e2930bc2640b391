ID = 'c05-partial-send'
PROPERTY = 'C05'
NEEDS = 'A message that is larger than what the socket takes at once.'
BREAKS = 'What the socket did not take at once is not sent.'
FILE = 'sock'
OLD = """                sock.sendall(data)
"""
NEW = """                sock.send(data)
"""
DEMO = r'''
import socket
import sys
import threading
from ansibug._socket_helper import SocketCancellationToken, SocketHelper

a, b = socket.socketpair()
a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
a.settimeout(5)
b.settimeout(3)
n = 4000000
got = 0


def read():
    global got
    try:
        while got < n and (data := b.recv(65536)):
            got += len(data)
    except OSError:
        pass


t = threading.Thread(target=read)
t.start()
helper = SocketHelper("test", a)
helper.send(b"x" * n, SocketCancellationToken())
t.join()
if got != n:
    sys.exit(f"VIOLATED: {got} of {n}")
'''

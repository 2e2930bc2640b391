ID = 'c36-mode-after-bind'
PROPERTY = 'C36'
NEEDS = 'Another user who connects between the creation of the socket and the change of its mode.'
BREAKS = 'The socket file is created with the default mode, it is restricted afterwards.'
FILE = 'sock'
OLD = """        try:
            # Works on Linux only
            os.fchmod(sock.fileno(), mask)
        except OSError as e:
            if e.errno != errno.EINVAL:  # pragma: nocover
                raise

            # fchmod doesn't work on other platforms like macOS. At this point
            # no thread should have started so it should be safe to use the
            # umask before binding the socket.
            original_umask = os.umask(~mask)

        sock.bind(addr)
"""
NEW = """        sock.bind(addr)
        os.chmod(addr, mask)
"""
DEMO = r'''
import os
import socket
import sys
import tempfile
from unittest import mock
from ansibug import _socket_helper

modes = []


class Socket(socket.socket):
    def bind(self, addr):
        super().bind(addr)
        modes.append(os.stat(addr).st_mode & 0o777)


os.umask(0o022)
with tempfile.TemporaryDirectory() as d, mock.patch.object(socket, "socket", Socket):
    _socket_helper.create_uds_with_mask(os.path.join(d, "s"), 0o700).close()
if modes != [0o700]:
    sys.exit(f"VIOLATED: {[oct(m) for m in modes]}")
'''

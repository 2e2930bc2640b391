ID = 'c32-password-stripped'
PROPERTY = 'C32'
NEEDS = 'A key password that starts or ends with a space.'
BREAKS = 'The password is stripped on its way to the debuggee.'
FILE = 'exec'
OLD = """        mode_env["ANSIBUG_TLS_SERVER_KEY_PASSWORD"] = tls_password
"""
NEW = """        mode_env["ANSIBUG_TLS_SERVER_KEY_PASSWORD"] = tls_password.strip()
"""
DEMO = r'''
import os
import sys
from unittest import mock
from ansibug import _exec_playbook as ep

called = []


def run(env, **kw):
    with mock.patch.dict(os.environ, env), mock.patch.object(os, "execve", lambda p, a, env: called.append(dict(env))), mock.patch.object(ep, "_configure_ansible_env", lambda: {}):
        ep.exec_playbook_listen(["main.yml"], "uds://", **kw)
    return called[-1]


import pathlib
env = run({}, use_tls=True, tls_cert=pathlib.Path("/tmp/x.pem"), tls_password=" secret ")
if env["ANSIBUG_TLS_SERVER_KEY_PASSWORD"] != " secret ":
    sys.exit("VIOLATED: the password is changed")
'''

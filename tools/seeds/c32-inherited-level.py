ID = 'c32-inherited-level'
PROPERTY = 'C32'
NEEDS = 'A log level in the environment of a playbook that is started with another one.'
BREAKS = 'The level of the command line is only used when there is none in the environment.'
FILE = 'exec'
OLD = """        ansible_env["ANSIBUG_LOG_LEVEL"] = log_level
"""
NEW = """        ansible_env.setdefault("ANSIBUG_LOG_LEVEL", log_level)
"""
DEMO = r'''
import os
import sys
from unittest import mock
from ansibug import _exec_playbook as ep

called = []


def run(env, **kw):
    with mock.patch.dict(os.environ, env), mock.patch.object(os, "execve", lambda p, a, env: called.append(dict(env))), mock.patch.object(ep, "_configure_ansible_env", lambda: {}):
        ep.exec_playbook_listen(["main.yml"], "uds://", **kw)
    return called[-1]


import pathlib
env = run({"ANSIBUG_LOG_LEVEL": "error"}, log_file=pathlib.Path("/tmp/x.log"), log_level="debug")
if env["ANSIBUG_LOG_LEVEL"] != "debug":
    sys.exit(f"VIOLATED: {env['ANSIBUG_LOG_LEVEL']}")
'''

ID = 'c33-python-path-first'
PROPERTY = 'C33'
NEEDS = 'A PYTHONPATH with more than one folder.'
BREAKS = 'Only the first folder of the PYTHONPATH is kept.'
FILE = 'exec'
OLD = """    python_path.insert(0, str(ansibug_path.parent))
"""
NEW = """    python_path[:] = [str(ansibug_path.parent), *python_path[:1]]
"""
DEMO = r'''
import json
import os
import subprocess
import sys
from unittest import mock
from ansibug import _exec_playbook as ep

dump = [{"name": "CALLBACKS_ENABLED", "origin": "default", "value": ["one", "two"]}, {"name": "COLLECTIONS_PATHS", "origin": "default", "value": ["/a", "/b"]}]


def configure(env=None):
    with mock.patch.dict(os.environ, env or {}), mock.patch.object(subprocess, "run", lambda *a, **k: mock.Mock(stdout=json.dumps(dump).encode())):
        return ep._configure_ansible_env()


got = configure({"PYTHONPATH": "/one" + os.pathsep + "/two"})["PYTHONPATH"].split(os.pathsep)
if got[1:] != ["/one", "/two"]:
    sys.exit(f"VIOLATED: {got}")
'''

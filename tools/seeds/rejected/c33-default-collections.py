ID = 'c33-default-collections'
PROPERTY = 'C33'
NEEDS = "Collections in Ansible's default folders, with no folder configured."
BREAKS = 'The default folders are not searched any more, only configured ones are kept.'
FILE = 'exec'
OLD = """            collections_path.extend(config_entry["value"])
"""
NEW = """            if config_entry.get("origin") != "default":
                collections_path.extend(config_entry["value"])
"""
DEMO = r'''
import json
import os
import subprocess
import sys
from unittest import mock
from ansibug import _exec_playbook as ep

dump = [{"name": "CALLBACKS_ENABLED", "origin": "default", "value": ["one", "two"]}, {"name": "COLLECTIONS_PATHS", "origin": "default", "value": ["/a", "/b"]}]


def configure(env=None):
    with mock.patch.dict(os.environ, env or {}), mock.patch.object(subprocess, "run", lambda *a, **k: mock.Mock(stdout=json.dumps(dump).encode())):
        return ep._configure_ansible_env()


got = configure()["ANSIBLE_COLLECTIONS_PATH"].split(os.pathsep)
if got[1:] != ["/a", "/b"]:
    sys.exit(f"VIOLATED: {got}")
'''

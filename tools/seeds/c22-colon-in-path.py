import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c22-colon-in-path'
PROPERTY = 'C22'
NEEDS = 'A playbook in a folder whose name has a colon.'
BREAKS = "The line is taken after the first colon, registering the playbook's locations fails."
FILE = 'bp'
OLD = """    split = task_path.rsplit(":", 1)
    return split[0], int(split[1])
"""
NEW = """    path, _, line = task_path.partition(":")
    return path, int(line.rsplit(":", 1)[-1])
"""
DEMO = STRATEGY + '''
from ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints import register_block_breakpoints
seen = []
dbg = NS(register_path_breakpoint=lambda *a: seen.append(a))
block = Block()
block.block = [new_task("/play/a:b.yml:7")]
block.get_path = lambda: None
register_block_breakpoints(dbg, [block])
if seen != [("/play/a:b.yml", 7, 1)]:
    fail(f"registered {seen}")
'''

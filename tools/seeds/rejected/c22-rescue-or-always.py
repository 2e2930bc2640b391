import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c22-rescue-or-always'
PROPERTY = 'C22'
NEEDS = 'A block that has both a rescue and an always section.'
BREAKS = 'The tasks of the always section are only registered when there is no rescue section.'
FILE = 'bp'
OLD = """        task_list.extend(block.rescue)
        task_list.extend(block.always)
"""
NEW = """        task_list.extend(block.rescue or block.always)
"""
DEMO = STRATEGY + '''
from ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints import register_block_breakpoints
seen = []
dbg = NS(register_path_breakpoint=lambda *a: seen.append(a))
block = Block()
block.get_path = lambda: "/play/a.yml:1"
block.block, block.rescue, block.always = [new_task("/play/a.yml:3")], [new_task("/play/a.yml:5")], [new_task("/play/a.yml:7")]
register_block_breakpoints(dbg, [block])
if sorted(x[1] for x in seen) != [1, 3, 5, 7]:
    fail(f"registered {seen}")
'''

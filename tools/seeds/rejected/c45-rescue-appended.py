import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c45-rescue-appended'
PROPERTY = 'C45'
NEEDS = 'A block with a rescue section that is scanned for breakpoints.'
BREAKS = "The rescue and always tasks are added to the block's own list of tasks, the playbook runs them without a failure."
FILE = 'bp'
OLD = """        task_list: list[Task] = block.block[:]
"""
NEW = """        task_list: list[Task] = block.block
"""
DEMO = STRATEGY + r'''
from ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints import register_block_breakpoints
block = Block()
block.block, block.rescue = [new_task()], [new_task()]
block.get_path = lambda: None
register_block_breakpoints(NS(register_path_breakpoint=lambda *a: None), [block])
if len(block.block) != 1:
    fail(f"the block has {len(block.block)} tasks")
'''

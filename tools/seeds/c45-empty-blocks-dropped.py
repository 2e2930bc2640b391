import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c45-empty-blocks-dropped'
PROPERTY = 'C45'
NEEDS = 'An included file with an empty block.'
BREAKS = 'Blocks without tasks are left out of what Ansible returned.'
FILE = 'strategy'
OLD = """        return included_blocks
"""
NEW = """        return [b for b in included_blocks if b.has_tasks()]
"""
DEMO = STRATEGY + r'''
from ansible.plugins.strategy.linear import StrategyModule as Linear
blocks = [Block(), Block()]
for b in blocks:
    b.get_path = lambda: None
module = strat.StrategyModule.__new__(strat.StrategyModule)
module._debug_state = new_state()
with mock.patch.object(Linear, "_load_included_file", lambda self, *a, **k: blocks):
    got = module._load_included_file(None, None)
if got != blocks:
    fail(f"{len(got)} of {len(blocks)} blocks returned")
'''

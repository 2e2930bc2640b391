import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c24-nearest-block'
PROPERTY = 'C24'
NEEDS = 'A task that fails in a block without rescue that is itself in a block with one.'
BREAKS = 'Only the nearest block is asked for a rescue, a rescued failure stops the playbook as if it were uncaught.'
FILE = 'strategy'
OLD = """                if isinstance(task, Block) and task.rescue:
                    is_rescued = True
                    break
"""
NEW = """                if isinstance(task, Block):
                    is_rescued = bool(task.rescue)
                    break
"""
DEMO = STRATEGY + '''
thread = strat.AnsibleThread(id=2, host=Host("h1"))
outer = Block()
outer.rescue = [new_task()]
inner = Block(parent_block=outer)
task = new_task(parent=inner)
ev = thread.should_stop_on_exception(new_result(Host("h1"), task, {"msg": "bad"}, failed=True), True, True, True)
if ev:
    fail("stopped on a failure that is rescued")
free = new_task(parent=Block())
if not thread.should_stop_on_exception(new_result(Host("h1"), free, {"msg": "bad"}, failed=True), True, True, True):
    fail("did not stop on an uncaught failure")
'''

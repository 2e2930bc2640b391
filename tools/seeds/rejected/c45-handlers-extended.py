import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c45-handlers-extended'
PROPERTY = 'C45'
NEEDS = 'A play with handlers.'
BREAKS = 'The blocks of the play are added to its handlers, a handler is looked up among all tasks.'
FILE = 'bp'
OLD = """        play_blocks = play.compile() + play.handlers
"""
NEW = """        play_blocks = play.handlers
        play_blocks += play.compile()
"""
DEMO = STRATEGY + r'''
from ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints import register_play_breakpoints


def block():
    b = Block()
    b.block = [new_task()]
    b.get_path = lambda: None
    return b


play = NS(get_path=lambda: "/play/main.yml:1", handlers=[block()], roles=[], compile=lambda: [block()])
register_play_breakpoints(NS(register_path_breakpoint=lambda *a: None), [play])
if len(play.handlers) != 1:
    fail(f"the play has {len(play.handlers)} blocks of handlers")
'''

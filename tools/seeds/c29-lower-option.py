import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c29-lower-option'
PROPERTY = 'C29'
NEEDS = 'An option whose name is not in lower case.'
BREAKS = 'The name to remove is changed to lower case, another option is removed or none.'
FILE = 'repl'
OLD = """    remove_option.add_argument(
        "name",
"""
NEW = """    remove_option.add_argument(
        "name",
        type=str.lower,
"""
DEMO = STRATEGY + r'''
from ansible_collections.ansibug.dap.plugins.plugin_utils._repl_util import parse_repl_args
got = parse_repl_args("ro SRC")
if got.name != "SRC":
    fail(f"removes {got.name}")
'''

import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c45-exception-taken'
PROPERTY = 'C45'
NEEDS = 'A failed task with an exception and a client that stops on failures.'
BREAKS = 'What is shown at the stop is taken out of the result, the callbacks and registered variables miss the exception.'
FILE = 'bp'
OLD = """    if exc := result.get("exception"):
"""
NEW = """    if exc := result.pop("exception", None):
"""
DEMO = STRATEGY + r'''
from ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints import get_on_failed_details
res = {"msg": "bad", "exception": "Traceback"}
get_on_failed_details(res)
if res != {"msg": "bad", "exception": "Traceback"}:
    fail(f"the result is {res}")
'''

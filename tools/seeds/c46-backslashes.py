import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c46-backslashes'
PROPERTY = 'C46'
NEEDS = 'An expression with a string that has a backslash.'
BREAKS = 'A backslash in an entered string is taken as an escape, which it is not in a task.'
FILE = 'strategy'
OLD = """        return templar.template(expression)
"""
NEW = """        return templar.template(expression, escape_backslashes=False)
"""
DEMO = STRATEGY + r'''
state = new_state()
got = state._template("'a\\tb'", {})
if got != "a\\tb":
    fail(f"evaluated to {got!r}")
'''

import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c46-loader-less'
PROPERTY = 'C46'
NEEDS = 'An expression that reads a file, with a relative path.'
BREAKS = 'Lookups do not search where those of the task do.'
FILE = 'strategy'
OLD = """        templar = Templar(loader=self._loader, variables=variables)
        expression ="""
NEW = """        templar = Templar(loader=None, variables=variables)
        expression ="""
DEMO = STRATEGY + r'''
import tempfile
state = new_state()
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "f.txt"), "w") as fd:
        fd.write("here")
    state._loader.set_basedir(d)
    try:
        got = state._template("lookup('file', 'f.txt')", {})
    except Exception as e:
        got = e
if got != "here":
    fail(f"evaluated to {got!r}")
'''

import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c44-after-the-end'
PROPERTY = 'C44'
NEEDS = 'A breakpoint set after the last known location of a file.'
BREAKS = 'A request that is past the table ends one line after what is known.'
FILE = 'debuggee'
OLD = """        start_line = min(line, len(file_lines) - 1)
        end_line = start_line + 1
"""
NEW = """        start_line = min(line, len(file_lines) - 1)
        end_line = line + 1
"""
DEMO = STRATEGY + r'''
bp = debugger._calculate_breakpoint(1, dap.Source(path="x"), 9, [0, None, 1])
if (bp.line, bp.end_line) != (2, 2):
    fail(f"lines {bp.line}-{bp.end_line}")
'''

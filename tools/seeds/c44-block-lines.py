import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c44-block-lines'
PROPERTY = 'C44'
NEEDS = 'A task right before an explicit block.'
BREAKS = 'A location that is no task does not end the range of the one before, the reported lines reach into the next block.'
FILE = 'debuggee'
OLD = """        while end_line < len(file_lines) and file_lines[end_line] is None:
"""
NEW = """        while end_line < len(file_lines) and not file_lines[end_line]:
"""
DEMO = STRATEGY + r'''
bp = debugger._calculate_breakpoint(1, dap.Source(path="x"), 2, [0, None, 1, None, 0, None, 1])
if (bp.line, bp.end_line) != (2, 3):
    fail(f"lines {bp.line}-{bp.end_line}")
'''

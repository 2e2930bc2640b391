import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c23-mapped-twice'
PROPERTY = 'C23'
NEEDS = 'Two path mappings where what the first one gives starts with the local root of the second.'
BREAKS = 'A path is converted by every mapping that fits, not only the first.'
FILE = 'debuggee'
OLD = """                actual_path = mapping.remote_root + actual_path[len(mapping.local_root) :]
                break
"""
NEW = """                actual_path = mapping.remote_root + actual_path[len(mapping.local_root) :]
"""
DEMO = STRATEGY + '''
debugger.process_message(dap.OutputEvent(output="", category=DebugConfiguration.OUTPUT_CATEGORY, data=DebugConfiguration(path_mappings=[PathMapping("/local", "/srv"), PathMapping("/srv", "/other")])))
debugger.register_path_breakpoint("/srv/main.yml", 5, 1)
breakpoint_at("/local/main.yml", 5)
if not debugger.get_breakpoint("/srv/main.yml", 5, lambda c: True):
    fail("not mapped to the file that is run")
if debugger.convert_to_client_path("/srv/main.yml") != "/local/main.yml":
    fail("not mapped back")
'''

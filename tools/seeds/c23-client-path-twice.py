import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c23-client-path-twice'
PROPERTY = 'C23'
NEEDS = 'Two path mappings where the local root of the first starts with the remote root of the second.'
BREAKS = 'A path shown to the client is converted by every mapping that fits, not only the first.'
FILE = 'debuggee'
OLD = """            if path.startswith(mapping.remote_root):
                return mapping.local_root + path[len(mapping.remote_root) :]

        else:
            return path
"""
NEW = """            if path.startswith(mapping.remote_root):
                path = mapping.local_root + path[len(mapping.remote_root) :]

        return path
"""
DEMO = STRATEGY + '''
debugger.process_message(dap.OutputEvent(output="", category=DebugConfiguration.OUTPUT_CATEGORY, data=DebugConfiguration(path_mappings=[PathMapping("/home", "/srv"), PathMapping("/c", "/home")])))
if debugger.convert_to_client_path("/srv/main.yml") != "/home/main.yml":
    fail(debugger.convert_to_client_path("/srv/main.yml"))
'''

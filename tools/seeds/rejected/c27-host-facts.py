import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c27-host-facts'
PROPERTY = 'C27'
NEEDS = 'A host variable that is edited and also defined in the inventory or by set_fact.'
BREAKS = 'An edited host variable is stored as a fact, which other variables take precedence over.'
FILE = 'strategy'
OLD = """        self._variable_manager.set_host_variable(self._host, index, value)
"""
NEW = """        self._variable_manager.set_host_facts(self._host, {index: value})
"""
DEMO = STRATEGY + r'''
manager = mock.MagicMock()
var = strat.AnsibleHostVarsVariable(1, NS(), {}, "h1", manager)
var.set("a", 1)
if manager.set_host_variable.call_args != mock.call("h1", "a", 1):
    fail(f"stored by {manager.mock_calls}")
'''

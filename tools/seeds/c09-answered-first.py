import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c09-answered-first'
PROPERTY = 'C09'
NEEDS = 'A step out of a thread that is no longer there.'
BREAKS = 'The response is queued before the step is made, the step that fails is answered a second time.'
FILE = 'debuggee'
OLD = """        strategy.step_out(msg)
        self.queue_msg(dap.StepOutResponse(request_seq=msg.seq))
"""
NEW = """        self.queue_msg(dap.StepOutResponse(request_seq=msg.seq))
        strategy.step_out(msg)
"""
DEMO = STRATEGY + '''
state = new_state()
with debugger.with_strategy(state):
    req = dap.StepOutRequest(thread_id=99)
    req.seq = 4
    debugger._proto.on_msg_received(req)
    msgs = [m for m in took(dap.Response) if m.request_seq == 4]
    if len(msgs) != 1:
        fail(f"{len(msgs)} responses")
'''

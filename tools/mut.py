"""usage: mut.py FILE  - FILE holds cases: '### PIDS path' then old / '=====' / new"""
import subprocess, sys, os, shutil, pathlib, re
R=pathlib.Path('/repo')
AL={'adapter':'src/ansibug/_debug_adapter.py','debuggee':'src/ansibug/_debuggee.py','mpq':'src/ansibug/_mp_queue.py','sock':'src/ansibug/_socket_helper.py','tls':'src/ansibug/_tls.py','main':'src/ansibug/__main__.py','exec':'src/ansibug/_exec_playbook.py','strategy':'src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py','callback':'src/ansibug/ansible_collections/ansibug/dap/plugins/callback/debug.py','dap':'src/ansibug/dap/_adapter.py','msgs':'src/ansibug/dap/_messages.py','req':'src/ansibug/dap/_requests.py','resp':'src/ansibug/dap/_responses.py','ev':'src/ansibug/dap/_events.py','types':'src/ansibug/dap/_types.py','repl':'src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py','bp':'src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_breakpoints.py'}
txt=open(sys.argv[1]).read()
from concurrent.futures import ThreadPoolExecutor
def build(d,fn,body):
    """Apply the case's edits ('@@@ [alias]' starts a further edit)."""
    bits=re.split(r'^@@@ ?(.*)\n',body,flags=re.M)
    edits=[(fn,bits[0])]+[(AL.get(bits[k],bits[k]) or fn,bits[k+1]) for k in range(1,len(bits),2)]
    for name,text in edits:
        old,_,new=('\n'+text).partition('\n=====\n'); old=old[1:].rstrip('\n'); new=new.rstrip('\n')
        f=d/name; s=f.read_text()
        if s.count(old)!=1: return f'count={s.count(old)}: {old[:60]!r}'
        f.write_text(s.replace(old,new))
    return None
def one(ix_case):
    i,case=ix_case
    head,_,body=case.partition('\n')
    parts=head.split()
    want=parts[0]; pids=parts[1].split(','); fn=AL.get(parts[2],parts[2])
    d=pathlib.Path(f'/tmp/m/{i}')
    if d.exists(): shutil.rmtree(d)
    shutil.copytree(R/'src',d/'src')
    bad=build(d,fn,body)
    new=body.partition('\n=====\n')[2]
    if bad: return f'[{i}] BAD CASE {bad}'
    out=[]
    for pid in pids:
        r=subprocess.run([sys.executable,'/verif/check.py',pid],env={**os.environ,'SA_REPO':str(d),'SA_EVIDENCE':f'/tmp/m/ev{i}'},capture_output=True,text=True)
        ok={'V':r.returncode==1,'Q':r.returncode==0}[want]
        o=r.stdout+r.stderr
        fi=[l for l in o.splitlines() if 'finding' in l or 'ERROR' in l or 'Error' in l]
        out.append(f"[{i}] {'ok  ' if ok else 'WRONG'} want={want} rc={r.returncode} {pid} {fi[0][:170] if fi else ''} :: {new.strip().splitlines()[0][:50] if new.strip() else ''}")
    shutil.rmtree(d)
    return '\n'.join(out)
cases=[c for c in re.split(r'^### ',txt,flags=re.M) if c.strip()]
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one,enumerate(cases)): print(r)

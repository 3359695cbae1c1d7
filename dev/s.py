import sys,os
sys.path.insert(0,'/verif/engine');sys.path.insert(0,'/verif/rules')
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512<<20)
import build
from core import *
def main():
    units=sys.argv[1].split(',')
    prog=build.load([u if not u.startswith('h:') else '/verif/harness/'+u[2:] for u in units])
    for pat in sys.argv[2:]:
        fs=[f for f in prog.funcs.values() if f.qn==pat or (pat.endswith('*') and f.qn.startswith(pat[:-1]))]
        for f in fs:
            print('=====',f.qn,f.where(), f.cls)
            I=Interp(prog); I.hooks=base_hooks()
            try:
                ret,st=I.run(f)
            except Exception as e:
                import traceback; traceback.print_exc(); continue
            print(' ret',show(I.freeze(ret))[:1500] if ret is not None else None)
            print(' g',show(st.g)[:300])
            for e in I.events:
                print('  ',e.kind,e.name,'L%d'%e.line,'args=',[show(x)[:160] for x in e.args] if e.args else '', 'loc=',show(e.loc)[:160] if getattr(e,'loc',None) is not None else '','val=',show(e.val)[:200] if isinstance(getattr(e,'val',None),(T,N)) else '','g=',show(e.g)[:200])
            if I.notes: print(' notes',list(I.notes)[:10])
t=threading.Thread(target=main);t.start();t.join()

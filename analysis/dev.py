import sys
sys.path.insert(0,'/verif/analysis')
from engine import *
import models
P=Program('/tmp/w/mir.json')
def find(pat): return [f for f in P.fns.values() if re.search(pat,f.id)]
def run(fid,**kw):
    f=P.fns.get(fid) or find(fid)[0]
    e=Engine(P,**kw); return e.analyse(f)
if __name__=='__main__':
    s=run(sys.argv[1])
    print('ret',s.ret); 
    print('ok',s.ok); print('eff',s.eff); print('notes',s.notes, s.eng.ext)
    if s.st:
        for k,v in s.st.env.items():
            if k[0] in 'PM': print('MEM',k[0],show(k[1]),'=',v)

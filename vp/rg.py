import sys, time
import goals, gdecaf, dep, lemmas
from goals import *
import os; E=Env(f'{os.environ.get("D","/tmp/d")}/{sys.argv[1]}.json', sys.argv[1])
for a in sys.argv[2:]:
    n,*r=a.split(':'); t=time.time(); n0=E.log.n; f0=len(E.log.failed)
    (getattr(goals,n,None) or getattr(gdecaf,n,None) or getattr(dep,n,None) or getattr(lemmas,n))(E,*r)
    print(f'{a:30} obl {E.log.n-n0} failed {len(E.log.failed)-f0} {time.time()-t:.1f}s')
    for f in E.log.failed[f0:][:4]: print('   ', str(f)[:900])

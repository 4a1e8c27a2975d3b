import sys,os; sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/checks')
sys.setrecursionlimit(20000)
import linker, par
linker.models()
cs=linker.layout_cases(False)
jobs=[(0,c) for c in cs]+[(1,c) for c in cs if c[1] in ("full","databss")]
def f(j):
    try: return linker.one(j)
    except Exception as e: return (str(j),[("%s|EXC"%str(j[1]),"",str(e)[:200])],0,0,0,0)
from collections import Counter
c=Counter(); first={}
for r in par.pmap(f,jobs,1):
    for k,w,m in r[1]:
        g=linker.group(k) if not k.endswith("EXC") else "EXC"
        c[g]+=1; first.setdefault(g,(k,w[:60],m[:120]))
print("   =>",dict(c) or "MISSED")
for g in first: print("     ",g,first[g])

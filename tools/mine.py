import sys, random, time, json, collections
sys.path.insert(0,'/repo')
import sudokutools.solvers as sv
from sudokutools.generate import generate
from sudokutools.sudoku import Sudoku
def measure(s):
    # rounds: changes of class approximated by counting (class, restart)
    out=[0]
    h=collections.Counter()
    class Cnt: pass
    first=sv.SOLVERS[0]
    def f(step): h[type(step).__name__]+=1
    calls[0]=0
    r=sv.solve(s,f)
    return calls[0],h
calls=[0]
orig=sv.CalculateCandidates.find.__func__
class CC(sv.CalculateCandidates):
    @classmethod
    def find(cls,s):
        calls[0]+=1
        return orig(sv.CalculateCandidates,s)
CC.__name__='CalculateCandidates'
sv.SOLVERS[0]=CC
seed=int(sys.argv[1]); shape=eval(sys.argv[2]); T=float(sys.argv[3])
random.seed(seed*1000+shape[0]*10+shape[1]); t0=time.time(); res=[]
while time.time()-t0<T:
    s=generate(box_size=shape)
    r,h=measure(s)
    res.append((r,dict(h),[s[rc] for rc in s]))
json.dump(res,open('/tmp/mine-%dx%d-%d.json'%(shape[0],shape[1],seed),'w'))

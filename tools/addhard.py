import json,glob,collections,random
P='/verif/dst/pool.json'
p=json.load(open(P))
for sh in "2x3 3x2 3x3 2x4 4x2 2x5 5x2 3x4 4x3".split():
    rows=[]
    for f in sorted(glob.glob('/tmp/mine-%s-*.json'%sh)): rows+=json.load(open(f))
    cl=collections.Counter()
    for r,h,g in rows: cl.update(h.keys())
    print(sh,len(rows),sorted((r for r,_,_ in rows))[-5:],dict(cl))
    pick=[]
    def add(x):
        if x[2] not in pick: pick.append(x[2])
    for x in sorted(rows,key=lambda x:-x[0])[:12]: add(x)
    for c in cl:
        # rare classes: few steps of others first
        xs=[x for x in rows if c in x[1]]
        xs.sort(key=lambda x:-x[1][c])
        for x in xs[:4]: add(x)
    for k in p: pass
    p[sh]["hard"]=pick
    print("  picked",len(pick))
s=json.dumps(p,separators=(',',':'))
print(len(s)); open('/tmp/pool.new.json','w').write(s)

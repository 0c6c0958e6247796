"""Exact shanten by distance to the nearest complete hand: per suit, the cheapest completion to
s sets and p pairs (over all tile patterns with at most four copies), combined by dynamic programming."""
import numpy as np, functools, itertools
def _targets(n, chi):
    blocks=[tuple(3 if j==i else 0 for j in range(n)) for i in range(n)]
    if chi: blocks+=[tuple(1 if i<=j<i+3 else 0 for j in range(n)) for i in range(n-2)]
    cur={(0,)*n}; res={}
    for s in range(5):
        for pr in (0,1):
            L=set()
            for v in cur:
                if pr==0: L.add(v)
                else:
                    for p in range(n):
                        w=list(v); w[p]+=2
                        if w[p]<=4: L.add(tuple(w))
            res[s,pr]=np.array(sorted(L) or np.zeros((0,n)),dtype=np.int8).reshape(-1,n)
        nxt=set()
        for v in cur:
            for b in blocks:
                w=tuple(a+c for a,c in zip(v,b))
                if max(w)<=4: nxt.add(w)
        cur=nxt
    return res
TS=_targets(9,True); TZ=_targets(7,False)
@functools.lru_cache(None)
def tab(v):
    T=TS if len(v)==9 else TZ
    h=np.array(v,dtype=np.int8); out={}
    for k,t in T.items():
        if len(t): out[k]=int(np.maximum(t-h,0).sum(1).min())
    return out
def exact_normal(h34):
    n=sum(h34); need=n//3 if n%3 else None  # sets needed
    dist={(0,0):0}
    for v in (tuple(h34[0:9]),tuple(h34[9:18]),tuple(h34[18:27]),tuple(h34[27:34])):
        t=tab(v); nd={}
        for (s,p),d in dist.items():
            for (s2,p2),d2 in t.items():
                if s+s2<=need and p+p2<=1:
                    k=(s+s2,p+p2); x=d+d2
                    if x<nd.get(k,99): nd[k]=x
        dist=nd
    return dist[need,1]-1
def exact(h34):
    r=exact_normal(h34)
    if sum(h34)>=13:
        pairs=sum(c>=2 for c in h34); kinds=sum(c>=1 for c in h34)
        r=min(r,6-pairs+max(0,7-kinds))
        Y=[0,8,9,17,18,26,27,28,29,30,31,32,33]
        r=min(r,13-sum(h34[i]>=1 for i in Y)-(1 if any(h34[i]>=2 for i in Y) else 0))
    return r

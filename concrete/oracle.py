"""Independent oracles (nothing of /repo is used here).

mincost(h, M, P): fewest tiles to add to the 34-count hand h (at most four of a kind in the end) so that it contains
M melds and P pairs, by dynamic programming over the nine ranks of each suit; pairs_cost: the same for seven pairs.
"""
from collections import defaultdict
KINDS = [(n, c) for c in 'mps' for n in range(1, 10)] + [(n, 'z') for n in range(1, 8)]
NAMES = ['%d%s' % k for k in KINDS]
from functools import lru_cache
INF=99
@lru_cache(maxsize=None)
def suit(h, M, P, honor):
    """min cost table [(m,p)] for one suit given counts tuple h"""
    n=len(h)
    from collections import defaultdict
    st={(0,0,0,0):0} # f_{i-1}, f_{i-2}, m, p
    for i in range(n):
        ns={}
        for (a,b,m,p),c in st.items():
            for f in range(0, 1 if (honor or i>n-3) else 5):
                for k in range(0,2):
                    for q in range(0,3):
                        use=2*q+3*k+f+a+b
                        if use>4 or m+f+k>M or p+q>P: continue
                        key=(f,a,m+f+k,p+q)
                        cc=c+max(0,use-h[i])
                        if ns.get(key,INF)>cc: ns[key]=cc
        st=ns
    out={}
    for (a,b,m,p),c in st.items():
        out[(m,p)]=min(out.get((m,p),INF),c)
    return tuple(sorted(out.items()))
def mincost(h34,M,P):
    tot={(0,0):0}
    for s in range(4):
        hh=tuple(h34[9*s:9*s+9]) if s<3 else tuple(h34[27:])
        o=suit(hh,M,P,s==3)
        nt={}
        for (m,p),c in tot.items():
            for (m2,p2),c2 in o:
                if m+m2<=M and p+p2<=P:
                    k=(m+m2,p+p2)
                    if nt.get(k,INF)>c+c2: nt[k]=c+c2
        tot=nt
    return tot[(M,P)]
def pairs_cost(h34,P):
    v=sorted(2-min(2,x) for x in h34)
    return sum(v[:P])
def shanten(h34,M=4,P=1): return mincost(h34,M,P)-1
def useful(h34,f):
    s=f(h34); r=set()
    for i in range(34):
        if h34[i]<4:
            g=list(h34); g[i]+=1
            if f(g)<s: r.add(i)
    return r

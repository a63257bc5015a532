import itertools,sys
def setup(p):
    nr=next(a for a in range(2,p) if pow(a,(p-1)//2,p)==p-1)
    if p%4==3: nr=p-1
    def mul(a,b): return ((a[0]*b[0]+nr*a[1]*b[1])%p,(a[0]*b[1]+a[1]*b[0])%p)
    def pw(a,e):
        r=(1,0)
        while e:
            if e&1: r=mul(r,a)
            a=mul(a,a); e>>=1
        return r
    def inv(a):
        n=pow((a[0]*a[0]-nr*a[1]*a[1])%p,-1,p); return (a[0]*n%p,-a[1]*n%p)
    return nr,mul,pw,inv
def add(a,b,p): return ((a[0]+b[0])%p,(a[1]+b[1])%p)
def sub(a,b,p): return ((a[0]-b[0])%p,(a[1]-b[1])%p)
def ecadd(P,Q,p,mul,inv):
    if P is None: return Q
    if Q is None: return P
    if P[0]==Q[0]:
        if add(P[1],Q[1],p)==(0,0): return None
        x2=mul(P[0],P[0]); l=mul(((3*x2[0])%p,(3*x2[1])%p),inv(add(P[1],P[1],p)))
    else: l=mul(sub(Q[1],P[1],p),inv(sub(Q[0],P[0],p)))
    x=sub(sub(mul(l,l),P[0],p),Q[0],p)
    return (x,sub(mul(l,sub(P[0],x,p)),P[1],p))
def ecmul(k,P,p,mul,inv):
    R=None
    while k:
        if k&1: R=ecadd(R,P,p,mul,inv)
        P=ecadd(P,P,p,mul,inv); k>>=1
    return R
def run(name,p,r):
    nr,mul,pw,inv=setup(p)
    # G1
    for b in range(1,p):
        sq={}
        for y in range(p): sq.setdefault(y*y%p,[]).append(y)
        n=1+sum(len(sq.get((x**3+b)%p,[])) for x in range(p))
        if n%r==0: break
    else: print("no G1"); return
    co=n//r
    for x in range(p):
        ys=sq.get((x**3+b)%p)
        if ys:
            P=ecmul(co,((x,0),(ys[0],0)),p,mul,inv)
            if P and ecmul(r,P,p,mul,inv) is None: break
    print(name,p,r,'nr',nr,'b',b,'n1',n,'G1',P[0][0],P[1][0])
    # Fp2 squares
    sq2={}
    for y in itertools.product(range(p),repeat=2): sq2.setdefault(mul(y,y),y)
    cnt={}
    for xi in itertools.product(range(p),range(1,p)):
        if pw(xi,(p*p-1)//2)==(1,0) or pw(xi,(p*p-1)//3)==(1,0): continue
        for t in 'DM':
            if t in cnt: continue
            bb=mul((b,0),inv(xi) if t=='D' else xi)
            # order check by sampling: order is a multiple of r
            n=1
            for x in itertools.product(range(p),repeat=2):
                v=add(mul(mul(x,x),x),bb,p)
                if v==(0,0): n+=1
                elif v in sq2: n+=2
            if n%r: continue
            for x in itertools.product(range(p),repeat=2):
                v=add(mul(mul(x,x),x),bb,p)
                if v in sq2:
                    Q=ecmul(n//r,(x,sq2[v]),p,mul,inv)
                    if Q and ecmul(r,Q,p,mul,inv) is None: break
            qx=pw(xi,(p-1)//3); qy=pw(xi,(p-1)//2)
            if t=='M': qx=inv(qx); qy=inv(qy)
            cnt[t]=1
            print(' ',t,'xi',xi,'bb',bb,'n2',n,'G2',Q,'qx',qx,'qy',qy,flush=True)
        if len(cnt)==2: break
for a in sys.argv[1:]:
    n,p,r=a.split(','); run(n,int(p),int(r))

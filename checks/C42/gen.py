import random,sys,os
out,seed,tier=sys.argv[1],int(sys.argv[2]),sys.argv[3]
R=random.Random(seed*7919+1); th=tier=="thorough"
def V(l): return "V{"+",".join("%d"%x for x in l)+"}"
def K(x): return "K<%d>"%x
def ty(x): return {2001:"int",2002:"char",2003:"void"}.get(x) or ("O<%d>"%(x-1000) if x>=1000 else K(x))
TL=[("type_tuple","sprout::types::type_tuple<%s>"),("std::tuple","std::tuple<%s>"),("sprout::tuple","sprout::tuples::tuple<%s>")]
VL=[("integral_array","sprout::types::integral_array",("int","short","signed char","long long")),("integer_sequence","sprout::integer_sequence",("int","long")),("index_tuple","sprout::integer_sequence",("std::ptrdiff_t",)),("basic_string","sprout::types::basic_string",("int","short"))]
def rlist(n,plain):
    pool=[R.randrange(-6,9) for _ in range(max(2,n//2+1))]
    if plain: pool+=[1000+R.randrange(4) for _ in range(2)]+R.sample([2001,2002],1)
    return [R.choice(pool) for _ in range(n)]
files=8 if th else 2
for fi in range(files):
    o=['#include "%s/ty.hpp"'%os.path.dirname(os.path.abspath(__file__))]
    body={"types":[], "constants":[], "indexes":[]}
    for rep in range(6 if not th else 20):
        n=R.choice([0,1,2,3,4,5,6,7,8,9,11,16,17,23]) if rep>1 else rep*3
        nm,t=R.choice(TL[:1]+TL) if n else TL[0]
        plain=R.random()<.5
        l=rlist(n,plain); T=t%",".join(map(ty,l)); ts=rlist(R.randrange(0,5),plain); x=R.choice(l) if l and R.random()<.75 else R.choice([77,1009])
        b=body["types"]
        b.append('any<%s, %s>("%s",%s,%s);'%(T,ty(x),nm,V(l),V(ts)))
        if n: b.append('shape<%s>("%s",%s);'%(T,nm,V(l)))
        b.append('grow<%s>("%s",%s,%s);'%(", ".join([T]+[ty(q) for q in ts]),nm,V(l),V(ts)))
        a,c=rlist(R.randrange(0,6),plain),rlist(R.randrange(0,6),plain)
        b.append('joined<%s, %s, %s>("%s",%s,%s,%s);'%(T,R.choice(TL)[1]%",".join(map(ty,a)),TL[0][1]%",".join(map(ty,c)),nm,V(l),V(a),V(c)))
    for rep in range(6 if not th else 20):
        n=R.choice([0,1,2,3,4,5,7,8,13,16,21]) if rep>1 else rep*2+1
        l=rlist(n,False); b=body["constants"]
        if rep%2:
            nm,t,vt=R.choice(VL); vt=R.choice(vt); vt="int" if vt=="signed char" and n>12 else vt; mk=lambda q:"%s<%s>"%(t,", ".join([vt]+["%d"%z for z in q])); el=lambda z:"sprout::integral_constant<%s, %d>"%(vt,z)
        else:
            nm,t=R.choice(TL[:1]+TL) if n else TL[0]; mk=lambda q:t%",".join(map(K,q)); el=K
        T=mk(l)
        # map/transform on type lists yields integral_constants: the same observation applies
        b.append('values<%s, %d>("%s",%s);'%(T,R.randrange(-5,6),nm,V(l)))
        x=R.choice(l) if l and R.random()<.7 else 55
        if rep%2:
            b.append('any<%s, %s>("%s",%s,V());'%(T,el(x),nm,V(l)))
            if n: b.append('shape<%s>("%s",%s);'%(T,nm,V(l)))
            ts=rlist(R.randrange(0,4),False); b.append('grow<%s>("%s",%s,%s);'%(", ".join([T]+[el(q) for q in ts]),nm,V(l),V(ts)))
            a,c=rlist(R.randrange(0,5),False),rlist(R.randrange(0,5),False); b.append('joined<%s, %s, %s>("%s",%s,%s,%s);'%(T,mk(a),mk(c),nm,V(l),V(a),V(c)))
        s=sorted(l); 
        for x2 in ([R.choice(s),R.choice(s)+1] if s else [])+[-50,50]: b.append('sorted<%s, %s>("%s",%s);'%(mk(s),el(x2),nm,V(s)))
        TT="sprout::types::type_tuple<%s>"%",".join(map(K,l))
        if n>1: b.append('iter<%s, %s, %d, %d>("type_tuple",%s);'%(TT,K(x),R.randrange(0,n-1),R.randrange(0,n-1),V(l)))
        if n: b.append('extremes<%s>(%s);'%(", ".join(map(K,l)),V(l)))
    b=body["indexes"]
    for rep in range(40 if not th else 120):
        f=R.choice([0,0,1,R.randrange(-40,60),R.randrange(-1000,1000)]); n=R.randrange(0,14) if R.random()<.8 else R.randrange(14,70); s=R.choice([1,1,2,3,5,7,R.randrange(1,40)]); sg=R.choice([1,-1]); l=f+sg*(n*s-(R.randrange(0,s) if n else 0)); st=sg*s
        if l==f: st=R.choice([1,-1,4])
        k=R.randrange(3)
        if k==0: b.append("irange<%d,%d,%d>();"%(f,l,st))
        elif k==1:
            t,lo,hi=R.choice([("int",-10**6,10**6),("short",-32768,32767),("signed char",-128,127),("long long",-10**9,10**9),("unsigned char",0,255),("unsigned short",0,65535),("unsigned",0,10**9),("unsigned long",0,10**9)])
            if lo<=f<=hi and lo<=l<=hi and (lo<0 or True):
                small=t in("signed char","unsigned char")
                if small and (abs(l-f)>60 or abs(st)>30): continue
                b.append('range<%s,%d,%d,%d>("%s");'%(t,f,l,st,t))
        elif f>=0 and l>=0: b.append("urange<%d,%d,%d>();"%(f,l,st))
    for n in [0,1,2]+[R.randrange(3,100) for _ in range(5 if not th else 25)]: b.append("upto<%d,%d>();"%(n,R.randrange(0,100)))
    for n in [R.randrange(0,12) for _ in range(3)]: b.append("packs<%s>();"%", ".join(["int"]*n))
    for i in range(12): b.append("fun<%d,%d>();"%(R.randrange(-20,20),R.choice([-7,-3,-1,1,2,3,5,R.randrange(1,20)])))
    for k,v in body.items():
        o.append("MON_TEST(%s) {\n%s\n}"%(k,"\n".join(v)))
    open(os.path.join(out,"g%d.cpp"%fi),"w").write("\n".join(o)+"\n")

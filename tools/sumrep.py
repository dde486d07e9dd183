import sys,re
# condensed view of a replay file: one line per operation base name
f='/verif/build/replay/%s.txt'%sys.argv[1]; w=int(sys.argv[2]) if len(sys.argv)>2 else 330
pat=sys.argv[3] if len(sys.argv)>3 else ''
g={}; cur=None
for l in open(f,errors='replace'):
    m=re.match(r'== (.*) \((\d+) reports\)',l)
    if m: cur=m.group(1); b=re.sub(r'<.*','',cur); g.setdefault(b,[]).append([cur,m.group(2),None]); continue
    if cur and l.startswith('  ') and g[b][-1][2] is None: g[b][-1][2]=l.strip()
for b,v in g.items():
    if pat and not re.search(pat,b): continue
    print('*',b,'x%d:'%len(v),' '.join(re.sub(r'^[^<]*','',x[0]) for x in v)[:160]); print('     ',(v[0][2] or '')[:w])

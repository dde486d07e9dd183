"""Helper for planting bugs: seed() builds /verif/seeded/<id>/ from an edit and a demonstration and confirms it:
demo passes unpatched, fails patched, the stable tests still pass (in an isolated copy)."""
import os, subprocess, json, sys, shutil, tempfile, textwrap
V='/verif'
DEMO='''#!/bin/bash
# exit 0: the property holds; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
timeout 250 g++ -std=%s -w -I"$PWD" %s "$here/demo.cpp" -o "$d/demo" || exit 2
timeout 60 "$d/demo"
'''
def seed(id, prop, path, edits, demo, needs, breaks, std='c++14', flags='-O0', test=True):
    if os.path.exists(f'{V}/seeded/{id}/meta.json') and '--force' not in sys.argv:
        return print(id, 'exists')
    w=tempfile.mkdtemp(prefix='/tmp/seedwt.'); r=w+'/repo'
    subprocess.check_call(['cp','-a','/repo',r]); ok=False
    try:
        if isinstance(path,str): groups=[(path,edits)]
        else: groups=path
        for p,es in groups:
            s=open(f'{r}/{p}',newline='',encoding='latin-1').read(); crlf='\r\n' in s; s=s.replace('\r\n','\n')
            for e in es:
                old,new=e[0],e[1]; n=e[2] if len(e)>2 else 1
                if s.count(old)!=n: return print(id,'EDIT COUNT',p,s.count(old),old[:60])
                s=s.replace(old,new)
            open(f'{r}/{p}','w',newline='',encoding='latin-1').write(s.replace('\n','\r\n') if crlf else s)
        for p,es in groups:
            o=subprocess.check_output(['git','-C',r,'show','8350ade:'+p]).decode('latin-1').replace('\r\n','\n')
            for e in es:
                if e[0] not in o: return print(id,'lines not original',p)
        d=f'{V}/seeded/{id}'; os.makedirs(d,exist_ok=True)
        diff=subprocess.check_output(['git','-C',r,'diff'])
        open(d+'/patch.diff','wb').write(diff)
        open(d+'/demo.sh','w').write(DEMO%(std,flags)); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.cpp','w').write(demo)
        a=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
        b=subprocess.run(['bash',d+'/demo.sh'],cwd=r,capture_output=True,text=True)
        if a.returncode!=0: return print(id,'DEMO FAILS UNPATCHED',a.returncode,(a.stdout+a.stderr)[-1500:])
        if b.returncode==0: return print(id,'DEMO PASSES PATCHED')
        if b.returncode==2: return print(id,'DEMO DOES NOT COMPILE PATCHED',b.stderr[-800:])
        if test:
            t=subprocess.run([V+'/tools/iso.sh',d+'/patch.diff','bash','-c','bash /opt/vp/build.sh >/tmp/sb.$$ 2>&1 || { tail -5 /tmp/sb.$$; echo BUILD FAILED; }; rm -f /tmp/sb.$$; bash /opt/vp/test.sh /repo/_t.json 2>&1 | tail -1'],capture_output=True,text=True)
            if '290 passed, 0 failed' not in t.stdout or 'BUILD FAILED' in t.stdout: return print(id,'TESTS CATCH IT',t.stdout[-300:],t.stderr[-300:])
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        ok=True; print(id,'ok')
    finally:
        shutil.rmtree(w)
        if not ok and os.path.isdir(f'{V}/seeded/{id}'): shutil.rmtree(f'{V}/seeded/{id}')

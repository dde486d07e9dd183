"""Helper used while repairing /repo: rep() edits (keeping CRLF files CRLF), commit() makes a fix: commit and records it."""
import sys,subprocess,os
R=os.environ.get('FXREPO','/tmp/wr')
def rep(path, old, new, cnt=1):
    p=R+'/'+path; s=open(p,newline='',encoding='latin-1').read()
    if '\r\n' in s:
        old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
    assert s.count(old)==cnt, (path, s.count(old))
    open(p,'w',newline='',encoding='latin-1').write(s.replace(old,new))
def commit(msg, prop, what):
    subprocess.check_call(['git','-C',R,'commit','-qam','fix: '+msg])
    h=subprocess.check_output(['git','-C',R,'rev-parse','--short','HEAD'],text=True).strip()
    with open('/verif/known-findings.jsonl','a') as f: f.write(f'fixed: property={prop} {h} {what}\n')
    st=subprocess.check_output(['git','-C',R,'show','--stat','--format=%h %s','HEAD'],text=True)
    print(st)
def cm(path,msg,prop,what):
    "commit only the named files"
    for p in path.split(): subprocess.check_call(['git','-C',R,'add',p])
    subprocess.check_call(['git','-C',R,'commit','-qm','fix: '+msg])
    h=subprocess.check_output(['git','-C',R,'rev-parse','--short','HEAD'],text=True).strip()
    with open('/verif/known-findings.jsonl','a') as f: f.write(f'fixed: property={prop} {h} {what}\n')

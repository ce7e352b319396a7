"""usage: from mut import *;  m(props, [(file, old, new),...], name)"""
import subprocess,sys,os,shutil,tempfile
def m(name, props, *edits, quiet=False):
    d=tempfile.mkdtemp(dir='/tmp/mt'); 
    subprocess.check_call('git -C /repo archive HEAD weio requirements.txt setup.py | tar -x -C %s' % d, shell=True)
    for f,old,new in edits:
        p=d+'/weio/'+f; s=open(p,newline='').read(); crlf='\r\n' in s
        if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        assert s.count(old)>=1,(name,f,old)
        s=s.replace(old,new,1); open(p,'w',newline='').write(s)
    for pr in props.split():
        r=subprocess.run(['python3','-W','ignore','-m','sa.check',pr],cwd='/verif',env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True)
        exp=0 if quiet else 1
        print('ok  ' if r.returncode==exp else 'BAD ',name,pr,'rc',r.returncode, '' if r.returncode==exp and not os.environ.get('V') else (r.stdout+r.stderr)[:700].replace('\n','\n     '))
        if r.returncode==1 and os.environ.get('V') is None and not quiet: print('        ',[l for l in r.stdout.split('\n') if not l.startswith('KNOWN')][0][:200])
    shutil.rmtree(d)

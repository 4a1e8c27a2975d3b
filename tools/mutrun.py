# mutrun.py FILE checks... < mutants (old\n=>\nnew separated by \n%%\n); runs the checks on each mutated copy
import subprocess,sys,os,shutil
fs=sys.argv[1].split(','); checks=sys.argv[2:]
srcs={f:open('/repo/v0100/'+f,encoding='latin-1',newline='').read() for f in fs}
M=[l for l in sys.stdin.read().split('\n%%\n') if l.strip()]
for i,m in enumerate(M):
    old,new=m.split('\n=>\n') if '\n=>\n' in m else (m.split('\n=>')[0],'')
    old=old.strip('\n');new=new.strip('\n')
    f=next((f for f in fs if (old.replace('\n','\r\n') if '\r\n' in srcs[f] else old) in srcs[f]),fs[0]); src=srcs[f]
    if '\r\n' in src: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
    n=src.count(old)
    print(i,repr(old[:90]),'->',repr(new[:70]),'' if n==1 else 'COUNT %d'%n,flush=True)
    if n<1: continue
    d='/tmp/mutd%d'%os.getpid(); shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo/v0100',d+'/v0100',dirs_exist_ok=True)
    open(d+'/v0100/'+f,'w',encoding='latin-1',newline='').write(src.replace(old,new))
    for c in checks:
        r=subprocess.run(['timeout',os.environ.get('MT','300'),'python3','/verif/check.py',c,'quick'],env=dict(os.environ,VERIF_REPO=d,VERIF_EVIDENCE='/tmp/ev'),capture_output=True,text=True)
        o=(r.stdout+r.stderr).strip().split('\n')
        print('   ',c,r.returncode,o[0][:260],flush=True)
    shutil.rmtree(d,ignore_errors=True)

import subprocess,sys,os,shutil
src=open('/repo/v0100/smlrl.c').read()
M=[l for l in open('/tmp/lmuts.txt').read().split('\n%%\n') if l.strip()]
for i,m in enumerate(M):
    old,new=m.split('\n=>\n')
    old=old.strip('\n');new=new.strip('\n')
    n=src.count(old)
    print(i,repr(old[:90]),'->',repr(new[:70]),'' if n==1 else 'COUNT %d'%n,flush=True)
    if n!=1: continue
    d='/tmp/lmutd'; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo/v0100',d+'/v0100',dirs_exist_ok=True)
    open(d+'/v0100/smlrl.c','w').write(src.replace(old,new))
    r=subprocess.run(['timeout','300','python3',sys.argv[1] if len(sys.argv)>1 else '/tmp/lm.py'],env=dict(os.environ,VERIF_REPO=d,PYTHONHASHSEED='0'),capture_output=True,text=True)
    print(r.stdout[-1500:],r.stderr[-300:],flush=True)
shutil.rmtree('/tmp/lmutd',ignore_errors=True)

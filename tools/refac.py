# refac.py FILES checks... < edits: applies all behaviour-preserving edits (old\n=>\nnew, separated by \n%%\n)
# to one copy of the sources and runs the checks, which should all stay quiet
import subprocess,sys,os,shutil
fs=sys.argv[1].split(','); checks=sys.argv[2:]
d='/tmp/refd%d'%os.getpid(); shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo/v0100',d+'/v0100')
srcs={f:open('/repo/v0100/'+f,encoding='latin-1',newline='').read() for f in fs}
for m in sys.stdin.read().split('\n%%\n'):
    if not m.strip(): continue
    old,new=m.split('\n=>\n') if '\n=>\n' in m else (m.split('\n=>')[0],'')
    old=old.strip('\n');new=new.strip('\n')
    for f in fs:
        crlf='\r\n' in srcs[f]
        o=old.replace('\n','\r\n') if crlf else old; n=new.replace('\n','\r\n') if crlf else new
        if o in srcs[f]:
            if srcs[f].count(o)>1: print('COUNT',srcs[f].count(o),repr(old[:60]))
            srcs[f]=srcs[f].replace(o,n,1); break
    else: print('NOT FOUND',repr(old[:80]))
for f in fs:
    open(d+'/v0100/'+f,'w',encoding='latin-1',newline='').write(srcs[f])
if 'NOCC' not in os.environ:
    for f in fs:
        if f.startswith('sml') or f=='n2f.c':
            r=subprocess.run(['gcc','-w','-fsyntax-only',d+'/v0100/'+f],capture_output=True,text=True)
            if r.returncode: print(f,r.stderr[:800])
def one(c):
    r=subprocess.run(['timeout',os.environ.get('MT','900'),'python3','/verif/check.py',c,'quick'],env=dict(os.environ,VERIF_REPO=d,VERIF_EVIDENCE='/tmp/ev'),capture_output=True,text=True)
    o=(r.stdout+r.stderr).strip().split('\n')
    print('   ',c,r.returncode,'' if r.returncode==0 else '\n'.join(x[:400] for x in o[:6]),flush=True)
for c in checks: one(c)
if 'KEEP' in os.environ: print(d)
else: shutil.rmtree(d,ignore_errors=True)

seed() { mkdir -p /verif/seeded/$1; python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
}
mkpatch() { # id file pyexpr(old,new)
python3 - "$@" <<'P'
import sys,subprocess
i,f,old,new=sys.argv[1:5]
old=old.encode().decode('unicode_escape') if len(sys.argv)>5 else old
p='/repo/'+f; s=open(p,encoding='latin-1',newline='').read()
cr='\r\n' in s
assert s.count(old)==1,(s.count(old))
open(p,'w',encoding='latin-1',newline='').write(s.replace(old,new))
d=subprocess.run(['git','-C','/repo','diff'],capture_output=True).stdout
open('/verif/seeded/%s/patch.diff'%i,'ab').write(d) if len(sys.argv)>6 else open('/verif/seeded/%s/patch.diff'%i,'wb').write(d)
subprocess.run(['git','-C','/repo','checkout','--','.'],check=True)
P
}

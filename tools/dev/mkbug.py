import json, os, subprocess, shutil, sys, stat
SEED="/verif/seeded"
PRE='''#!/bin/bash
# Exits 0 when the property holds, 1 when not.  Everything happens in a scratch directory.
set -u
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bin=$PWD/bin
mkdir "$d/db"
export COINDB=$d/db
put() { mkdir -p "$(dirname "$d/$1")"; cat > "$d/$1"; }
same() { if [ "$1" != "$2" ]; then printf 'expected:\\n%s\\ngot:\\n%s\\n' "$1" "$2"; exit 1; fi; }
'''
def bug(id, prop, edits, demo, needs, breaks, extra=()):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d="/tmp/seed/"+id
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/seed",exist_ok=True)
    subprocess.check_call(["git","clone","-q","/repo",d])
    for f,old,new in edits:
        p=os.path.join(d,f); s=open(p).read()
        assert s.count(old)==1, (id,f,s.count(old),old)
        open(p,"w").write(s.replace(old,new))
    subprocess.call(["gofmt","-l","."],cwd=d,stdout=subprocess.DEVNULL)
    diff=subprocess.check_output(["git","diff"],cwd=d,text=True)
    o=os.path.join(SEED,id); os.makedirs(o,exist_ok=True)
    open(o+"/patch.diff","w").write(diff)
    open(o+"/demo.sh","w").write(PRE+demo.strip("\n")+"\n")
    os.chmod(o+"/demo.sh",0o755)
    for n,t in extra: open(o+"/"+n,"w").write(t)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(o+"/meta.json","w"),indent=1)
    shutil.rmtree(d)

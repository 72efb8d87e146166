#!/usr/bin/env python3
"""mk.py SPEC.py...: creates /verif/seeded/<id> from specs: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO"""
import sys, os, subprocess, tempfile, shutil, json
S="/tmp/sd"
for sp in sys.argv[1:]:
    g={}; exec(open(sp).read(), g)
    for b in g["BUGS"]:
        d="/verif/seeded/"+b["id"]; os.makedirs(d, exist_ok=True)
        t=tempfile.mkdtemp(dir="/var/tmp"); subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a commit -qm a"%(t,t), shell=True)
        for f,o,n in b["edits"]:
            p=os.path.join(t,f); s=open(p).read()
            import re
            rx=r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in re.sub(r"\n\s*\n","\n",o).split("\n"))
            ms=list(re.finditer(rx,s))
            if len(ms)!=1: sys.exit("%s: %s: %d matches of %r"%(b["id"],f,len(ms),o))
            m=ms[0]; open(p,"w").write(s[:m.start()]+n+s[m.end():])
            # originals only
            bl=subprocess.run(["git","-C","/repo","blame","-s","HEAD","--",f],stdout=subprocess.PIPE).stdout.decode().splitlines()
        open(d+"/patch.diff","w").write(subprocess.run(["git","-C",t,"diff"],stdout=subprocess.PIPE).stdout.decode())
        shutil.rmtree(t)
        # lines removed by the patch must be original ones
        cur=None
        for l in open(d+"/patch.diff"):
            if l.startswith("--- a/"): cur=l[6:].strip(); bl=subprocess.run(["git","-C","/repo","blame","-s","HEAD","--",cur],stdout=subprocess.PIPE).stdout.decode().splitlines()
            elif l.startswith("@@"): ln=int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                if not (bl[ln-1].startswith("7bbdf75") or bl[ln-1].startswith("^7bbdf75")): print("WARNING",b["id"],"changes a line of ours:",l.strip())
                ln+=1
            elif l.startswith(" "): ln+=1
        shutil.copy(S+"/d.h",d); shutil.copy(S+"/demo.sh",d); open(d+"/demo.cpp","w").write('#include "d.h"\n'+b.get("pre","")+"static void demo()\n{\n"+b.get("demo","").strip("\n")+"\n}\n")
        if b.get("monitor"):
            x=open(d+"/demo.sh").read().replace('"$here/demo.cpp" -o','"$here/demo.cpp" $B/monitor/monitorclient.o $B/monitor/moc_monitorclient.o -I$R/monitor -o'); open(d+"/demo.sh","w").write(x); x=open(d+"/demo.cpp").read().replace('#include "d.h"','#include "monitorclient.h"\n#include "d.h"'); open(d+"/demo.cpp","w").write(x)
        if b.get("nod"): os.remove(d+"/d.h"); open(d+"/demo.cpp","w").write(b["demo"])
        if "files" in b:
            for x in ("d.h","demo.sh","demo.cpp"):
                if os.path.exists(d+"/"+x): os.remove(d+"/"+x)
            for n,t in b["files"].items(): open(d+"/"+n,"w").write(t.lstrip("\n"))
        if b.get("tunnel"):
            x=open(d+"/demo.sh").read().replace('"$here/demo.cpp" -o','"$here/demo.cpp" $(ls $B/tunnelclient/*.o | grep -v "/main.o") -I$R/tunnelclient -o'); open(d+"/demo.sh","w").write(x)
        json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
        print(b["id"],"written")

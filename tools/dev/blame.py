import subprocess,re,os,sys
for id in sorted(os.listdir("/verif/seeded")):
    cur=None; ln=0; res=[]
    for l in open(f"/verif/seeded/{id}/patch.diff"):
        if l.startswith("--- a/"): cur=l[6:].strip(); continue
        if l.startswith("+++"): continue
        m=re.match(r"@@ -(\d+)",l)
        if m: ln=int(m.group(1)); continue
        if l.startswith("-"):
            b=subprocess.check_output(["git","-C","/repo","blame","-s","-L",f"{ln},{ln}","--",cur],text=True)
            res.append("orig" if b.startswith("^971a8e9") or "971a8e9" in b[:12] else "mine")
            ln+=1
        elif l.startswith(" "): ln+=1
    print(id,res)

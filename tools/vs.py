#!/usr/bin/env python3
# vs.py P04 [n]: group the replays of the last failing run by key prefix and message
import sys,json,glob,re,collections
d=collections.OrderedDict()
for f in sorted(glob.glob(""+__import__("os").environ.get("MC_ROOT","/verif")+"/out/replays/"+sys.argv[1]+"-*.json"),key=lambda s:int(re.findall(r"-(\d+)\.json",s)[0])):
    j=json.load(open(f)); k=j.get("key","").split("/")[0]; w=re.sub(r"\d+","#",j.get("what","")[:150])
    d.setdefault((k,w),[]).append((f,j.get("key"),j.get("what")))
for (k,w),l in d.items():
    print(len(l),k,"|",l[0][1],"|",l[0][2][:400],"|",l[0][0].split("/")[-1])

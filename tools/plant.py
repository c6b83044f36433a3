#!/usr/bin/env python3
"""plant.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]: writes seeded/ID/patch.diff
and meta.json (the demonstration is written by hand), working in a scratch copy of /repo."""
import sys, subprocess, json, os, shutil
id, prop, needs, breaks = sys.argv[1:5]
reps = sys.argv[5:]
d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
w = "/tmp/plant-" + id
shutil.rmtree(w, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
sub = subprocess.run(["git","-C","/repo","submodule","status"],capture_output=True,text=True).stdout
if os.path.isdir("/repo/Ecdar-ProtoBuf") and not os.listdir(w + "/Ecdar-ProtoBuf") if os.path.isdir(w + "/Ecdar-ProtoBuf") else True:
    subprocess.run(["cp", "-a", "/repo/Ecdar-ProtoBuf", w + "/"], check=False)
try:
    def demo(what):
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        print("demo", what, ": exit", r.returncode, r.stdout[-400:], r.stderr[-600:])
    if os.path.exists(d + "/demo.sh"): demo("without patch")
    for i in range(0, len(reps), 3):
        f, o, n = reps[i:i+3]
        p = w + "/" + f; s = open(p).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
        r = subprocess.run(f"rustfmt --edition 2018 --emit stdout < {p} > /dev/null", shell=True)
        assert r.returncode == 0
    diff = subprocess.run(["git","-C",w,"diff","--","src"],capture_output=True,text=True).stdout
    open(d + "/patch.diff","w").write(diff)
    if os.path.exists(d + "/demo.sh"): demo("with patch")
finally:
    shutil.rmtree(w, ignore_errors=True)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json","w"), indent=1)

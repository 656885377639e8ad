#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the specs in tools/seeds/*.py.
A spec: dict(id, prop, edits=[(file, old, new)], pkg, test (Go source of the demo, an external test file), needs, breaks)."""
import os, re, sys, json, subprocess, tempfile, shutil, importlib.util, glob
V = "/verif"
def load():
    out = []
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        s = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        out += m.SEEDS
    return out
DEMO = '''#!/bin/bash
# Exit 0 if the property's demonstration holds on /repo, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo '{"Replace":{"/repo/%(pkg)s/zz_demo_test.go":"'"$D"'/demo_test.go"%(more)s}}' > "$T/o.json"
cd /repo && go test -count=1 -vet=off -timeout 200s %(flags)s-overlay "$T/o.json" -run 'TestZZDemo' ./%(pkg)s
'''
def gen(s):
    d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    diff = ""
    byfile = {}
    for f, old, new in s["edits"]:
        src = byfile.get(f) or open("/repo/" + f).read()
        if src.count(old) != 1: sys.exit(f"{s['id']}: {f}: {src.count(old)} matches of {old!r}")
        byfile[f] = src.replace(old, new)
    for f, src in byfile.items():
        for side in "ab":
            os.makedirs(os.path.dirname(f"{tmp}/{side}/{f}"), exist_ok=True)
        shutil.copy("/repo/" + f, f"{tmp}/a/{f}"); open(f"{tmp}/b/{f}", "w").write(src)
        subprocess.run(["gofmt", "-l", f"{tmp}/b/{f}"], check=True)
        r = subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=tmp, capture_output=True, text=True)
        diff += re.sub(r"^((?:---|\+\+\+) \S+)\t.*$", r"\1", r.stdout, flags=re.M)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(s["test"])
    subprocess.run(["gofmt", "-w", d + "/demo_test.go"], check=True)
    # other test files the demo needs: {name: (source file, package name)}
    s["more"] = ""
    s["flags"] = s.get("flags", "") + " " if s.get("flags") else ""
    for n, (f, pkg) in s.get("files", {}).items():
        open(f"{d}/{n}", "w").write(re.sub(r"^package \w+$", "package " + pkg, open(f"{V}/{f}").read(), count=1, flags=re.M))
        s["more"] += ',"/repo/%s/zz_%s":"\'"$D"\'/%s"' % (s["pkg"], n, n)
    open(d + "/demo.sh", "w").write(DEMO % s); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
if __name__ == "__main__":
    want = sys.argv[1:]
    for s in load():
        if not want or s["id"] in want: gen(s)

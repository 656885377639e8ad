import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r=json.load(open(sys.argv[1]))
p=set(r.get("passed") or r.get("pass") or [])
m=sorted(b-p); print(len(m), *m[:2])

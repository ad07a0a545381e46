import json, sys
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
for t in (d["trace"] or [])[-n:]:
    print(t[:260])
print(d["message"], d.get("key"))
print(d.get("detail") or "")

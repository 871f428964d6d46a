"""record 'fix:' commits of /repo in known_findings.json: python3 tools/fixed.py PROP[,PROP] COMMIT ..."""
import json
import os
import subprocess
import sys

K = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def main(a):
    d = json.load(open(K))
    for props, c in zip(a[::2], a[1::2]):
        h, s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip().split(" ", 1)
        assert s.startswith("fix: ")
        for p in props.split(","):
            d["findings"] = [f for f in d["findings"] if not (f["status"] == "fixed" and f["commit"] == h and f["property"] == p)]
            d["findings"].append({"property": p, "status": "fixed", "commit": h, "what": s[5:],
                                  "line": f"fixed: property={p} {h} {s[5:]}"})
    json.dump(d, open(K, "w"), indent=1)


main(sys.argv[1:])

"""development helper: create and validate planted bugs (not used by any check).

mk(id, prop, needs, breaks, edits, demo): writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w"
SH = '''#!/bin/bash
. /opt/vp/env.sh
PYTHONPATH=$PWD PYTHONWARNINGS=ignore timeout 280 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def fresh():
    if not os.path.exists(W):
        sh(f"cp -a /repo {W}")
    sh(f"git -C {W} fetch -q {os.environ.get('SEED_BASE', '/repo')} HEAD && git -C {W} reset -q --hard FETCH_HEAD")


def mk(id, prop, needs, breaks, edits, demo):
    fresh()
    for path, old, new in edits:
        p = os.path.join(W, path)
        s = open(p).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {W} diff").stdout
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    r1 = sh(f"bash {d}/demo.sh", cwd=W)
    fresh()
    r0 = sh(f"bash {d}/demo.sh", cwd=W)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(id, "demo ok" if ok else f"DEMO BAD clean={r0.returncode} patched={r1.returncode}\n{r0.stderr[-800:]}\n{r1.stderr[-300:]}")
    return ok


def applyall(ids):
    fresh()
    for i in ids:
        r = sh(f"git -C {W} apply {HERE}/seeded/{i}/patch.diff")
        if r.returncode:
            print("apply failed", i, r.stderr)


def checks(ids):
    for i in ids:
        fresh()
        r = sh(f"git -C {W} apply {HERE}/seeded/{i}/patch.diff")
        if r.returncode:
            print("apply failed", i, r.stderr)
            continue
        prop = json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"]
        r = sh(f"bash {HERE}/run.sh {prop} quick", env=dict(os.environ, VERIF_REPO=W))
        print(i, prop, "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", r.stdout.strip().splitlines()[-1][:150], flush=True)
    fresh()


def tests():
    """full suite in the scratch copy."""
    env = sh("bash -c '. /opt/vp/env.sh; env'").stdout
    r = sh(f"""bash -c '. /opt/vp/env.sh; cd {W}; export PYTHONPATH={W}:/opt/vp/plugin HYPOTHESIS_STORAGE_DIRECTORY=/tmp/hyp;
timeout 1500 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed --hypothesis-seed=0 --timeout=600 -n 8 --dist worksteal -m "not slow" -o junit_family=xunit2 --junitxml=/tmp/seedjunit.xml > /tmp/seedtest.log 2>&1; tail -30 /tmp/seedtest.log | grep -E "FAILED|ERROR|passed|failed"'""")
    print(r.stdout)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(os.listdir(HERE + "/seeded"))
    if cmd == "check":
        checks(ids)
    elif cmd == "tests":
        applyall(ids)
        tests()
        fresh()

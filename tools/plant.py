"""development aid: turn an edit into /verif/seeded/<id> after confirming it (never used by a check)
plant.py DEF.py ...   each DEF defines id, prop, edits=[(file, old, new)], needs, breaks, demo (python source after `from lib import *`)
                      checks (list, default [prop])
"""
import json, os, re, shutil, subprocess, sys
V = "/verif"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def one(path):
    d = {}
    exec(open(path).read(), d)
    i, prop = d["id"], d["prop"]
    W = f"/tmp/plant_{i}"
    shutil.rmtree(W, ignore_errors=True)
    sh(f"cp -a /repo {W}")
    out = f"{V}/seeded/{i}"
    try:
        for f, old, new in d["edits"]:
            p = f"{W}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{i}: edit of {f} matches {s.count(old)} times: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {W} diff").stdout
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(f"{V}/tools/demo/lib.py", out + "/lib.py")
        demo = d.get("demo")
        if demo is None:     # `value`: source computing `value`; its value on the unchanged tree is what the demo expects
            probe = "from lib import *\n" + d["value"] + "\nprint('VALUE ' + repr(value))\nfinish(True, '')\n"
            open(out + "/demo.py", "w").write(probe)
            r = sh(f"PYTHONDONTWRITEBYTECODE=1 python3-vt {out}/demo.py", cwd="/repo")
            x = [v for v in r.stdout.splitlines() if v.startswith("VALUE ")]
            if not x:
                return f"{i}: probe failed {r.stderr[-500:]}"
            demo = (d["value"].strip("\n") + f"\nexpected = {x[0][6:]}\nfinish(value == expected, f\"{d.get('label', 'value')}: {{value}}, expected {{expected}}\")\n")
        open(out + "/demo.py", "w").write("from lib import *\n\n" + demo.lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 python3-vt "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a = sh(f"{out}/demo.sh", cwd="/repo", timeout=300)
        b = sh(f"{out}/demo.sh", cwd=W, timeout=300)
        t = sh("PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --disable-warnings 2>&1 | tail -1", cwd=W)
        msg = f"{i} [{prop}] demo clean={a.returncode} patched={b.returncode} ({b.stdout.strip()[-150:]}{b.stderr.strip()[-200:] if b.returncode and 'BROKEN' not in b.stdout else ''}) tests: {t.stdout.strip()}"
        if a.returncode:
            msg += "\n  CLEAN DEMO: " + a.stdout[-300:] + a.stderr[-600:]
        for c in d.get("checks", [prop]):
            r = sh(f"TFV_REPO={W} VERIF_SEED=1 VERIF_TIER=quick ./check {c} quick", cwd=V)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            msg += f"\n  check {c}: exit {r.returncode} {v[:1]} {'' if r.returncode in (0, 1) else r.stderr[-500:]}"
        return msg
    finally:
        shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        for m in ex.map(one, sys.argv[1:]):
            print(m, flush=True)

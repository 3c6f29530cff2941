"""Plants bugs: makes /verif/seeded/<id> from a spec and confirms it in a scratch copy.

  python3 tools/plant.py SPEC.py [ID ...]     SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)],
                                              needs, breaks, demo)]
  python3 tools/plant.py --recheck [ID ...]   runs the property's check against the planted bugs
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PRELUDE = open(os.path.join(VERIF, "tools", "demo_prelude.py")).read()
DEMO_SH = """#!/bin/bash
# exit 0 when the property holds in this scenario, nonzero when it is broken
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy(base="/repo"):
    d = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(d, "repo")
    sh(f"cp -a {base} {r}")
    sh(f"git -C {r} checkout -q -- .")
    return d, r


def tests(r):
    src = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {r}")
    p = os.path.join(os.path.dirname(r), "test.sh")
    open(p, "w").write(src)
    out = os.path.join(os.path.dirname(r), "out.json")
    sh(f"bash {p} {out}")
    try:
        return STABLE - set(json.load(open(out))["passed"])
    except Exception as e:
        return {f"no results: {e}"}


def check(r, prop):
    x = sh(f"./check.sh {prop} quick", cwd=VERIF, env={**os.environ, "TURMS_REPO": r, "VERIF_EVIDENCE": os.path.dirname(r)}, timeout=1000)
    caught = x.returncode == 1 and f"VIOLATION property={prop}" in x.stdout
    return caught, (x.stdout + x.stderr)[-600:]


def one(bug):
    d, r = copy()
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) < 1:
                return bug["id"], f"EDIT NOT FOUND in {f}: {old[:60]!r}"
            if t.count(old) > 1 and not bug.get("all"):
                return bug["id"], f"EDIT AMBIGUOUS ({t.count(old)}) in {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        for f, old, new in bug["edits"]:
            first = {line.strip() for line in sh(f"git -C {r} show b0a6ec6:{f}").stdout.splitlines()}
            gone = {line.strip() for line in old.splitlines()} - {line.strip() for line in new.splitlines()}
            if gone - first and not (gone & first):
                return bug["id"], f"NOT ORIGINAL in {f}: {sorted(gone - first)[:2]}"
        dst = os.path.join(VERIF, "seeded", bug["id"])
        os.makedirs(dst, exist_ok=True)
        diff = sh(f"git -C {r} diff").stdout
        open(os.path.join(dst, "demo.py"), "w").write(PRELUDE + "\n" + bug["demo"].strip() + "\n")
        open(os.path.join(dst, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        demo = os.path.join(dst, "demo.sh")
        bad = sh(f"bash {demo}", cwd=r)
        sh(f"git -C {r} stash -q")
        good = sh(f"bash {demo}", cwd=r)
        sh(f"git -C {r} stash pop -q")
        msg = ""
        if good.returncode != 0:
            msg += f" DEMO FAILS CLEAN: {(good.stdout + good.stderr)[-800:]}"
        if bad.returncode == 0:
            msg += " DEMO PASSES PATCHED"
        missing = tests(r)
        if missing:
            msg += f" TESTS BROKEN: {sorted(missing)[:5]}"
        if msg:
            shutil.rmtree(dst)
            return bug["id"], "REJECTED" + msg
        caught, out = check(r, bug["prop"])
        return bug["id"], ("kept, caught" if caught else "kept, MISSED: " + out) + " | demo: " + (bad.stdout + bad.stderr).strip()[-150:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(id):
    d, r = copy()
    try:
        p = os.path.join(VERIF, "seeded", id)
        prop = json.load(open(os.path.join(p, "meta.json")))["property"]
        a = sh(f"git -C {r} apply {p}/patch.diff")
        if a.returncode:
            return id, "DOES NOT APPLY " + a.stderr
        caught, out = check(r, prop)
        return id, f"{prop} " + ("caught" if caught else "MISSED " + out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    if args[0] == "--recheck":
        ids = args[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        with cf.ThreadPoolExecutor(2) as ex:
            for i, m in ex.map(recheck, ids):
                print(i, m, flush=True)
    else:
        ns = {}
        exec(open(args[0]).read(), ns)
        bugs = [b for b in ns["BUGS"] if len(args) < 2 or b["id"] in args[1:]]
        with cf.ThreadPoolExecutor(3) as ex:
            for i, m in ex.map(one, bugs):
                print(i, m, flush=True)

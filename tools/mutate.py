"""Mutation testing of the checks: small random changes of /repo that its tests do not notice.

  python3 tools/mutate.py make N SEED OUT.json [FILE ...]   mutants that still pass the stable tests
  python3 tools/mutate.py judge OUT.json [N ...]             runs the file's checks (ALL=1: all) on them until one notices

Works in scratch copies of BASE (environment variable, by default /repo; must not change meanwhile). The survivors are read by hand: equivalent, outside every property, or a gap.
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

BASE = os.environ.get("BASE", "/repo")
ORDER = {
    "turms/config.py": "17 18 20 12 29 28 19",
    "turms/errors.py": "17 19",
    "turms/helpers.py": "20 24 27",
    "turms/recurse.py": "01 03 05 12 29 22 23 28",
    "turms/referencer.py": "21 08",
    "turms/registry.py": "05 06 10 11 01 24 23 28",
    "turms/rules.py": "19",
    "turms/run.py": "18 17 20 27 14 24",
    "turms/utils.py": "04 01 02 06 22 23 12 29 28 19",
    "turms/cli/main.py": "18 27 26 17",
    "turms/cli/watch.py": "26",
    "turms/parsers/polyfill.py": "28",
    "turms/plugins/enums.py": "08 10 23 21",
    "turms/plugins/fragments.py": "03 01 04 05 22 12 29 24 23",
    "turms/plugins/funcs.py": "07 23 05 10",
    "turms/plugins/input_funcs.py": "25 05",
    "turms/plugins/inputs.py": "06 09 23 22 29 28 12 25",
    "turms/plugins/objects.py": "16 22 23",
    "turms/plugins/operations.py": "04 06 01 07 29 22 12 23",
    "turms/plugins/strawberry.py": "15",
    "turms/processors/merge.py": "13",
    "turms/stylers": "10 06",
    "turms/processors": "14 13",
}
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is",
        ast.Gt: ">=", ast.Lt: "<=", ast.GtE: ">", ast.LtE: "<"}


def sites(src):
    """(line, description, start, end, replacement) of every mutation of a source"""
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(line.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    docs, notes = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n.value)
        for a in (getattr(n, "annotation", None), getattr(n, "returns", None)):
            if a is not None:
                notes.update(ast.walk(a))
        if isinstance(n, (ast.Raise, ast.Assert)):
            notes.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in docs or n in notes:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            yield n.lineno, "compare", a, b, f" {SWAP[type(n.ops[0])]} "
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                a, b = span(v)
                yield n.lineno, "drop operand", a, b, "True" if isinstance(n.op, ast.And) else "False"
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            c, d = span(n.operand)
            yield n.lineno, "drop not", a, b, "(" + raw[c:d].decode() + ")"
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = span(n.test)
            yield n.lineno, "if True", a, b, "True"
            yield n.lineno, "if False", a, b, "False"
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                a, b = span(t)
                yield t.lineno, "no filter", a, b, "True"
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, b = span(n)
            yield n.lineno, "flip bool", a, b, str(not n.value)
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            a, b = span(n)
            yield n.lineno, "int + 1", a, b, str(n.value + 1)
        if isinstance(n, (ast.Expr, ast.Continue, ast.Break)) or (
            isinstance(n, (ast.AugAssign, ast.Assign)) and not isinstance(getattr(n, "targets", [None])[0], ast.Name)
        ) or isinstance(n, ast.AugAssign):
            a, b = span(n)
            yield n.lineno, "drop statement", a, b, "pass"
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a, b = span(k)
                    m = re.match(rb"\s*,\s*", raw[b:])
                    if m:
                        yield k.value.lineno, f"drop keyword {k.arg}", a, b + m.end(), ""
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(getattr(n, "ctx", None), ast.Load) and len(n.elts) > 1:
            for e in n.elts[:-1]:
                a, b = span(e)
                m = re.match(rb"\s*,\s*", raw[b:])
                if m:
                    yield e.lineno, "drop element", a, b + m.end(), ""


def mutants(n, seed, files):
    rng = random.Random(seed)
    everything = []
    for f in files:
        src = open(os.path.join(BASE, f)).read()
        for s in sites(src):
            everything.append((f, *s))
    rng.shuffle(everything)
    print(len(everything), "sites")
    return everything[:n]


def patch(m):
    f, line, what, a, b, new = m
    raw = open(os.path.join(BASE, f), "rb").read()
    return raw[:a] + new.encode() + raw[b:]


def try_tests(m):
    d, r = plant.copy(BASE)
    try:
        p = os.path.join(r, m[0])
        out = patch(m)
        try:
            compile(out, p, "exec")
        except SyntaxError:
            return m, "syntax"
        open(p, "wb").write(out)
        if not plant.sh(f"git -C {r} diff").stdout:
            return m, "same"
        try:
            return m, ("killed" if plant.tests(r) else "alive")
        except Exception:
            return m, "killed"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(m):
    d, r = plant.copy(BASE)
    try:
        open(os.path.join(r, m[0]), "wb").write(patch(m))
        diff = plant.sh(f"git -C {r} diff -U1").stdout
        first = next((v.split() for k, v in ORDER.items() if m[0].startswith(k)), [])
        order = first + ([f"{i:02d}" for i in range(1, 30)] if os.environ.get("ALL") else [])
        odd = []
        for i in dict.fromkeys(order):
            x = plant.sh(f"./check.sh C{i} quick", cwd=plant.VERIF, env={**os.environ, "TURMS_REPO": r, "VERIF_EVIDENCE": d})
            if x.returncode == 1:
                return "C" + i, diff, odd
            if x.returncode:
                odd.append(f"C{i}:{x.returncode}")
        return None, diff, odd
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        n, seed, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        files = sys.argv[5:] or plant.sh(f"git -C {BASE} ls-files 'turms/*.py'").stdout.split()
        alive, tally = [], {}
        with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
            for m, what in ex.map(try_tests, mutants(n, seed, files)):
                tally[what] = tally.get(what, 0) + 1
                if what == "alive":
                    alive.append(m)
                json.dump(alive, open(out, "w"))
        print(tally)
    else:
        todo = json.load(open(sys.argv[2]))
        for i in [int(a) for a in sys.argv[3:]] or range(len(todo)):
            by, diff, odd = judge(todo[i])
            print(f"#{i} {todo[i][0]}:{todo[i][1]} {todo[i][2]}: {by or 'SURVIVED'} {' '.join(odd)}", flush=True)
            if not by:
                print("\n".join(diff.splitlines()[4:]), flush=True)

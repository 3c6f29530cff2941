"""C18: projects are generated in isolation, failures surface and leave earlier output alone."""
import copy
import hashlib
import json
import os
import re
import subprocess
import sys

import yaml
from graphql import build_schema, print_schema

from .. import client, gen, world

PROP = "C18"
RULE = ("Configurations of one to five projects, any of them broken in a random way (invalid or hostile documents, missing schema, unmapped scalar, "
        "failing plugin or processor, unwritable output), are run through the command line and the API with earlier outputs in place; the whole working "
        "directory is snapshot before and after. Exactly the selected working projects must be (re)written with the code they generate alone, failing "
        "projects must keep their earlier output byte for byte, the exit code must tell, and nothing else may change. Non-trivial: a run with a "
        "project; distinct by (entry point, failures, flags).")
N_QUICK, N_THOROUGH = 450, 7000
REQUIRE = {"runs": 400, "projects": 700, "failed": 300, "written": 350, "kept": 140, "selected": 60, "dumped_schemas": 100, "dumped_configurations": 100,
           "tolerated": 15, "strict": 30, "subprocesses": 5}


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            st = os.stat(p)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = (hashlib.sha256(h.read()).hexdigest(), st.st_mtime_ns, st.st_ino)
    return out


HOSTILE = ['query Q { a(x: "[/nope]" }', "query Q { [red] }", 'query Q { __typename } [/bold', "query Q { a(x: \"\\u202e {0} %s\") b }", "query Q { missing_field_ä }",
           "fragment Lonely on Query { nothing }", "query A { ...Gone }", "{", "", "query Q($x: [Int]) { __typename }"]


def broken(r, sc, name, project):
    """Break a project in place; returns what was done."""
    t = project["extensions"]["turms"]
    how = r.choice(["documents", "documents", "schema_missing", "schema_syntax", "scalar", "processor", "plugin", "parser", "out_is_file", "no_documents", "schema_invalid"])
    if how == "documents":
        sc.write(f"{name}/docs/zz.graphql", r.choice(HOSTILE[:-2]) if r.random() < 0.9 else "query Z { neverAField }")
    elif how == "schema_missing":
        project["schema"] = f"{name}/gone.graphql"
    elif how == "schema_syntax":
        sc.write(f"{name}/schema.graphql", r.choice(["type Query {", "nonsense [/x]", "type Query { a: [Int }"]))
    elif how == "schema_invalid":
        sc.write(f"{name}/schema.graphql", "type Query { a: DoesNotExist }")
    elif how == "scalar":
        t["scalar_definitions"] = {}
        with open(sc.join(name, "schema.graphql"), "r+") as f:
            root = re.search(r"^  query: (\w+)$", f.read(), re.M)
            f.write(f"\nscalar Unmapped\nextend type {root[1] if root else 'Query'} {{ zzUnmapped: Unmapped }}\n")
        sc.write(f"{name}/docs/zz.graphql", "query ZzUnmapped { zzUnmapped }")
    elif how == "processor":
        t["processors"] = [{"type": "turms.processors.command.CommandProcessor", "command": r.choice(["false", ["python3", "-c", "import sys; sys.exit('[/boom] {0}')"], "no-such-command-here"])}]
    elif how == "plugin":
        t["plugins"] = t["plugins"] + [gen.plug("funcs", definitions=[], funcs_glob="x", no_such=1)]
    elif how == "parser":
        t["plugins"] = [{"type": "vt_broken.BrokenPlugin"}] + t["plugins"]
    elif how == "no_documents":
        project["documents"] = f"{name}/docs/*.nothing"
    elif how == "out_is_file":
        t["out_dir"] = f"{name}_blocked"
        sc.write(f"{name}_blocked", "a file where the output directory should be")
    return how


def case(ctx):
    r = ctx.rng
    old = os.getcwd()
    with gen.Scratch() as sc:
        try:
            os.chdir(sc.path)
            play(ctx, r, sc)
        finally:
            os.chdir(old)


def play(ctx, r, sc):
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    names = r.sample(["main", "api", "beta-2", "Ünï", "x.y", "x.z", "API", "other", "default"], n)
    if "api" in names and r.random() < 0.6:
        names = list(dict.fromkeys([*names, "API"]))[-n:]
    projects, facts = {}, {}
    for i, name in enumerate(names):
        w = world.make_world(ctx.rng.getrandbits(40), world.Opts(oneof=False, n_objects=(1, 2), n_ops=(1, 2), n_root=(2, 3), max_depth=1))
        sc.write(f"{name}/schema.graphql", w.sdl)
        for fn, text in w.files.items():
            sc.write(f"{name}/docs/{fn}", text)
        out_dir = r.choice([f"out_{name}", f"deep/{name}/gen", "shared"])
        t = {**gen.turms_config(stylers=client.random_stylers(r, 0.4)), "out_dir": out_dir, "generated_name": f"{name}.py" if out_dir == "shared" else r.choice(["schema.py", "client.py"])}
        if r.random() < 0.3:
            t["dump_schema"] = True
            t["schema_name"] = f"{name}.graphql"
        if r.random() < 0.3:
            t["dump_configuration"] = True
            t["configuration_name"] = f"{name}.json"
        if r.random() < 0.25:
            t["freeze"] = {"enabled": True}
        if r.random() < 0.3:
            t["exit_on_error"] = False
        p = {"schema": f"{name}/schema.graphql", "documents": f"{name}/docs/*.graphql", "extensions": {"turms": t}}
        how = broken(r, sc, name, p) if r.random() < 0.45 else None
        code = None
        if how is None:
            code = gen.generate(p["schema"], p["documents"], copy.deepcopy({k: v for k, v in t.items() if k not in ("out_dir", "exit_on_error")}))
        target = os.path.join(t["out_dir"], t["generated_name"])
        before = None
        if r.random() < 0.6 and how != "out_is_file":
            before = r.choice(["# earlier output\n", "", "x = 'ä'\n" * 2000])
            sc.write(target, before)
        projects[name] = p
        facts[name] = {"how": how, "code": code, "target": target, "before": before, "t": t}
    single = n == 1 and r.random() < 0.5
    conf = {"projects": projects} if not single else projects[names[0]]
    if single:
        facts = {"default": facts[names[0]]}
        projects = {"default": projects[names[0]]}
        names = ["default"]
    sc.write("graphql.config.yaml", yaml.safe_dump(conf, allow_unicode=True, sort_keys=False))
    entry = r.choice(["cli", "cli", "cli", "api", "api", "subprocess"] if r.random() < 0.2 else ["cli", "cli", "api"])
    select = None
    x = r.random()
    if x < 0.25:
        select = r.choice(names)
        ctx.count("selected")
    elif x < 0.3:
        select = "no-such-project"
    strict = entry == "api" and r.random() < 0.4
    overwrite = sc.join("elsewhere") if entry == "api" and r.random() < 0.2 and n == 1 else None
    if overwrite:
        for f in facts.values():
            f["target"] = os.path.join("elsewhere", f["t"]["generated_name"])
            f["before"] = None
    before = snapshot(sc.path)
    ran = [k for k in names if select is None or k == select]
    failing = [k for k in ran if facts[k]["how"]]
    error, code = run(ctx, entry, select, strict, overwrite, sc)
    ctx.count("runs")
    ctx.count(entry)
    after = snapshot(sc.path)
    info = {"entry": entry, "selected": select, "strict": strict, "failures": {k: facts[k]["how"] for k in ran}, "exit": code, "error": repr(error)[:300],
            "exit_on_error": {k: facts[k]["t"].get("exit_on_error", True) for k in ran}, "config": conf}
    ctx.observed((entry, strict, select is None, tuple(facts[k]["how"] for k in ran)) if ran else None)
    # the exit tells
    if select == "no-such-project":
        bad = True
    elif entry == "api":
        bad = bool(failing) and strict
        ctx.count("strict", int(strict))
    else:
        bad = any(facts[k]["t"].get("exit_on_error", True) for k in failing)
        ctx.count("tolerated", int(bool(failing) and not bad))
    if not ctx.check(bool(code) == bad, "a run does not tell whether it failed", expected="failure" if bad else "success", **info):
        return
    # strict runs stop at the first failure
    done = ran
    if strict and failing:
        done = ran[:ran.index(failing[0]) + 1]
    expected_changes = set()
    for k in done:
        ctx.count("projects")
        f = facts[k]
        rel = os.path.normpath(f["target"])
        if f["how"]:
            ctx.count("failed")
            ctx.count("kept", int(f["before"] is not None))
            if not ctx.check(before.get(rel) == after.get(rel), "a failing project touches its earlier output", project=k, path=rel, existed=f["before"] is not None, **info):
                return
            continue
        expected_changes.add(rel)
        got = read(sc, rel)
        ctx.count("written")
        if not ctx.check(got == f["code"], "a project's output is not what it generates alone", project=k, path=rel, missing=got is None,
                         diff=None if got is None else diff(f["code"], got), **info):
            return
        t = f["t"]
        if t.get("dump_schema"):
            ctx.count("dumped_schemas")
            p = os.path.normpath(os.path.join(t["out_dir"], t["schema_name"]))
            expected_changes.add(p)
            want = print_schema(build_schema(read(sc, projects[k]["schema"]), assume_valid=True))
            text = read(sc, p)
            if not ctx.check(text is not None and print_schema(build_schema(text, assume_valid=True)) == want, "the dumped schema is not the project's schema", project=k, path=p, missing=text is None, **info):
                return
        if t.get("dump_configuration"):
            ctx.count("dumped_configurations")
            p = os.path.normpath(os.path.join(t["out_dir"], t["configuration_name"]))
            expected_changes.add(p)
            from .c17 import run_file
            try:
                again = run_file(sc.join(p))["default"]
            except Exception as e:
                ctx.fail("the dumped configuration does not work", project=k, path=p, error=repr(e), **info)
                return
            if not ctx.check(again == f["code"], "the dumped configuration generates something else", project=k, **info):
                return
    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    ctx.check(changed <= expected_changes, "a run touches other files", files=sorted(changed - expected_changes), **info)


def run(ctx, entry, select, strict, overwrite, sc):
    """(error, exit code)"""
    if entry == "api":
        from turms.run import gen as tgen
        with gen.quiet():
            try:
                tgen("graphql.config.yaml" if ctx.rng.random() < 0.5 else None, select, strict, overwrite)
                return None, 0
            except BaseException as e:
                return e, 1
    if entry == "subprocess":
        ctx.count("subprocesses")
        env = dict(os.environ, PYTHONPATH=gen.REPO + os.pathsep + gen.SUPPORT, TERM="dumb")
        p = subprocess.run([sys.executable, "-c", "from turms.cli.main import cli; cli()", "gen"] + ([select] if select else []), cwd=sc.path, env=env,
                           capture_output=True, text=True, timeout=120)
        return p.stderr[-300:], p.returncode
    from click.testing import CliRunner
    from turms.cli.main import cli
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = CliRunner().invoke(cli, ["gen"] + ([select] if select else []) + (["--config", "graphql.config.yaml"] if ctx.rng.random() < 0.3 else []))
    return res.exception, res.exit_code


def read(sc, rel):
    try:
        with open(sc.join(rel), encoding="utf-8", newline="") as f:
            return f.read()
    except FileNotFoundError:
        return None


def diff(a, b):
    for i, (x, y) in enumerate(zip(a.splitlines(), b.splitlines())):
        if x != y:
            return f"line {i}: {x!r} != {y!r}"
    return f"{len(a)} characters instead of {len(b)}"

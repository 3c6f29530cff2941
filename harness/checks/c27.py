"""C27: scaffolded configurations work, downloaded schemas are faithful."""
import contextlib
import importlib.util
import json
import os
import sys
import types as pytypes

import toml
import yaml
from graphql import build_schema, lexicographic_sort_schema, print_schema

from .. import confs, gen, world
from ..meaning import difference
from . import c20

PROP = "C27"
RULE = ("init runs for every template, file name and set of installed tools, with and without an existing configuration and any answer; the configuration must load, hold exactly "
        "what the template says for the installed tools, and gen must work with it out of the box. download runs for projects whose schemas are files, URLs and endpoints "
        "(with headers), some failing: each file must rebuild to the very same schema and generate the same code, failing downloads leave existing files alone and exit with an "
        "error naming the reason. Non-trivial: a file judged; distinct by (command, facts).")
N_QUICK, N_THOROUGH = 400, 5000
REQUIRE = {"inits": 100, "kept": 15, "overwritten": 10, "generated": 60, "without_tools": 40, "templates_documents": 10, "templates_rath": 10, "templates_gql": 10, "templates_strawberry": 10,
           "json": 10, "toml": 10, "downloads": 80, "downloaded": 100, "endpoints": 15, "with_headers": 15, "failed": 20, "kept_downloads": 10, "same_code": 60}

TOOLS = {"black": "turms.processors.black.BlackProcessor", "isort": "turms.processors.isort.IsortProcessor", "libcst": "turms.processors.merge.MergeProcessor"}
NAMES = ["graphql.config.yaml", "graphql.config.yml", ".graphqlrc.yaml", "graphql.config.json", ".graphqlrc.json", "graphql.config.toml", ".graphqlrc.toml", "mine.yaml", "mine.json", "mine.toml"]
SCANNED = [n for n in NAMES if not n.startswith("mine")]


@contextlib.contextmanager
def inside(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def without(tools):
    real = importlib.util.find_spec

    def find(name, *a, **k):
        return None if name.partition(".")[0] in tools else real(name, *a, **k)
    importlib.util.find_spec = find
    try:
        yield
    finally:
        importlib.util.find_spec = real


@contextlib.contextmanager
def modules():
    """What the templates expect users to have."""
    def module(name, **kw):
        m = pytypes.ModuleType(name)
        m.__dict__.update(kw)
        return m
    calls = {n: (lambda *a, **k: None) for n in ("execute", "aexecute", "subscribe", "asubscribe")}
    new = {"rath": module("rath", Rath=type("Rath", (), {})), "gql": module("gql", Client=type("Client", (), {})), "api": module("api"), "api.proxies": module("api.proxies", **calls)}
    old = {n: sys.modules.get(n) for n in new}
    sys.modules.update(new)
    try:
        yield
    finally:
        for n, m in old.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


def cli(args, answer=None):
    import warnings

    from click.testing import CliRunner
    from turms.cli.main import cli as turms
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return CliRunner().invoke(turms, args, input=answer)


def loaded(name, text):
    return {"json": json.loads, "toml": toml.loads}.get(name.rpartition(".")[2], yaml.safe_load)(text)


def case(ctx):
    with gen.Scratch() as sc, inside(sc.path):
        (starts if ctx.rng.random() < 0.55 else downloads)(ctx, sc)


# ---- init ----------------------------------------------------------------

def starts(ctx, sc):
    r = ctx.rng
    template = r.choice(["documents", "rath", "gql", "strawberry"])
    name = r.choice(NAMES)
    hidden = {t for t in TOOLS if r.random() < 0.3}
    args = ["init"]
    if name != "graphql.config.yaml" or r.random() < 0.3:
        args += ["--config", name]
    if template != "documents" or r.random() < 0.5:
        args += ["--template", template]
    existing = r.choice([None, None, "projects: {}\n", "# mine \u2713\n"])
    answer = None
    keep = False
    if existing is not None:
        sc.write(name, existing)
        answer = r.choice(["y\n", "yes\n", "n\n", "\n", "", "no\n"])
        keep = not answer.startswith("y")
    ctx.count("inits")
    with without(hidden):
        res = cli(args, answer)
    with open(name, encoding="utf-8") if os.path.exists(name) else contextlib.nullcontext() as f:
        text = f.read() if f else None
    others = set(os.listdir(".")) - {name}
    if not ctx.check(not others, "init writes other files", files=sorted(others)):
        return
    ctx.observed(("init", template, name, tuple(sorted(hidden)), existing, answer))
    if keep:
        ctx.count("kept")
        ctx.check(text == existing, "an existing configuration is overwritten without consent", answer=answer, output=res.output[-600:], text=text)
        return
    if existing:
        ctx.count("overwritten")
    if not ctx.check(res.exit_code == 0 and text is not None and text != existing, "init does not write the configuration", args=args, code=res.exit_code, error=repr(res.exception), output=res.output[-600:]):
        return
    ctx.count("templates_" + template)
    ctx.count("without_tools", int(bool(hidden)))
    suffix = name.rpartition(".")[2]
    if suffix in ("json", "toml"):
        ctx.count(suffix)
    try:
        d = loaded(name, text)
        turms = d["projects"]["default"]["extensions"]["turms"]
    except Exception as e:
        ctx.fail("the starter configuration can not be read", name=name, error=repr(e), text=text)
        return
    have = {p["type"] for p in turms.get("processors", [])}
    for t, p in TOOLS.items():
        want = t not in hidden and (t != "libcst" or template == "strawberry")
        if not ctx.check((p in have) == want, "the starter configuration is not adapted to the installed tools", tool=t, installed=t not in hidden, template=template, processors=sorted(have)):
            return
    # the user fills in what is theirs: the schema and the documents
    project = d["projects"]["default"]
    w = world.make_world(ctx.seed, world.Opts(custom_scalars=False, keywords=False, conventional=True, oneof=False, union_element=False, directives=False,
                                              subscriptions=template != "gql" or r.random() < 0.7))
    kinds = {k: [n for n, (kind, _) in w.operations.items() if kind == k] for k in ("query", "mutation", "subscription")}
    if template == "strawberry":
        if not ctx.check(not str(project["schema"]).startswith("http") and not project.get("documents"), "the strawberry template needs a schema of others", project=project):
            return
        sc.write(project["schema"], w.sdl)
    else:
        sc.write("schema.graphql", w.sdl)
        project["schema"] = "schema.graphql"
        if not ctx.check(project.get("documents") == "graphql/**.graphql", "the template does not read graphql/*.graphql as the hint says", project=project):
            return
        for n, t in w.files.items():
            sc.write(os.path.join("graphql", os.path.basename(n)), t)
        if len({os.path.basename(n) for n in w.files}) != len(w.files):
            return
        sc.write(name, {"json": json.dumps, "toml": toml.dumps}.get(suffix, yaml.safe_dump)(d))
    for again in range(2):
        res = cli(["gen"] + (["--config", name] if name not in SCANNED or r.random() < 0.3 else []))
        out = os.path.join(turms["out_dir"], turms.get("generated_name", "schema.py"))
        if res.exit_code != 0 or not os.path.exists(out):
            ctx.fail("gen does not work with the starter configuration", template=template, name=name, code=res.exit_code, output=res.output[-2500:], hidden=sorted(hidden), sdl=w.sdl, documents=w.doc_text)
            return
        with open(out, encoding="utf-8") as f:
            code = f.read()
        if again and not ctx.check(code == first, "generating again changes the output", template=template):
            return
        first = code
    ctx.count("generated")
    with modules():
        try:
            mod = gen.load(code)
        except Exception as e:
            ctx.fail("what the starter configuration generates does not load", template=template, error=repr(e), code=code)
            return
    try:
        if template == "strawberry":
            missing = [n for n in w.objects if not any(k.lower().replace("_", "") == n.lower().replace("_", "") for k in vars(mod))]
            ctx.check(not missing, "types of the schema are missing from the module", missing=missing)
            return
        ops = gen.operations_of(mod)
        n = sum(map(len, kinds.values()))
        if not ctx.check(len(ops) == n, "the template does not generate a model per operation", got=sorted(ops), want=sorted(w.operations)):
            return
        import inspect
        fs = [f for f in vars(mod).values() if inspect.isfunction(f) and f.__module__ == mod.__name__]
        asynchronous = [f for f in fs if inspect.iscoroutinefunction(f) or inspect.isasyncgenfunction(f)]
        want = {"documents": (0, 0), "rath": (n, n), "gql": (n, 0)}[template]
        if not ctx.check((len(fs) - len(asynchronous), len(asynchronous)) == want, "the template does not generate its call functions", template=template, functions=sorted(f.__name__ for f in fs), want=want):
            return
        for f in fs:
            ps = inspect.signature(f).parameters
            ok = list(ps)[:1] == ["client"] if template == "gql" else ("rath" in ps and ps["rath"].default is None)
            if not ctx.check(ok, "a call function does not take its client", template=template, function=f.__name__, signature=str(ps)):
                return
    finally:
        gen.unload(mod)
    ctx.sample({"template": template, "name": name, "processors": sorted(have)})


# ---- download ------------------------------------------------------------

def same_schema(a, b):
    return print_schema(lexicographic_sort_schema(a)) == print_schema(lexicographic_sort_schema(b))


def downloads(ctx, sc):
    r = ctx.rng
    site, projects, facts = {}, {}, {}
    names = r.sample(["default", "alpha", "beta", "my-project", "x_1", "api", "api.v1", "api.v2", "API"], r.randint(1, 3))
    headers = {"Authorization": "Bearer " + str(r.randint(1000, 9999))}
    srv = c20.serve(site)
    try:
        url = f"http://127.0.0.1:{srv.server_address[1]}"
        for i, n in enumerate(names):
            w = world.make_world(f"{ctx.seed}:{i}", world.Opts(oneof=False, union_element=False, deprecated=r.random() < 0.5))
            schema = build_schema(w.sdl)
            how = r.choice(["file", "url", "secret", "list", "endpoint", "secret endpoint"])
            if "endpoint" in how and not c20.introspectable_schema(w):
                how = "url"
            bad = r.random() < 0.2
            site[f"/{i}.graphql"] = {"kind": "sdl", "text": w.sdl}
            site[f"/s{i}.graphql"] = {"kind": "sdl", "text": w.sdl, "headers": headers}
            site[f"/{i}"] = {"kind": "api", "schema": schema, "get": r.choice(["405", "html", "json", "empty"])}
            site[f"/s{i}"] = {"kind": "api", "schema": schema, "headers": headers, "get": "405"}
            sc.write(f"p{i}/schema.graphql", w.sdl)
            for fn, t in w.files.items():
                sc.write(os.path.join(f"p{i}", "docs", fn), t)
            source = {"file": f"p{i}/schema.graphql", "url": f"{url}/{i}.graphql", "secret": {f"{url}/s{i}.graphql": {"headers": headers}}, "list": [f"p{i}/schema.graphql"],
                      "endpoint": f"{url}/{i}", "secret endpoint": {f"{url}/s{i}": {"headers": headers}}}[how]
            if bad:
                source = r.choice([f"p{i}/nothing.graphql", f"{url}/nothing", f"{url}/s{i}.graphql", sc.write(f"p{i}/broken.graphql", "type Query { a: Missing }\n")])
            plugins, stylers, conf = confs.random_conf(r, w)
            t = gen.turms_config(plugins, stylers=stylers, **conf)
            if r.random() < 0.2:
                t["allow_introspection"] = False      # decides about generating, downloading is asked for
                if "endpoint" in how:
                    t.pop("allow_introspection")
            projects[n] = {"schema": source, "documents": f"p{i}/docs/*.graphql", "extensions": {"turms": t}}
            facts[n] = {"schema": schema, "bad": bad, "how": how, "w": w, "conf": t, "i": i}
        sc.write("graphql.config.yaml", yaml.safe_dump({"projects": projects}, allow_unicode=True, sort_keys=False))
        args, order = ["download"], list(projects)
        if r.random() < 0.3:
            pick = r.choice(names)
            args.append(pick)
            order = [pick]
        suffix = ".schema.graphql"
        if r.random() < 0.4:
            suffix = r.choice([".graphql", "-schema.gql", ".sdl"])
            args += ["--out", suffix]
        folder = "."
        if r.random() < 0.5:
            folder = "schemas"
            os.makedirs(folder)
            args += ["--dir", folder if r.random() < 0.5 else sc.join(folder)]
        old = {}
        for n in names:
            if r.random() < 0.5:
                old[n] = "# an earlier download\n"
                sc.write(os.path.join(folder, n + suffix), old[n])
        before = listing()
        ctx.count("downloads")
        res = cli(args)
        failing = [n for n in order if facts[n]["bad"]]
        info = dict(args=args, projects={n: (facts[n]["how"], facts[n]["bad"]) for n in order}, output=res.output[-1500:])
        ctx.observed(("download", tuple((facts[n]["how"], facts[n]["bad"]) for n in order), suffix, folder))
        if not ctx.check((res.exit_code != 0) == bool(failing), "the exit code of download does not tell whether it worked", code=res.exit_code, **info):
            return
        if failing:
            ctx.count("failed")
            if not ctx.check("Error" in res.output and len(res.output.strip()) > 20, "a failing download does not say why", **info):
                return
        for n in names:
            p = os.path.join(folder, n + suffix)
            try:
                with open(p, encoding="utf-8", newline="") as f:
                    text = f.read()
            except FileNotFoundError:
                text = None
            unselected = n not in order
            if unselected or facts[n]["bad"]:
                ctx.count("kept_downloads", int(n in old))
                if not ctx.check(text == old.get(n), "a failing or unselected download changes a file", project=n, before=old.get(n), after=text, **info):
                    return
                continue
            if failing and order.index(n) > order.index(failing[0]) and text == old.get(n):
                continue                              # the first failure ends the command
            if not ctx.check(text is not None and text != old.get(n), "a schema is not downloaded", project=n, **info):
                return
            ctx.count("downloaded")
            ctx.count("endpoints", int("endpoint" in facts[n]["how"]))
            ctx.count("with_headers", int("secret" in facts[n]["how"]))
            try:
                ok = same_schema(build_schema(text), facts[n]["schema"])
                why = None
            except Exception as e:
                ok, why = False, repr(e)
            if not ctx.check(ok, "the downloaded schema is not the schema", project=n, how=facts[n]["how"], error=why, got=text, want=facts[n]["w"].sdl):
                return
            docs = os.path.join(f"p{facts[n]['i']}", "docs", "*.graphql")
            try:
                a = gen.generate(f"p{facts[n]['i']}/schema.graphql", docs, facts[n]["conf"])
                b = gen.generate(p, docs, facts[n]["conf"])
            except Exception as e:
                ctx.fail("generating from the downloaded schema fails", project=n, error=repr(e), got=text)
                return
            ctx.count("same_code")
            d = difference(a, b)
            if not ctx.check(not d, "the downloaded schema generates other code", project=n, difference=d):
                return
        new = listing() - before
        ctx.check(new <= {os.path.join(folder, n + suffix) for n in order} | {os.path.normpath(os.path.join(folder, n + suffix)) for n in order},
                  "download writes other files", files=sorted(new), **info)
    finally:
        srv.shutdown()
        srv.server_close()


def listing():
    return {os.path.normpath(os.path.join(d, f)) for d, _, fs in os.walk(".") for f in fs}


# ---- known findings ------------------------------------------------------

def directives():
    sdl = 'directive @oneOf on INPUT_OBJECT\ninput Choice @oneOf { a: Int b: String }\ntype Query { q(c: Choice): Int }\n'
    with gen.Scratch() as sc, inside(sc.path):
        sc.write("s.graphql", sdl)
        sc.write("graphql.config.yaml", yaml.safe_dump({"projects": {"default": {"schema": "s.graphql", "extensions": {"turms": gen.turms_config([gen.plug("inputs")])}}}}))
        res = cli(["download"])
        if res.exit_code:
            return f"download failed: {res.output}"
        with open("default.schema.graphql", encoding="utf-8") as f:
            return None if "input Choice @oneOf" in f.read() else "downloaded schemas lack the applied directives"


PROBES = {"download-drops-applied-directives": directives}

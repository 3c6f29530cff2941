"""C14: processors change how the code is written, not what it does, and their failures surface."""
import ast
import inspect
import json
import os
import subprocess
import sys

from .. import client, confs, gen, world

PROP = "C14"
RULE = ("Random projects are generated plain and through random chains of processors (black, isort, ruff formatting and fixing, disclaimers, external commands). The processed "
        "module must load and be the same program up to the order of imports, imports ruff finds unused and white space of docstrings; disclaimers come first, word for word; "
        "commands receive exactly the code and their output is the code. Commands and processors which fail (exit codes, signals, missing programs, invalid code) must fail the "
        "generation with their message. Some runs use a locale without unicode. Non-trivial: a processed or refused module; distinct by (chain, outcome).")
N_QUICK, N_THOROUGH = 400, 6000
REQUIRE = {"processed": 100, "statements": 1500, "commands": 40, "piped_bytes": 50000, "disclaimers": 30, "failures": 20, "loaded": 100, "ruff": 50, "black": 40, "isort": 40, "fixed": 15, "locales": 5}

PLUGINS = {"black": "turms.processors.black.BlackProcessor", "isort": "turms.processors.isort.IsortProcessor", "ruff": "turms.processors.ruff.RuffProcessor",
           "disclaimer": "turms.processors.disclaimer.DisclaimerProcessor", "command": "turms.processors.command.CommandProcessor"}

SCRIPT = '''import sys, os, signal
mode, record = sys.argv[1], sys.argv[2]
data = sys.stdin.buffer.read()
with open(record, "wb") as f:
    f.write(data)
if mode == "same":
    sys.stdout.buffer.write(data)
elif mode == "append":
    sys.stdout.buffer.write(data + b"\\nAPPENDED = 'by the command \\xc3\\xa9'\\n")
elif mode == "prepend":
    sys.stderr.write("a note on stderr, which is no failure")
    sys.stdout.buffer.write(b"# -*- written by the command \\xe2\\x9c\\x93\\n" + data)
elif mode == "fail":
    sys.stdout.buffer.write(data)
    sys.stderr.write("the command is unhappy")
    sys.exit(int(sys.argv[3]))
elif mode == "kill":
    sys.stdout.buffer.write(data)
    sys.stdout.flush()
    os.kill(os.getpid(), signal.SIGKILL)
elif mode == "break":
    sys.stdout.buffer.write(data + b"\\nclass Broken(:\\n")
'''

DISCLAIMERS = ["# generated, do not edit", '"""Made with love\n\nby "turms" ✓"""', "# línea única\n# second line\n", "# fmt: off", "import sys  # sys is needed", "#!/usr/bin/env python\n# -*- coding: utf-8 -*-"]


def case(ctx):
    r = ctx.rng
    w = world.make_world(f"{ctx.seed}", world.Opts(n_ops=(1, 3), n_frags=(0, 4)))
    if r.random() < 0.25:
        plugins = [gen.plug("enums", skip_unreferenced=False), gen.plug("objects")] if r.random() < 0.5 else [gen.plug("strawberry")]
    else:
        plugins = list(gen.CLIENT_PLUGINS) + ([gen.plug("funcs", definitions=[{"type": "query", "use": "vt_proxies.execute"}, {"type": "mutation", "use": "vt_proxies.execute"}])] if r.random() < 0.3 else [])
    stylers = client.random_stylers(r)
    with gen.Scratch() as sc:
        sp, dp = gen.write_world(sc, w)
        conf = gen.turms_config(plugins, stylers)
        try:
            raw = gen.generate(sp, dp, conf)
            gen.unload(gen.load(raw))
        except Exception:
            return                      # judged by other checks
        script = sc.write("a tool/tool.py", SCRIPT)
        fault = r.random() < 0.25
        chain, marks, expect = build_chain(r, sc, script, fault)
        conf = dict(conf, processors=chain)
        info = dict(chain=[dict(c) for c in chain], raw=raw)
        narrow = not fault and r.random() < 0.12
        try:
            got = in_locale(sc, sp, dp, conf) if narrow else gen.generate(sp, dp, conf)
        except Exception as e:
            if expect is None:
                ctx.fail("processing fails", error=repr(e)[:3000], narrow=narrow, **info)
                return
            ctx.count("failures")
            ctx.observed(("failure", expect[0], len(chain)))
            if expect[1] not in str(e):
                ctx.fail("the failure of a processor is not explained", error=str(e)[:2000], expected=expect[1], **info)
            return
        if expect is not None:
            ctx.fail("the failure of a processor goes unnoticed", failure=expect[0], got=got[:2000], **info)
            return
        if narrow:
            ctx.count("locales")
        names = [c["type"].rsplit(".", 1)[1] for c in chain]
        for k in ("black", "isort", "ruff"):
            ctx.count(k, sum(c["type"] == PLUGINS[k] for c in chain))
        fixed = any(c.get("fix") for c in chain)
        ctx.count("fixed", fixed)
        judge(ctx, raw, got, chain, marks, fixed, info, names)


def build_chain(r, sc, script, fault):
    chain, marks, expect = [], [], None
    for i in range(r.randint(1, 4)):
        k = r.choice(["black", "isort", "ruff", "disclaimer", "command"])
        c = {"type": PLUGINS[k]}
        if k == "ruff":
            c.update(format=r.random() < 0.7, fix=r.random() < 0.5)
        if k == "disclaimer" and r.random() < 0.8:
            c["disclaimer"] = r.choice(DISCLAIMERS)
        if k == "command":
            record = sc.join(f"record {i}")
            mode = r.choice(["same", "same", "append", "prepend"])
            argv = [sys.executable, script, mode, record]
            c["command"] = argv if r.random() < 0.5 else f"{sys.executable} '{script}' {mode} \"{record}\""
            marks.append((i, mode, record))
        chain.append(c)
    if fault:
        kind = r.choice(["exit", "exit", "kill", "missing", "quoting", "invalid", "invalid"])
        at = r.randint(0, len(chain))
        record = sc.join("record f")
        if kind == "exit":
            c = {"type": PLUGINS["command"], "command": [sys.executable, script, "fail", record, str(r.choice([1, 2, 77, 255]))]}
            expect = (kind, "the command is unhappy")
        elif kind == "kill":
            c = {"type": PLUGINS["command"], "command": [sys.executable, script, "kill", record]}
            expect = (kind, "CommandProcessor")
        elif kind == "missing":
            c = {"type": PLUGINS["command"], "command": r.choice([["/nowhere/tool"], "no-such-tool --x"])}
            expect = (kind, "CommandProcessor")
        elif kind == "quoting":
            c = {"type": PLUGINS["command"], "command": "tool 'unclosed"}
            expect = (kind, "CommandProcessor")
        else:
            after = r.choice(["black", "ruff"])
            chain[at:at] = [{"type": PLUGINS["command"], "command": [sys.executable, script, "break", record]}]
            c = {"type": PLUGINS[after], **({"format": True} if after == "ruff" else {})}
            chain[at + 1:at + 1] = [c]
            return chain, [], (kind, "Processor failed")
        chain[at:at] = [c]
        marks = []
    return chain, marks, expect


def in_locale(sc, sp, dp, conf):
    """The generated code of a process whose locale knows no unicode."""
    out = sc.join("narrow.py")
    spec = sc.write("narrow.json", json.dumps([sp, dp, conf, out]))
    env = dict(os.environ, LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    code = ("import json, sys; sys.path[:0] = %r; from harness import gen; sp, dp, conf, out = json.load(open(%r)); "
            "code = gen.generate(sp, dp, conf); open(out, 'w', encoding='utf-8').write(code)" % ([p for p in sys.path if p], spec))
    p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, encoding="utf-8", errors="replace")
    if p.returncode:
        raise RuntimeError(p.stderr[-2500:])
    with open(out, encoding="utf-8") as f:
        return f.read()


def judge(ctx, raw, got, chain, marks, fixed, info, names):
    def fail(what, **kw):
        ctx.fail(what, got=got[:4000], **kw, **info)
    extra = []
    # commands see the code and decide what comes out of them
    for i, mode, record in marks:
        ctx.count("commands")
        try:
            with open(record, "rb") as f:
                data = f.read().decode("utf-8")
        except (OSError, UnicodeDecodeError) as e:
            return fail("a command did not get the code", error=repr(e))
        ctx.count("piped_bytes", len(data))
        if i == 0 and data != raw:
            return fail("a command got something else than the generated code", received=data[:3000])
        if i == len(chain) - 1:
            want = {"same": data, "append": data + "\nAPPENDED = 'by the command é'\n", "prepend": "# -*- written by the command ✓\n" + data}[mode]
            if got != want:
                return fail("the output of the last command is not the code", expected=want[:3000])
        elif mode == "prepend" and "# -*- written by the command ✓" not in got:
            return fail("the output of a command got lost")
        if mode == "append":
            extra += ast.parse("APPENDED = 'by the command é'\n").body
    texts = [c["disclaimer"] for c in chain if c["type"] == PLUGINS["disclaimer"] and "disclaimer" in c]
    for t in texts:
        ctx.count("disclaimers")
        if chain[-1].get("disclaimer") == t and not got.startswith(t):
            return fail("the disclaimer is not at the start", disclaimer=t)
        for line in t.splitlines():
            if line.startswith("#") and line not in got:
                return fail("a disclaimer got lost", disclaimer=t)
    try:
        a, b = ast.parse(raw), ast.parse(got)
    except SyntaxError as e:
        return fail("the processed code is not valid", error=repr(e))
    ctx.count("processed")
    ctx.observed((tuple(names), fixed))
    ia, sa = split(a)
    ib, sb = split(b)
    ia |= {("", "sys", None)} if any("import sys" in t for t in texts) else set()
    if ib - ia or (ia - ib and not fixed):
        return fail("the imports changed", lost=sorted(map(str, ia - ib)), added=sorted(map(str, ib - ia)))
    sb = [s for s in sb if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))]     # disclaimers
    want = [s for s in sa if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] + extra
    ctx.count("statements", len(want))
    if len(want) != len(sb):
        return fail("the number of statements changed", before=len(want), after=len(sb))
    for x, y in zip(want, sb):
        if ast.dump(clean(x)) != ast.dump(clean(y)):
            return fail("a statement changed", before=ast.unparse(x)[:1500], after=ast.unparse(y)[:1500])
    try:
        gen.unload(gen.load(got))
    except Exception as e:
        return fail("the processed module does not load", error=repr(e))
    ctx.count("loaded")


def split(tree):
    imports, rest = set(), []
    for s in tree.body:
        if isinstance(s, ast.Import):
            imports |= {("", a.name, a.asname) for a in s.names}
        elif isinstance(s, ast.ImportFrom):
            imports |= {(s.module, a.name, a.asname) for a in s.names}
        else:
            rest.append(s)
    return imports, rest


def clean(s):
    """A statement whose docstrings are reduced to their words."""
    for n in ast.walk(s):
        if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                and isinstance(n.body[0].value.value, str):
            n.body[0].value.value = " ".join(inspect.cleandoc(n.body[0].value.value).split())
    return s


def ambiguous_names():
    """Names which ruff dislikes but can not fix do not fail the generation."""
    with gen.Scratch() as sc:
        sp = sc.write("schema.graphql", "type Cat { l: Int O: Int }\ninput I { l: Int }\ntype Query { l(I: I): Cat }")
        dp = sc.write("docs/a.graphql", "query Q($l: I) { l(I: $l) { l O } }")
        code = gen.generate(sp, dp, gen.turms_config(gen.CLIENT_PLUGINS, processors=[{"type": PLUGINS["ruff"], "fix": True}]))
    ast.parse(code)


REGRESSIONS = {"ambiguous-names": ambiguous_names}

"""C26: watching keeps the generated file in step with the documents."""
import os
import signal
import subprocess
import sys
import threading
import time

import yaml

from .. import gen

PROP = "C26"
RULE = ("The watch command runs as a process in scratch projects (documents in folders, with other suffixes, outside of the working directory, configured for the project or for "
        "turms, one of several projects) while random edits happen: documents written in place, replaced, added, removed, written in bursts, broken and repaired, the schema "
        "extended, unrelated files changed. After every edit the generated file must become what a fresh generation gives; broken documents leave it as it is and do not end the "
        "watch; unrelated files and its own output start nothing. Non-trivial: an edit; distinct by (kind of edit, layout, content).")
N_QUICK, N_THOROUGH = 32, 320
JOBS = 16
TASKS_PER_CHILD = 4
REQUIRE = {"sessions": 20, "edits": 120, "regenerated": 90, "written": 10, "replaced": 8, "added": 8, "removed": 4, "bursts": 8, "broken": 15, "repaired": 10, "schema_edits": 6, "unrelated": 8,
           "outside": 2, "suffixes": 5, "overridden": 2, "selected": 3, "refused": 2}
PATIENCE = 60

TYPES = ["String", "Int!", "[Float!]", "Boolean", "ID!", "[String]!"]
_polling = []


def polling():
    """Whether the file system of this sandbox does not notify."""
    if not _polling:
        import watchfiles
        with gen.Scratch() as sc:
            seen, stop = threading.Event(), threading.Event()

            def look():
                for _ in watchfiles.watch(sc.path, stop_event=stop, debounce=50, step=20, rust_timeout=200, yield_on_timeout=True):
                    if _:
                        seen.set()
                        return
            t = threading.Thread(target=look, daemon=True)
            t.start()
            for i in range(40):
                sc.write("x.txt", str(i))
                if seen.wait(0.1):
                    break
            stop.set()
            t.join(5)
        _polling.append(not seen.is_set())
    return _polling[0]


class Project:
    """A project on disk and what should be generated from it."""

    def __init__(self, ctx, sc):
        r = self.r = ctx.rng
        self.ctx, self.sc = ctx, sc
        self.fields = {f"f{i}": r.choice(TYPES) for i in range(r.randint(3, 6))}
        self.suffix = r.choice([".graphql", ".graphql", ".gql", ".graphqls"])
        self.where = r.choice(["docs", "docs", "a/b", "../outside"])
        recursive = r.random() < 0.5
        self.glob = self.where + ("/**/*" if recursive else "/*") + self.suffix
        self.depths = ["", "sub", "sub/deeper"] if recursive else [""]
        for d in self.depths:                 # files in folders made in the same moment may go unnoticed by the system
            os.makedirs(self.path(os.path.join(self.where, d)), exist_ok=True)
        self.docs = {}
        self.n = 0
        self.out_dir, self.name = r.choice(["api", "out/gen", "."]), r.choice(["schema.py", "client.py"])
        if self.suffix != ".graphql":
            ctx.count("suffixes")
        if self.where.startswith(".."):
            ctx.count("outside")
        for _ in range(r.randint(1, 3)):
            self.add()
        self.turms = gen.turms_config(out_dir=self.out_dir, generated_name=self.name)
        project = {"schema": "schema.graphql", "documents": self.glob, "extensions": {"turms": self.turms}}
        if r.random() < 0.25:
            ctx.count("overridden")
            project["documents"] = "nowhere/*.graphql"
            project["extensions"] = {"turms": dict(self.turms, documents=self.glob)}
        self.select = []
        conf = {"projects": {"default": project}}
        if r.random() < 0.4:
            ctx.count("selected")
            conf["projects"]["other"] = {"schema": "schema.graphql", "documents": "other/*.graphql", "extensions": {"turms": dict(self.turms, generated_name="other.py")}}
            self.select = ["default"]
        self.file("graphql.config.yaml", yaml.safe_dump(conf, sort_keys=False))
        self.write_schema()
        for p in self.docs:
            self.write(p)

    def path(self, rel):
        return os.path.normpath(self.sc.join("work", rel))

    def file(self, rel, text, replace=False):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if replace:
            tmp = p + "~"
            with open(tmp, "w", encoding="utf-8") as f:
                f.write(text)
            os.replace(tmp, p)
        else:
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)

    @property
    def output(self):
        return self.path(os.path.join(self.out_dir, self.name))

    def read(self):
        try:
            with open(self.output, encoding="utf-8") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def write_schema(self):
        self.file("schema.graphql", "type Query {\n" + "".join(f"  {k}: {t}\n" for k, t in self.fields.items()) + "}\n")

    def text(self, op):
        self.n += 1
        fs = self.r.sample(sorted(self.fields), self.r.randint(1, len(self.fields)))
        return f"query {op} {{\n" + "".join(f"  {'a%d: ' % self.n if i == 0 else ''}{f}\n" for i, f in enumerate(fs)) + "}\n"

    def add(self):
        self.n += 1
        op = f"Op{self.n}"
        p = os.path.join(self.where, self.r.choice(self.depths), f"file{self.n}{self.suffix}")
        self.docs[p] = (op, self.text(op))
        return p

    def change(self, p):
        op = self.docs[p][0]
        self.docs[p] = (op, self.text(op))

    def write(self, p, replace=False):
        self.file(p, self.docs[p][1], replace)

    def expected(self):
        return gen.generate(self.path("schema.graphql"), os.path.join(self.sc.join("work"), self.glob), self.turms)


def case(ctx):
    r = ctx.rng
    with gen.Scratch() as sc:
        p = Project(ctx, sc)
        env = dict(os.environ, PYTHONPATH=gen.REPO + os.pathsep + gen.SUPPORT, TERM="dumb")
        if polling():
            env["WATCHFILES_FORCE_POLLING"] = "1"
        command = [sys.executable, "-c", "from turms.cli.main import cli; cli()", "watch"]
        if p.select and r.random() < 0.5:
            # two projects can not be watched at once
            q = subprocess.run(command, cwd=p.path("."), env=env, capture_output=True, text=True, timeout=120)
            ctx.count("refused")
            if not ctx.check(q.returncode != 0 and not os.path.exists(p.output), "watching several projects is not refused", code=q.returncode, output=(q.stdout + q.stderr)[-800:]):
                return
        log = open(sc.join("watch.log"), "wb")
        proc = subprocess.Popen(command + p.select, cwd=p.path("."), env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            session(ctx, p, proc)
        finally:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            proc.wait()
            log.close()
        if ctx.fails:
            with open(sc.join("watch.log"), "rb") as f:
                ctx.fails[-1]["detail"]["log"] = f.read()[-1500:].decode("utf-8", "replace")


def arrives(p, proc, want, seconds=PATIENCE, again=None):
    """Wait until the output holds what is wanted."""
    end = time.time() + seconds
    last = time.time()
    while time.time() < end:
        if p.read() == want:
            return True
        if proc.poll() is not None:
            return False
        if again and time.time() - last > 1.5:
            again()
            last = time.time()
        time.sleep(0.05)
    return False


def session(ctx, p, proc):
    r = ctx.rng
    ctx.count("sessions")
    first = sorted(p.docs)[0]
    want = p.expected()
    # until the watch has begun nothing is noticed, so keep saving
    if not arrives(p, proc, want, again=lambda: p.write(first)):
        ctx.fail("a saved document does not lead to a generated file", glob=p.glob, alive=proc.poll(), got=p.read(), want=want)
        return
    time.sleep(1.7)                           # saves which have not been looked at yet
    kinds = ["written", "replaced", "added", "bursts", "broken", "broken", "removed", "schema_edits", "unrelated", "deleted_output"]
    for step in range(7):
        kind = r.choice(kinds)
        if kind == "removed" and len(p.docs) < 2:
            kind = "added"
        ctx.count("edits")
        ctx.count(kind)
        files = sorted(p.docs)
        f = r.choice(files)
        before = p.read()
        if kind in ("written", "replaced"):
            p.change(f)
            p.write(f, kind == "replaced")
        elif kind == "added":
            p.write(p.add(), r.random() < 0.3)
        elif kind == "removed":
            os.remove(p.path(f))
            del p.docs[f]
        elif kind == "bursts":
            for _ in range(r.randint(3, 8)):
                f = r.choice(files)
                p.change(f)
                p.write(f, r.random() < 0.3)
                time.sleep(r.choice([0, 0.02, 0.3, 0.7]))
        elif kind == "schema_edits":
            p.fields[f"g{len(p.fields)}"] = r.choice(TYPES)
            p.write_schema()
            p.change(f)
            op = p.docs[f][0]
            p.docs[f] = (op, f"query {op} {{ {' '.join(p.fields)} }}\n")
            p.write(f)
        elif kind == "deleted_output":
            os.remove(p.output)
            p.change(f)
            p.write(f)
        elif kind == "broken":
            op = p.docs[f][0]
            p.file(f, r.choice([f"query {op} {{", f"query {op} {{ noSuchField }}\n", "not graphql [/] [bold]", f"query {op} {{ f0 }} query {op} {{ f1 }}\n"]))
            time.sleep(1.6)
            ctx.observed(("broken", p.glob))
            if proc.poll() is not None:
                ctx.fail("a broken document ends the watch", exit=proc.poll(), glob=p.glob)
                return
            if p.read() != before:
                ctx.fail("a broken document changes the generated file", glob=p.glob, before=before, after=p.read())
                return
            p.change(f)
            p.write(f)
            ctx.count("repaired")
        elif kind == "unrelated":
            marker = "# nobody regenerates this\n"
            with open(p.output, "w") as h:
                h.write(marker)
            p.file(r.choice(["notes.txt", "docs/readme.md", "tool.py", "data.json"]), "text " * step)
            time.sleep(1.6)
            ctx.observed(("unrelated", p.glob))
            if p.read() != marker:
                ctx.fail("an unrelated file or the output itself starts a generation", glob=p.glob)
                return
            p.change(f)
            p.write(f)
        want = p.expected()
        ctx.observed((kind, p.glob, p.out_dir, len(p.docs), len(want)))
        if not arrives(p, proc, want):
            ctx.fail("the generated file does not follow the documents", edit=kind, glob=p.glob, file=f, exit=proc.poll(), got=p.read(), want=want)
            return
        ctx.count("regenerated")
    ctx.sample({"glob": p.glob, "documents": sorted(p.docs), "output": p.out_dir})

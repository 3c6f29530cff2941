import os, sys, tempfile, types, glob, io, contextlib, shutil
for k in list(os.environ):
    if k.startswith("TURMS_"):
        del os.environ[k]
_tmp = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(shutil.rmtree, _tmp, True)
CLIENT = ["enums.EnumsPlugin", "inputs.InputsPlugin", "fragments.FragmentsPlugin", "operations.OperationsPlugin"]


def gen_code(sdl, docs, plugins=None, stylers=(), **conf):
    from turms.config import GraphQLProject
    from turms.run import generate
    d = tempfile.mkdtemp(dir=_tmp)
    open(os.path.join(d, "schema.graphql"), "w").write(sdl)
    docs = {"a.graphql": docs} if isinstance(docs, str) else docs
    os.mkdir(os.path.join(d, "docs"))
    for n, t in docs.items():
        open(os.path.join(d, "docs", n), "w").write(t)
    plugins = [p if isinstance(p, dict) else {"type": "turms.plugins." + p} for p in (plugins or CLIENT)]
    conf = {"plugins": plugins, "stylers": [{"type": "turms.stylers." + s} for s in stylers], **conf}
    args = dict(schema=os.path.join(d, "schema.graphql"), extensions={"turms": conf})
    if docs:
        args["documents"] = os.path.join(d, "docs", "*.graphql")
    with contextlib.redirect_stdout(io.StringIO()):
        return generate(GraphQLProject(**args), log=lambda *a, **k: None)[0]


def load(code):
    name = "generated_demo"
    mod = types.ModuleType(name)
    sys.modules[name] = mod
    exec(compile(code, name, "exec"), mod.__dict__)
    return mod


def gen(*a, **k):
    return load(gen_code(*a, **k))


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False

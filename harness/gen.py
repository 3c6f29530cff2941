"""Drives turms through its public interface and loads what it generates."""
from __future__ import annotations

import contextlib
import importlib
import io
import os
import re
import shutil
import sys
import tempfile
import types
import typing
import warnings

REPO = os.environ.get("TURMS_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
for k in list(os.environ):
    if k.startswith("TURMS_") and k != "TURMS_REPO":
        del os.environ[k]

SUPPORT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "support")
if SUPPORT not in sys.path:
    sys.path.insert(0, SUPPORT)

SCALAR_DEFS = {"UUID": "uuid.UUID", "Date": "datetime.date", "JSON": "typing.Any", "Slug": "str", "BigInt": "int",
               "DateTime": "datetime.datetime"}


class GenFailed(Exception):
    pass


class Scratch:
    """A scratch directory removed on exit."""

    def __init__(self, prefix="vt-"):
        self.path = tempfile.mkdtemp(prefix=prefix)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def write(self, rel, text):
        p = os.path.join(self.path, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return p

    def join(self, *a):
        return os.path.join(self.path, *a)


def plug(name, **kw):
    m = {"enums": "enums.EnumsPlugin", "inputs": "inputs.InputsPlugin", "fragments": "fragments.FragmentsPlugin",
         "operations": "operations.OperationsPlugin", "funcs": "funcs.FuncsPlugin",
         "input_funcs": "input_funcs.InputFuncsPlugin", "objects": "objects.ObjectsPlugin",
         "strawberry": "strawberry.StrawberryPlugin"}[name]
    return {"type": f"turms.plugins.{m}", **kw}


def styler(name, **kw):
    m = {"default": "default.DefaultStyler", "capitalize": "capitalize.CapitalizeStyler",
         "snake": "snake_case.SnakeCaseStyler", "appender": "appender.AppenderStyler"}[name]
    return {"type": f"turms.stylers.{m}", **kw}


CLIENT_PLUGINS = [plug("enums"), plug("inputs"), plug("fragments"), plug("operations")]


def turms_config(plugins=None, stylers=(), processors=(), parsers=(), **kw):
    return {"plugins": list(plugins if plugins is not None else CLIENT_PLUGINS), "stylers": list(stylers),
            "processors": list(processors), "parsers": list(parsers),
            "scalar_definitions": dict(SCALAR_DEFS), **kw}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def write_world(sc: Scratch, w):
    sp = sc.write("schema.graphql", w.sdl)
    for n, t in w.files.items():
        sc.write(os.path.join("docs", n), t)
    return sp, sc.join("docs", "*.graphql")


def generate(schema, documents, conf, logs=None):
    """turms.run.generate on a project; returns the module source."""
    from turms.config import GraphQLProject
    from turms.run import generate as tgen

    def log(message, level="INFO", **kw):
        if logs is not None:
            logs.append((level, message))
    args = dict(schema=schema, extensions={"turms": conf})
    if documents is not None:
        args["documents"] = documents
    with quiet():
        project = GraphQLProject(**args)
        code, sch = tgen(project, log=log)
    return code


_seq = [0]


def load(code, name=None):
    """Execute generated source as a fresh module."""
    # typing shares ForwardRef objects (and what they evaluated to) between modules
    # through its caches, so equally named input types of earlier cases would leak in
    for clear in typing._cleanups:
        clear()
    _seq[0] += 1
    name = name or f"generated_{os.getpid()}_{_seq[0]}"
    mod = types.ModuleType(name)
    mod.__file__ = f"<{name}>"
    sys.modules[name] = mod
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exec(compile(code, f"<{name}>", "exec"), mod.__dict__)
    except BaseException:
        sys.modules.pop(name, None)
        raise
    return mod


def unload(mod):
    sys.modules.pop(mod.__name__, None)


def operations_of(mod):
    """{operation name: class} discovered through the document each class carries."""
    from graphql import OperationDefinitionNode, parse
    out = {}
    for k, v in list(vars(mod).items()):
        if isinstance(v, type) and v.__module__ == mod.__name__ and "Meta" in v.__dict__ and hasattr(v.Meta, "document"):
            try:
                doc = parse(v.Meta.document)
            except Exception:
                out.setdefault("?" + k, v)
                continue
            ops = [d for d in doc.definitions if isinstance(d, OperationDefinitionNode)]
            if ops:
                out[ops[-1].name.value] = v
    return out

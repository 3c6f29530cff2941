"""C05: generated modules are self-contained and complete."""
import ast
import builtins
import dis
import sys
import types
import typing

from pydantic import BaseModel

from ..pinned import FINDINGS_C05 as PROBES, REPAIRED_C05 as REGRESSIONS  # noqa: F401
from .. import client, confs, gen, world

PROP = "C05"
RULE = ("Random worlds under random configurations (plugins, stylers, freeze, options, bases, markers, sentinels) are generated and executed "
        "as fresh modules with an import monitor; every annotation of every class and function must resolve, every model must be fully "
        "built, every global name used by generated code must be bound, and nothing may be imported from the generator itself. Evaluations: "
        "classes, functions and code objects inspected; distinct by (kind, shape of annotations, config features).")
N_QUICK, N_THOROUGH = 700, 12000
REQUIRE = {"models": 4000, "functions": 500, "global_loads": 3000, "enums": 300}


def unbound_globals(code, names, path=""):
    """Global names read by a code object (recursively) which are bound nowhere."""
    out = []
    for ins in dis.get_instructions(code):
        if ins.opname in ("LOAD_GLOBAL", "LOAD_NAME") and ins.argval not in names and not hasattr(builtins, ins.argval):
            out.append((path + code.co_name, ins.argval))
    return out


def function_codes(fn):
    todo = [fn.__code__]
    while todo:
        c = todo.pop()
        yield c
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


def shape(ann):
    s = str(ann)
    return "".join(ch for ch in s if not ch.isdigit())[:60]


def inspect_module(ctx, mod, code, feature):
    problems = []
    names = set(vars(mod))
    seen = set()

    def walk_class(cls, path):
        if cls in seen:
            return
        seen.add(cls)
        if issubclass(cls, BaseModel):
            ctx.count("models")
            if not cls.__pydantic_complete__:       # pydantic finishes such models on first use
                try:
                    cls.model_rebuild(_types_namespace=dict(vars(mod)))
                except Exception as e:
                    problems.append(f"model {path} cannot be completed: {e!r}")
            for n, f in cls.model_fields.items():
                ctx.observed(("field", shape(f.annotation), feature))
        else:
            ctx.count("enums")
        try:
            typing.get_type_hints(cls, include_extras=True)
            ctx.observed()
        except Exception as e:
            problems.append(f"annotations of {path} do not resolve: {e!r}")
        for n, v in list(vars(cls).items()):
            if isinstance(v, type) and v.__module__ == mod.__name__:
                walk_class(v, f"{path}.{n}")
            elif isinstance(v, types.FunctionType) and v.__module__ == mod.__name__:
                for c in function_codes(v):
                    problems.extend(f"{p} uses unbound name {n}" for p, n in unbound_globals(c, names, path + "."))

    for n, v in list(vars(mod).items()):
        if isinstance(v, type) and v.__module__ == mod.__name__:
            walk_class(v, n)
        elif isinstance(v, types.FunctionType) and v.__module__ == mod.__name__:
            ctx.count("functions")
            try:
                hints = typing.get_type_hints(v, include_extras=True)
                ctx.observed(("function", len(hints), shape(hints.get("return")), feature))
            except Exception as e:
                problems.append(f"annotations of function {n} do not resolve: {e!r}")
            for c in function_codes(v):
                for ins in dis.get_instructions(c):
                    if ins.opname == "LOAD_GLOBAL":
                        ctx.count("global_loads")
                problems.extend(f"{p} uses unbound name {g}" for p, g in unbound_globals(c, names))
    return problems


def shadowed(code):
    """Top-level definitions which silently replace an earlier definition or import."""
    bound, out = {}, []
    for node in ast.parse(code).body:
        if isinstance(node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
            names = [(node.name, type(node).__name__)]
        elif isinstance(node, ast.ImportFrom):
            names = [(a.asname or a.name, f"import {node.module}") for a in node.names]
        elif isinstance(node, ast.Import):
            names = [(a.asname or a.name.split(".")[0], "import") for a in node.names]
        elif isinstance(node, ast.Assign):
            names = [(t.id, "assign") for t in node.targets if isinstance(t, ast.Name)]
        else:
            continue
        for n, how in names:
            if n in bound:
                out.append(f"{n}: {bound[n]} then {how}")
            bound[n] = how
    return out


def load_monitored(code, imported):
    real = builtins.__import__

    def spy(name, globals=None, locals=None, fromlist=(), level=0):
        if globals is not None and globals.get("__vt_generated__"):
            imported.add(name)
        return real(name, globals, locals, fromlist, level)
    builtins.__import__ = spy
    try:
        return gen.load("__vt_generated__ = True\n" + code)
    finally:
        builtins.__import__ = real


def case(ctx):
    w = world.make_world(ctx.seed)
    plugins, stylers, conf = confs.random_conf(ctx.rng, w)
    full = gen.turms_config(plugins, stylers=stylers, **conf)
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)
        try:
            code = gen.generate(sp, dg, full)
        except Exception as e:
            ctx.fail("generation failed for a supported configuration", error=repr(e), cause=repr(e.__cause__), conf=full, sdl=w.sdl, documents=w.doc_text)
            return
    imported = set()
    try:
        mod = load_monitored(code, imported)
    except Exception as e:
        ctx.fail("the generated module does not load", error=repr(e), conf=full, code=code, sdl=w.sdl, documents=w.doc_text)
        return
    try:
        ctx.check(not any(n.split(".")[0] == "turms" for n in imported), "generated code imports the generator", imported=sorted(imported))
        ctx.count("imports", len(imported))
        feature = (sorted(k for k in conf), [p["type"].split(".")[-1] for p in plugins], [s["type"].split(".")[-1] for s in stylers])
        dup = shadowed(code)
        ctx.check(not dup, "a generated definition shadows another one", shadowed=dup, code=code, conf=full)
        problems = inspect_module(ctx, mod, code, feature)
        ctx.check(not problems, "the generated module is incomplete", problems=problems[:8], conf=full, code=code, sdl=w.sdl, documents=w.doc_text)
        ctx.sample({"config": conf, "definitions": len(vars(mod)), "imports": sorted(imported)})
    finally:
        gen.unload(mod)

"""C10: naming styles change python names only."""
import inspect
import json
import keyword
import re

from graphql import FragmentDefinitionNode
from pydantic import BaseModel, ValidationError

from .. import client, confs, gen, pinned, serve, world
from . import c02, c06
from .c07 import run

PROP = "C10"
RULE = ("The same random world is generated once without stylers and once under a random stack of stylers with random options; both clients are driven "
        "with the same responses, damaged responses, variables and calls. They must agree in everything on the wire (document, acceptance, dump, "
        "transmission) and the styled names must be the documented ones. Non-trivial: a world whose styled names differ; distinct by (stack, name).")
N_QUICK, N_THOROUGH = 500, 9000
REQUIRE = {"responses": 1500, "damaged": 1500, "variables": 1500, "bad_variables": 500, "calls": 500, "class_names": 1500, "renamed_fields": 1500,
           "fields": 4000}


def stack(r):
    """(styler configurations, class styling per kind, field styling)."""
    out, steps = [], []
    fields = False
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(["default", "capitalize", "snake", "appender"])
        if k == "snake":
            out.append(gen.styler("snake"))
            fields = True
        elif k == "default":
            out.append(gen.styler("default"))
            steps.append({x: ("cap", None) for x in KINDS})
            fields = True
        elif k == "capitalize":
            opts = {f"capitalize_{x}": False for x in KINDS if r.random() < 0.2}
            out.append(gen.styler("capitalize", **opts))
            steps.append({x: ("cap", None) for x in KINDS if f"capitalize_{x}" not in opts})
        else:
            opts = {f"append_{x}": r.choice(["Typed", "_x", "", "Kind"]) for x in KINDS if r.random() < 0.5}
            out.append(gen.styler("appender", **opts))
            dflt = {"fragment": "Fragment", "query": "Query", "mutation": "Mutation", "subscription": "Subscription", "enum": "", "input": ""}
            steps.append({x: ("app", opts.get(f"append_{x}", dflt[x])) for x in KINDS})
    return out, steps, fields


KINDS = ["fragment", "query", "mutation", "subscription", "enum", "input"]


def styled_class(name, kind, steps):
    for s in steps:
        how, arg = s.get(kind, (None, None))
        if how == "cap":
            name = name[:1].upper() + name[1:]
        elif how == "app":
            name += arg
    return name


def words(name):
    """Snake form of a plain camelCase name, None when the name is not plain."""
    if not re.fullmatch(r"[a-z]+([A-Z][a-z]+)*", name):
        return None
    return "_".join(w.lower() for w in re.findall(r"[A-Z]?[a-z]+", name))


def models(mod):
    """{id: model class} of the module, nested ones included."""
    seen = {}

    def visit(c):
        if id(c) in seen or not isinstance(c, type) or not issubclass(c, BaseModel):
            return
        seen[id(c)] = c
        for v in vars(c).values():
            if isinstance(v, type) and v.__module__ == mod.__name__:
                visit(v)
    for v in list(vars(mod).values()):
        if isinstance(v, type) and v.__module__ == mod.__name__:
            visit(v)
    return list(seen.values())


def outcome(fn):
    try:
        return ("ok", fn())
    except (ValidationError, TypeError) as e:
        return ("refused", type(e).__name__)


def case(ctx):
    import vt_proxies
    r = ctx.rng
    w = world.make_world(ctx.seed, world.Opts(oneof=False))
    styl, steps, snake = stack(r)
    plugins = [gen.plug("enums"), gen.plug("inputs"), gen.plug("fragments"), gen.plug("operations")]
    funcs = r.random() < 0.6
    if funcs:
        plugins.append(confs.funcs_plugin(r, extras=False, modes=(r.random() < 0.5,)))
    kw = {"create_catchall": r.random() < 0.6}
    a = client.build(ctx, w, plugins, **kw)
    if a is None:
        return
    b = client.build(ctx, w, plugins, styl, **kw)
    try:
        if b is None:
            return
        names(ctx, w, a, b, styl, steps, snake)
        for op in a.ops:
            if op not in b.ops:
                return ctx.fail("an operation is lost under a naming style", operation=op, stylers=styl)
            if not same_op(ctx, a, b, op, styl):
                return
            if funcs and not same_calls(ctx, a, b, op, styl, vt_proxies):
                return
    finally:
        a.close()
        if b is not None:
            b.close()


def names(ctx, w, a, b, styl, steps, snake):
    r = ctx.rng
    tops = {k: v for k, v in vars(b.mod).items() if isinstance(v, type) and v.__module__ == b.mod.__name__}
    for op, node in b.source_ops.items():
        want = styled_class(op, node.operation.value, steps)
        ctx.count("class_names")
        ctx.check(b.ops.get(op) is not None and b.ops[op].__name__.rstrip("_") == want.rstrip("_"), "an operation class is not named by the style",
                  operation=op, expected=want, got=getattr(b.ops.get(op), "__name__", None), stylers=styl)
        ctx.observed(("op", want, str(styl)))
    base_tops = {k for k, v in vars(a.mod).items() if isinstance(v, type) and v.__module__ == a.mod.__name__}
    for kind, group in (("enum", w.enums), ("input", w.inputs), ("fragment", [d.name.value for d in a.source.definitions if isinstance(d, FragmentDefinitionNode)])):
        for n in group:
            if n not in base_tops and n + "_" not in base_tops:
                continue               # pruned, or represented by helper classes
            want = styled_class(n, kind, steps)
            ctx.count("class_names")
            ctx.check(want in tops or want + "_" in tops, f"the class of an {kind} is not named by the style", name=n, expected=want,
                      got=sorted(tops), stylers=styl)
            ctx.observed((kind, want))
    for m in models(b.mod):
        for py, f in m.model_fields.items():
            wire = f.alias or py
            if py == "typename" or f.alias == "__typename":
                continue
            ctx.count("fields")
            if py != wire:
                ctx.count("renamed_fields")
            core = py.rstrip("_")
            if not snake:
                ok = core in (wire, wire.rstrip("_")) or py in ("field" + wire, "field_" + wire.lstrip("_")) or core == wire.lstrip("_") or core.endswith(wire.strip("_"))
            else:
                ok = core == core.lower() and core.replace("_", "").replace("field", "", 1 if wire.startswith("_") else 0) == wire.replace("_", "").lower()
                if words(wire):
                    ok = ok and core == words(wire)
            ctx.check(ok, "a field is not named by the style", model=m.__qualname__, field=py, wire=wire, stylers=styl)
            ctx.observed((py, wire, snake))


def same_op(ctx, a, b, op, styl):
    r = ctx.rng
    ca, cb = a.ops[op], b.ops[op]
    if not ctx.check(ca.Meta.document == cb.Meta.document, "the document depends on the naming style", base=ca.Meta.document, styled=cb.Meta.document, stylers=styl):
        return False
    node = a.source_ops[op]
    root = a.schema.get_root_type(node.operation)

    def both(data, what):
        x = outcome(lambda: json.dumps(ca(**data).model_dump(by_alias=True, mode="json", exclude_unset=True), sort_keys=True))
        y = outcome(lambda: json.dumps(cb(**data).model_dump(by_alias=True, mode="json", exclude_unset=True), sort_keys=True))
        if x[0] != y[0] or (x[0] == "ok" and x[1] != y[1]):
            ctx.fail(f"{what} is treated differently under a naming style", base=x, styled=y, data=data, operation=a.doc(op), stylers=styl, sdl=a.w.sdl)
            return None
        return x[0]
    for vs, data in client.responses(ctx, a, op, 2):
        ctx.count("responses")
        ctx.observed((op, json.dumps(data, sort_keys=True)[:300]))
        if both(data, "a response") is None:
            return False
        sites = []
        c02.sites(a, data, root, [node.selection_set], [], False, sites)
        for s in r.sample(sites, min(3, len(sites))):
            try:
                bad, _ = c02.inject(data, s, r, a.schema)
            except KeyError:
                continue
            ctx.count("damaged")
            if both(bad, "a damaged response") is None:
                return False
    for _ in range(3):
        vs = serve.random_variables(a.schema, node, r)
        bad = dict(vs)
        if vs and r.random() < 0.4:
            k = r.choice(list(vs))
            bad[k] = r.choice([None, {"nope": 1}, [[1]], "??"])
            ctx.count("bad_variables")
        x = outcome(lambda: ca.Arguments(**bad).model_dump(by_alias=True, mode="json", exclude_unset=True))
        y = outcome(lambda: cb.Arguments(**bad).model_dump(by_alias=True, mode="json", exclude_unset=True))
        ctx.count("variables")
        if x[0] != y[0] or (x[0] == "ok" and x[1] != y[1]):
            ctx.fail("variables are treated differently under a naming style", base=x, styled=y, variables=bad, operation=a.doc(op), stylers=styl, sdl=a.w.sdl)
            return False
    return True


def same_calls(ctx, a, b, op, styl, vt):
    """Positional calls of both clients' functions transmit the same."""
    r = ctx.rng
    node = a.source_ops[op]

    def functions(x):
        out = []
        for k, f in vars(x.mod).items():
            if inspect.isfunction(f) and f.__module__ == x.mod.__name__ and re.sub("_", "", k).lower() in (op.replace("_", "").lower(), "a" + op.replace("_", "").lower()):
                if x.ops[op] is vars(x.mod).get(x.ops[op].__name__) and x.ops[op].__name__ in f.__code__.co_names:
                    out.append(f)
        return out
    fa, fb = functions(a), functions(b)
    if not ctx.check(len(fa) == len(fb), "call functions are lost under a naming style", operation=op, base=[f.__name__ for f in fa], styled=[f.__name__ for f in fb], stylers=styl):
        return False
    for f, g in zip(fa, fb):
        pa, pb = list(inspect.signature(f).parameters.values()), list(inspect.signature(g).parameters.values())
        if not ctx.check([(p.kind, p.default is p.empty) for p in pa] == [(p.kind, p.default is p.empty) for p in pb],
                         "call functions take other parameters under a naming style", base=str(inspect.signature(f)), styled=str(inspect.signature(g)), stylers=styl):
            return False
        vs = serve.random_variables(a.schema, node, r, omit_p=0.5, null_p=0.0)
        errs, _ = serve.coerce(a.schema, node, vs)
        if errs:
            continue
        srv = serve.Server(a.schema, r)
        res = srv.run(a.doc(op), op, vs) if node.operation.value != "subscription" else None
        if res is not None and (res.errors or res.data is None):
            continue
        data = res.data if res is not None else None

        def call(fn, params, x):
            cls = x.ops[op]
            parsed = cls.Arguments(**vs)
            kw = {}
            unused = dict(vs)
            for i, p in enumerate(params):
                # parameters correspond to variables in both clients by their normal form
                hit = [k for k in unused if c06.client_norm(k) == c06.client_norm(p.name) or c06.client_norm("field" + k) == c06.client_norm(p.name)]
                if hit:
                    k = hit[0]
                    unused.pop(k)
                    kw[p.name] = getattr(parsed, client.attr_for(cls.Arguments, k))
            if unused:
                return ("unmatched", sorted(unused))
            vt.CALLS.clear()

            class Stop(Exception):
                pass

            def respond(o, wire):
                if data is None:
                    raise Stop
                return data
            vt.RESPOND = respond
            try:
                run(fn, kw)
            except Stop:
                pass
            except Exception as e:
                return ("raised", repr(e)[:300])
            return ("sent", [(c["kind"], c["operation"] is cls, json.loads(json.dumps(c["wire"], default=str))) for c in vt.CALLS])
        x, y = call(f, pa, a), call(g, pb, b)
        ctx.count("calls")
        if not ctx.check(x == y and x[0] == "sent", "a call transmits something else under a naming style", base=x, styled=y, variables=vs, operation=a.doc(op), stylers=styl,
                         base_signature=str(inspect.signature(f)), styled_signature=str(inspect.signature(g))):
            return False
    return True


def capitalize_options():
    mod = pinned.module("enum mood { A } input where { a: Int } type Query { state(w: where): mood }",
                        "query q($w: where) { state(w: $w) }", stylers=[gen.styler("capitalize", capitalize_enum=False, capitalize_query=True)])
    try:
        names = {k for k, v in vars(mod).items() if isinstance(v, type) and v.__module__ == mod.__name__}
        return None if {"mood", "Where", "Q"} <= names else f"names {names}"
    finally:
        gen.unload(mod)


REGRESSIONS = {"capitalize-options": capitalize_options}

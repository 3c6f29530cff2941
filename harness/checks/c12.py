"""C12: freezing makes exactly the configured models immutable and hashable."""
import copy
import json

from graphql import GraphQLInputObjectType, type_from_ast
from pydantic import BaseModel, ValidationError

from .. import client, gen, kinds, pinned, serve, world
from . import c09, c16
from .c06 import build

PROP = "C12"
RULE = ("Random worlds under random freeze options (kinds, included and excluded types, tuples on or off); on every object of parsed responses and built "
        "inputs the monitor tries to set every field, hashes it, compares hashes of equal objects and looks at the containers. Models the options "
        "select must refuse, hash and hold tuples; models they do not select (and which inherit from none) must stay ordinary; the wire must be the "
        "same as without freezing. Non-trivial: an object below the operation; distinct by (options, kind, type, class).")
N_QUICK, N_THOROUGH = 700, 12000
REQUIRE = {"frozen": 3000, "unfrozen": 1000, "assignments": 5000, "hashes": 1500, "tuples": 500, "inputs": 500, "wires": 1000, "fragments": 200, "models": 1000, "wrappers": 100}


def freeze_options(r, names):
    f = {"enabled": r.random() < 0.88}
    if r.random() < 0.6:
        allk = ["input", "fragment", "object", "query", "mutation", "subscription"]
        f["types"] = sorted(set(r.sample(allk, r.randint(1, 5)) + (["object", "fragment"] if r.random() < 0.5 else [])))
    x = r.random()
    if x < 0.2 and names:
        f["exclude"] = r.sample(names, min(len(names), r.randint(1, 3)))
    elif x < 0.4 and names:
        f["include"] = r.sample(names, min(len(names), r.randint(1, 4)))
    if names and "include" in f and r.random() < 0.4:       # exclusion wins
        f["exclude"] = r.sample(f["include"], 1) + r.sample(names, 1)
    if r.random() < 0.4:
        f["convert_list_to_tuple"] = r.random() < 0.5
    return f


def other_options(r, names):
    """Model options for some types, which are to have nothing to do with freezing."""
    if r.random() < 0.7:
        return {}
    o = {"enabled": True, "extra": "ignore"}
    if r.random() < 0.5:
        o["types"] = r.sample(["input", "fragment", "object", "query", "mutation", "subscription"], r.randint(1, 6))
    if r.random() < 0.5:
        o[r.choice(["include", "exclude"])] = r.sample(names, min(len(names), r.randint(1, 3)))
    return {"options": o}


def hashable(v):
    """Whether a parsed value consists of hashable parts only, as far as the monitor knows."""
    if isinstance(v, (dict, list)):
        return False
    if isinstance(v, tuple):
        return all(hashable(x) for x in v)
    if isinstance(v, BaseModel):
        return bool(type(v).model_config.get("frozen")) and all(hashable(getattr(v, f)) for f in type(v).model_fields)
    return True


def expected(b, f, obj, kind, typename):
    """True, False or None (either) for whether the object's class must be frozen."""
    bases = kinds.generated_bases(b.mod, type(obj))
    if kind is None:
        sel = {kinds.selected(f, k, typename) for k in ("object", "fragment")}
        sel = sel.pop() if len(sel) == 1 else None
    else:
        sel = kinds.selected(f, kind, typename)
    if sel:
        return True
    if any(c.model_config.get("frozen") for c in bases):
        return None
    return sel


def judge(ctx, b, f, obj, kind, typename, path, why):
    want = expected(b, f, obj, kind, typename)
    ctx.observed((str(f), kind, typename, type(obj).__name__) if path != "$" else None)
    fields = list(type(obj).model_fields)
    if want is None:
        ctx.count("either")
        return True
    ctx.count("frozen" if want else "unfrozen")
    for a in fields[:6]:
        old = getattr(obj, a)
        ctx.count("assignments")
        try:
            setattr(obj, a, copy.copy(old))
            refused = False
        except ValidationError:
            refused = True
        if not ctx.check(refused == want, "a frozen model can be changed" if want else "a model which is not to be frozen cannot be changed",
                         model=type(obj).__qualname__, field=a, kind=kind, type=typename, freeze=f, path=path, code=b.code[-6000:], **why):
            return False
    if want:
        tuples = f.get("convert_list_to_tuple", True)
        for a in fields:
            v = getattr(obj, a)
            if isinstance(v, (list, tuple)) and not isinstance(v, str):
                ann = str(type(obj).model_fields[a].annotation)
                if "Any" in ann and "uple" not in ann and "ist" not in ann:
                    continue
                ctx.count("tuples" if tuples else "lists")
                if not ctx.check(deep_container(v, tuple if tuples else list, ann), "a frozen model does not hold its lists in the configured container",
                                 model=type(obj).__qualname__, field=a, value=repr(v)[:300], freeze=f, **why):
                    return False
        if hashable(obj):
            ctx.count("hashes")
            try:
                h = hash(obj)
                again = type(obj).model_validate(obj.model_dump(by_alias=True))
                ok = h == hash(again) if again == obj else True
            except Exception as e:
                ctx.fail("a frozen model cannot be hashed", model=type(obj).__qualname__, error=repr(e), value=repr(obj)[:500], freeze=f, **why)
                return False
            if not ctx.check(ok, "equal frozen models have different hashes", model=type(obj).__qualname__, value=repr(obj)[:500]):
                return False
    return True


def deep_container(v, c, ann):
    if isinstance(v, (list, tuple)):
        if not isinstance(v, c):
            # arbitrary JSON inside keeps its own containers
            return "Any" in ann
        return all(deep_container(x, c, ann) for x in v)
    return True


def case(ctx):
    r = ctx.rng
    w = world.make_world(ctx.seed, world.Opts(oneof=False))
    f = freeze_options(r, sorted(set(w.objects) | set(w.interfaces) | set(w.inputs)))
    catchall = r.random() < 0.5
    more = other_options(r, sorted(set(w.objects) | set(w.interfaces) | set(w.inputs)))
    b = client.build(ctx, w, stylers=client.random_stylers(r, 0.4), freeze=f, create_catchall=catchall, **more)
    if b is None:
        return
    try:
        for op, cls in b.ops.items():
            for vs, data in client.responses(ctx, b, op, 2, null_p=0.1):
                try:
                    obj = cls(**data)
                except Exception as e:
                    return ctx.fail("a response is refused by a frozen client", operation=op, data=data, error=str(e)[:1500], freeze=f, code=b.code[-6000:])
                ctx.count("wires")
                for mode in ({"mode": "json"}, {}):
                    got = obj.model_dump(by_alias=True, exclude_unset=True, **mode)
                    got = json.loads(json.dumps(got, default=plain))
                    diff = client.json_diff(client.without_aliased_typename(data), client.without_aliased_typename(got))
                    if not ctx.check(not diff, "freezing changes the serialized response", diff=diff[:5], operation=op, freeze=f):
                        return
                for o, kind, tn, path in kinds.result_objects(b, op, obj, data):
                    if not judge(ctx, b, f, o, kind, tn, path, {"operation": op}):
                        return
        for n, fc in kinds.fragment_classes(b).items():
            tn = b.frags[n].type_condition.name.value
            want = kinds.selected(f, "fragment", tn)
            ctx.count("fragments")
            got = bool(fc.model_config.get("frozen"))
            if not want and any(c.model_config.get("frozen") for c in kinds.generated_bases(b.mod, fc)):
                continue
            if not ctx.check(got == want, "a fragment is not frozen as configured", fragment=n, type=tn, expected=want, freeze=f):
                return
        inputs(ctx, b, f, w)
    finally:
        b.close()
    if r.random() < 0.35:
        models(ctx, w, f)
    if r.random() < 0.3:
        polymorphic(ctx)


def models(ctx, w, f):
    """The models of the objects plugin."""
    r = ctx.rng
    conf = gen.turms_config([gen.plug("enums", skip_unreferenced=False), gen.plug("objects")], freeze=f, always_resolve_interfaces=False)
    with gen.Scratch() as sc:
        sp, _ = gen.write_world(sc, w)
        try:
            code = gen.generate(sp, None, conf)
            mod = gen.load(code)
        except Exception as e:
            return ctx.fail("frozen object models cannot be generated", error=repr(e), freeze=f, sdl=w.sdl)
    b = client.Bundle(w, code, mod, conf)
    try:
        classes = {n: c16.class_of(mod, n) for n in w.objects}
        if not ctx.check(all(isinstance(c, type) for c in classes.values()), "an object type without a model", types=sorted(classes), code=code[-5000:]):
            return
        maker = c16.Maker(b, classes, r)
        names = {c: n for n, c in classes.items()}

        def visit(v, path):
            if type(v) in names:
                ctx.count("models")
                if not judge(ctx, b, f, v, "object", names[type(v)], path, {"plugin": "objects"}):
                    return False
                return all(visit(getattr(v, a), f"{path}.{a}") for a in type(v).model_fields)
            return all(visit(x, f"{path}[{i}]") for i, x in enumerate(v)) if isinstance(v, (list, tuple)) else True

        for n, c in classes.items():
            try:
                arg, _wire = maker.wire(b.schema.get_type(n), 0)
            except c16.Skip:
                continue
            try:
                obj = c(**arg)
            except Exception as e:
                return ctx.fail("freezing makes an object model refuse its values", model=n, value=repr(arg)[:2000], error=str(e)[:1500], freeze=f)
            if not visit(obj, n):
                return
    finally:
        b.close()


def polymorphic(ctx):
    """The models of one-of inputs and members of input unions."""
    r = ctx.rng
    g = c09.Gen(r)
    g.make()
    names = list(g.plain) + list(g.oneof)
    f = freeze_options(r, names)
    mod, found = c09.input_models(ctx, g, {"freeze": f})
    if mod is None:
        return
    try:
        for n, cs in found.items():
            for c in cs:
                want, got = kinds.selected(f, "input", n), bool(c.model_config.get("frozen"))
                ctx.observed(("polymorphic", str(f), n in g.oneof))
                if want != got and not kinds.generated_bases(mod, c):
                    ctx.fail("a model of a polymorphic input is not frozen as configured", type=n, model=c.__name__, expected=want, got=got, freeze=f, sdl=g.sdl())
                    return
    finally:
        gen.unload(mod)


def plain(v):
    return v.isoformat().replace("+00:00", "Z") if hasattr(v, "isoformat") else getattr(v, "value", str(v))


def inputs(ctx, b, f, w):
    r = ctx.rng
    classes = kinds.input_classes(b.mod, w, None)
    for op, cls in b.ops.items():
        node = b.source_ops[op]
        for _ in range(2):
            vs = serve.random_variables(b.schema, node, r, omit_p=0.2)
            errs, _c = serve.coerce(b.schema, node, vs)
            if errs:
                continue
            for v in node.variable_definitions:
                n = v.variable.name.value
                t = type_from_ast(b.schema, v.type)
                if vs.get(n) is None:
                    continue
                built = build(vs[n], t, classes, False, ctx)
                found = kinds.input_objects(b, classes, built)
                if found:
                    got = cls.Arguments(**{**vs, n: built}).model_dump(by_alias=True, mode="json", exclude_unset=True)
                    diff = client.json_diff(vs, got)
                    if not ctx.check(not diff, "freezing changes the serialized variables", diff=diff[:5], operation=op, freeze=f):
                        return
                for o, kind, tn, path in found:
                    ctx.count("inputs")
                    if not judge(ctx, b, f, o, kind, tn, path + ".", {"variable": n, "operation": op}):
                        return


def exclude_fields():
    mod = pinned.module(pinned.ZOO, "query Q { cat { name lives } }", freeze={"enabled": True, "exclude_fields": ["name"]})
    try:
        c = gen.operations_of(mod)["Q"](**{"cat": {"__typename": "Cat", "name": "a", "lives": 3}}).cat
        try:
            c.name = "b"
            return None
        except ValidationError:
            return "exclude_fields ignored"
    finally:
        gen.unload(mod)


def frozen_kinds():
    """Operations, fragments on interfaces and unions, and types named by include."""
    docs = "query Q { cat { lives } pet { ...P } animal { ...A } } fragment P on Pet { ... on Cat { lives } ... on Dog { barks } } fragment A on Animal { name }"
    data = {"cat": {"__typename": "Cat", "lives": 1}, "pet": {"__typename": "Dog", "barks": True}, "animal": {"__typename": "Dog", "name": "x"}}
    out = []
    for f, want in (({"enabled": True}, "nYYY"), ({"enabled": True, "types": ["query"]}, "Ynnn"), ({"enabled": True, "types": ["object"], "include": ["Cat"]}, "nY__"),
                    ({"enabled": True, "include": ["Dog"]}, "nnYY"), ({"enabled": True, "types": ["query", "object"], "exclude": ["Cat"]}, "Yn__")):
        mod = pinned.module(pinned.ZOO, docs, freeze=f)
        try:
            q = gen.operations_of(mod)["Q"](**data)
            got = "".join("Y" if type(o).model_config.get("frozen") else "n" for o in (q, q.cat, q.pet, q.animal))
            if any(g != x for g, x in zip(got, want) if x != "_"):
                out.append(f"{f}: {got} instead of {want}")
        finally:
            gen.unload(mod)
    return "; ".join(out) or None


PROBES = {"freeze-exclude-fields": exclude_fields}
REGRESSIONS = {"frozen-kinds": frozen_kinds}

"""C25: input factories build exactly the input described by their arguments."""
import datetime
import decimal
import inspect
import typing
import uuid

from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType, Undefined, get_named_type
from pydantic import ValidationError

from .. import client, gen, serve, world
from .c06 import input_classes
from .c07 import norm, param_for

PROP = "C25"
RULE = ("Random projects with the input_funcs plugin (stylers, freezing, prefixes, pruning, coercible scalars and inputs, own sentinels). Every generated input has exactly one "
        "factory, its signature and annotations follow the schema; called with random valid values (dictionaries, models and other factories' results nested, positional or by "
        "keyword) the result is the input's model and serializes to exactly the given values: omitted and UNSET fields absent, null kept. Missing, unknown and invalid arguments "
        "are refused. Non-trivial: a factory call; distinct by (factory signature, given fields).")
N_QUICK, N_THOROUGH = 1200, 9000
REQUIRE = {"factories": 500, "calls": 1500, "given": 3000, "omitted": 1200, "nulls": 150, "unset": 300, "nested": 500, "from_factories": 150, "missing_refused": 600, "unknown_refused": 800,
           "invalid_refused": 500, "annotations": 2000, "coercible": 100, "documented": 350, "defaulted_required": 60, "pruned": 50, "positional": 500}

SCALARS = {"Int": int, "Float": float, "String": str, "Boolean": bool, "ID": str, "UUID": uuid.UUID, "DateTime": datetime.datetime, "Date": datetime.date,
           "JSON": typing.Any, "Slug": str, "BigInt": int}
COERCIBLE = {"typing.Any": typing.Any, "decimal.Decimal": decimal.Decimal, "uuid.UUID": uuid.UUID, "vt_markers.MyDefault": None}
BAD = {"Int": "abc", "Float": "abc", "Boolean": "maybe", "String": 5, "ID": {}, "UUID": "xyz", "DateTime": "not a date", "Date": "not a date", "Slug": {}, "BigInt": "abc"}


def resolve(path):
    import importlib
    m, _, n = path.rpartition(".")
    return getattr(importlib.import_module(m), n)


def squeeze(s):
    return " ".join((s or "").split())


class Judge:
    def __init__(self, ctx, b, classes, scalars, inputs):
        self.ctx, self.b, self.classes, self.scalars, self.inputs = ctx, b, classes, scalars, inputs
        self.enums = {}

    def enum(self, t):
        if t.name not in self.enums:
            values = set(t.values)
            c = [x for x in vars(self.b.mod).values() if isinstance(x, type) and hasattr(x, "__members__") and client_key(x.__name__).startswith(client_key(t.name))
                 and {m.value for m in x} == values]
            self.enums[t.name] = c[0] if len(c) == 1 else None
        return self.enums[t.name]

    def annotation(self, t, optional=True):
        """The type a parameter of GraphQL type t should be annotated with; None when it can not be told."""
        if isinstance(t, GraphQLNonNull):
            return self.annotation(t.of_type, False)
        if isinstance(t, GraphQLList):
            inner = self.annotation(t.of_type)
            x = None if inner is None else typing.Iterable[inner]
        elif isinstance(t, GraphQLScalarType):
            x = resolve(self.scalars[t.name]) if t.name in self.scalars else SCALARS[t.name]
        elif isinstance(t, GraphQLEnumType):
            x = self.enum(t)
        else:
            x = self.classes.get(t.name)
            if x is not None and t.name in self.inputs:
                x = typing.Union[x, resolve(self.inputs[t.name])]
        if x is None:
            return None
        return typing.Optional[x] if optional else x

    def build(self, value, t, factories, mode):
        """value as a caller may write it: plain, as models, or made by the other factories."""
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if value is None:
            return None
        if isinstance(t, GraphQLList):
            return [self.build(v, t.of_type, factories, mode) for v in value]
        if isinstance(t, GraphQLInputObjectType):
            self.ctx.count("nested")
            kw = {k: self.build(v, t.fields[k].type, factories, mode) for k, v in value.items()}
            if mode == "models" and t.name in self.classes:
                return self.classes[t.name](**kw)
            if mode == "factories" and t.name in factories:
                fn, params = factories[t.name]
                self.ctx.count("from_factories")
                return fn(**{params[k]: v for k, v in kw.items()})
            return kw
        if isinstance(t, GraphQLEnumType) and mode != "plain" and self.enum(t):
            return self.enum(t)(value)
        return value


def client_key(s):
    return s.replace("_", "").lower()


def case(ctx):
    import vt_markers
    r = ctx.rng
    w = world.make_world(ctx.seed, world.Opts(oneof=False, union_element=False, fragments=False, n_objects=(1, 2), n_ops=(1, 4), n_root=(2, 4), max_depth=1,
                                              words=("data", "variables", "values", "kwargs")))
    if not w.inputs:
        return
    plugin = gen.plug("input_funcs")
    inputs = gen.plug("inputs")
    prefix = ""
    if r.random() < 0.4:
        prefix = plugin["prepend"] = r.choice(["make_", "build", "new_"])
    documented = plugin.setdefault("extract_documentation", r.random() < 0.8)
    prune_models = inputs.setdefault("skip_unreferenced", r.random() < 0.5)
    prune = plugin.setdefault("skip_unreferenced", r.random() < 0.5)
    kw = {}
    scalars, coercible = {}, {}
    names = ["ID", "Int", "String", "Float"] + list(w.scalars)
    for target, key, pool, values in [("s", "coercible_scalars", names, list(COERCIBLE)), ("i", "coercible_inputs", sorted(w.inputs), ["typing.Any", "decimal.Decimal", "uuid.UUID"])]:
        if r.random() < 0.4:
            both = {}
            for where in r.choice([["g"], ["p"], ["g", "p"]]):
                m = {n: r.choice(values) for n in r.sample(pool, min(len(pool), r.randint(1, 2)))}
                (kw if where == "g" else plugin)[key] = m
                both.update(m)
            (scalars if target == "s" else coercible).update(both)
    unset_type = unset = None
    if r.random() < 0.3:
        kw.update(unset_type_class="vt_markers.MyUnset", unset_instance="vt_markers.MISSING")
        unset_type, unset = vt_markers.MyUnset, vt_markers.MISSING
    if r.random() < 0.25:
        kw["freeze"] = {"enabled": True, "convert_list_to_tuple": r.random() < 0.5}
    b = client.build(ctx, w, plugins=[gen.plug("enums", skip_unreferenced=False), inputs, gen.plug("fragments"), gen.plug("operations"), plugin],
                     stylers=client.random_stylers(r, 0.6), **kw)
    if b is None:
        return
    try:
        judge(ctx, b, w, prefix, documented, prune or prune_models, scalars, coercible, unset_type, unset)
    finally:
        b.close()


def reachable(b):
    """Input types the variables of the documents lead to."""
    from graphql import type_from_ast
    out = set()
    todo = [get_named_type(type_from_ast(b.schema, v.type)) for n in b.source_ops.values() for v in n.variable_definitions]
    while todo:
        t = todo.pop()
        if isinstance(t, GraphQLInputObjectType) and t.name not in out:
            out.add(t.name)
            todo += [get_named_type(f.type) for f in t.fields.values()]
    return out


def judge(ctx, b, w, prefix, documented, pruned, scalars, coercible, unset_type, unset):
    r = ctx.rng
    classes = input_classes(b.mod, w, None)
    funcs = {k: f for k, f in vars(b.mod).items() if inspect.isfunction(f) and f.__module__ == b.mod.__name__}
    want = reachable(b) if pruned else set(w.inputs)
    if set(w.inputs) - want:
        ctx.count("pruned", len(set(w.inputs) - want))
    if unset_type is None and hasattr(b.mod, "UNSET"):
        unset_type, unset = b.mod.UnsetType, b.mod.UNSET
    found = {}
    for n in sorted(w.inputs):
        # the factory of an input returns its class
        fs = [f for k, f in funcs.items() if client_key(k) == client_key(prefix + n) and k.startswith(prefix)]
        if n not in want:
            if fs:
                ctx.fail("a factory is generated for an input the documents do not need", type=n, functions=[f.__name__ for f in fs])
                return
            continue
        if len(fs) != 1:
            ctx.fail("an input does not have exactly one factory", type=n, functions=sorted(funcs), prefix=prefix, code=b.code)
            return
        found[n] = fs[0]
    extra = set(funcs.values()) - set(found.values())
    if extra:
        ctx.fail("functions are generated which belong to no input", functions=sorted(f.__name__ for f in extra))
        return
    j = Judge(ctx, b, classes, scalars, coercible)
    factories = {}
    for n, fn in found.items():
        if n not in classes:
            continue
        ctx.count("factories")
        t = b.schema.type_map[n]
        sig = inspect.signature(fn)
        try:
            hints = typing.get_type_hints(fn)
        except Exception as e:
            ctx.fail("the annotations of a factory cannot be resolved", function=fn.__name__, error=repr(e), code=b.code)
            return
        if not ctx.check(hints.get("return") is classes[n], "the factory does not announce the model it returns", function=fn.__name__, got=str(hints.get("return"))):
            return
        params = {}
        for k in t.fields:
            p = param_for(sig.parameters, k)
            if p is None:
                ctx.fail("a field has no parameter", type=n, field=k, signature=str(sig))
                return
            params[k] = p
        if len(set(params.values())) != len(sig.parameters):
            ctx.fail("a factory has parameters which are no fields", type=n, signature=str(sig))
            return
        for k, f in t.fields.items():
            p = sig.parameters[params[k]]
            required = isinstance(f.type, GraphQLNonNull) and f.default_value is Undefined
            if isinstance(f.type, GraphQLNonNull) and not required:
                ctx.count("defaulted_required")
            if required != (p.default is inspect.Parameter.empty):
                ctx.fail("a parameter is required although the field is not, or the other way round", type=n, field=k, field_type=str(f.type), default=repr(f.default_value), signature=str(sig))
                return
            if not required and p.default is not unset:
                ctx.fail("an optional parameter does not default to the sentinel", type=n, field=k, default=repr(p.default))
                return
            if not ctx.check(p.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD, "a parameter can not be given by position or name", type=n, field=k, kind=str(p.kind)):
                return
            a = j.annotation(f.type)
            if a is None:
                continue
            if not required:
                a = typing.Union[a, unset_type]
            ctx.count("annotations")
            if get_named_type(f.type).name in scalars or get_named_type(f.type).name in coercible:
                ctx.count("coercible")
            if hints[params[k]] != a:
                ctx.fail("a parameter is not annotated as its field", type=n, field=k, field_type=str(f.type), got=str(hints[params[k]]), want=str(a), coercible=[scalars, coercible])
                return
        order = [params[k] for k, f in t.fields.items() if isinstance(f.type, GraphQLNonNull) and f.default_value is Undefined]
        order += [params[k] for k in t.fields if params[k] not in order]
        if not ctx.check(list(sig.parameters) == order, "the parameters are not the required fields followed by the others, in the schema's order", type=n, signature=str(sig), want=order):
            return
        doc = fn.__doc__
        if not documented:
            if not ctx.check(doc is None, "a factory is documented although documentation is off", function=fn.__name__, doc=doc):
                return
        else:
            lines = doc or ""
            for k, f in t.fields.items():
                if f.description:
                    ctx.count("documented")
                    if squeeze(f.description) not in squeeze(lines):
                        ctx.fail("a factory does not document a field", function=fn.__name__, field=k, description=f.description, doc=doc)
                        return
                elif not any(norm(x.split(":")[0].strip()) in (norm(k), "field" + norm(k), norm(k) + "_") for x in lines.splitlines()):
                    ctx.fail("a factory does not mention a field", function=fn.__name__, field=k, doc=doc)
                    return
        factories[n] = (fn, params)
    for n, (fn, params) in factories.items():
        for _ in range(3):
            if not call(ctx, b, j, n, fn, params, factories, unset, classes):
                return


def call(ctx, b, j, n, fn, params, factories, unset, classes):
    r = ctx.rng
    t = b.schema.type_map[n]
    value = serve._json_nn(t, r, 0, r.choice([0.1, 0.5, 0.9]), r.choice([0.05, 0.3]))
    mode = r.choice(["plain", "models", "factories"])
    try:
        given = {k: j.build(v, t.fields[k].type, factories, mode) for k, v in value.items()}
    except Exception as e:
        ctx.fail("nested inputs can not be built", type=n, mode=mode, value=value, error=repr(e)[:1500])
        return False
    sig = list(inspect.signature(fn).parameters)
    args, kw = [], {params[k]: v for k, v in given.items()}
    for k in t.fields:
        if k not in given and not isinstance(t.fields[k].type, GraphQLNonNull) and r.random() < 0.3:
            kw[params[k]] = unset
            ctx.count("unset")
    if r.random() < 0.5:
        for p in sig[:r.randint(0, len(sig))]:
            if p not in kw:
                break
            args.append(kw.pop(p))
        ctx.count("positional", len(args))
    ctx.count("calls")
    ctx.count("given", len(given))
    ctx.count("omitted", len(t.fields) - len(given))
    ctx.count("nulls", sum(v is None for v in given.values()))
    ctx.observed((n, tuple(sorted(given)), tuple(str(f.type) for f in t.fields.values()), mode))
    try:
        obj = fn(*args, **kw)
    except Exception as e:
        ctx.fail("a factory refuses valid arguments", function=fn.__name__, value=value, mode=mode, error=repr(e)[:1500], sdl=b.w.sdl if hasattr(b, "w") else None)
        return False
    if type(obj) is not classes[n]:
        ctx.fail("a factory does not return the model of its input", function=fn.__name__, got=repr(type(obj)))
        return False
    dump = obj.model_dump(by_alias=True, exclude_unset=True, mode="json")
    if not client.same_json(dump, value):
        ctx.fail("the built input does not hold exactly the given values", function=fn.__name__, mode=mode, value=value, got=dump, diff=client.json_diff(dump, value)[:6], code=inspect_source(b, fn))
        return False
    again = fn(*args, **kw)
    if again is obj or again != obj:
        ctx.fail("two calls with the same arguments do not build two equal inputs", function=fn.__name__, value=value)
        return False
    named = dict(zip(sig, args), **kw)
    required = [params[k] for k, f in t.fields.items() if isinstance(f.type, GraphQLNonNull) and f.default_value is Undefined]
    if required:
        p = r.choice(required)
        ctx.count("missing_refused")
        if not refused(ctx, fn, {k: v for k, v in named.items() if k != p}, (TypeError,)):
            ctx.fail("a factory accepts a call without a required argument", function=fn.__name__, missing=p, value=value)
            return False
    ctx.count("unknown_refused")
    if not refused(ctx, fn, {**named, "noSuchParameter": 1}, (TypeError,)):
        ctx.fail("a factory accepts unknown arguments", function=fn.__name__)
        return False
    bad = []
    for k, f in t.fields.items():
        x = f.type.of_type if isinstance(f.type, GraphQLNonNull) else f.type
        if isinstance(f.type, GraphQLNonNull) and f.default_value is Undefined:
            bad.append((k, None))
        if isinstance(x, GraphQLList):
            bad.append((k, 5))
        elif isinstance(x, GraphQLInputObjectType):
            bad.append((k, "text"))
        elif isinstance(x, GraphQLEnumType):
            bad.append((k, "NOT_A_MEMBER_X"))
        elif x.name in BAD:
            bad.append((k, BAD[x.name]))
    bad = [(k, v) for k, v in bad if not (v is None and get_named_type(t.fields[k].type).name == "JSON")]
    if bad:
        k, v = r.choice(bad)
        ctx.count("invalid_refused")
        if not refused(ctx, fn, {**named, params[k]: v}, (ValidationError,)):
            ctx.fail("a factory accepts an invalid value", function=fn.__name__, field=k, field_type=str(t.fields[k].type), invalid=v)
            return False
    ctx.sample({"function": fn.__name__, "value": value, "mode": mode})
    return True


def refused(ctx, fn, kw, errors):
    try:
        fn(**kw)
    except errors:
        return True
    return False


def inspect_source(b, fn):
    i = b.code.find(f"def {fn.__name__}(")
    return b.code[i:i + 1500]


# ---- known findings ------------------------------------------------------

UNIONS = """
directive @oneOf on INPUT_OBJECT
directive @unionElementOf(union: String!, discriminator: String!, key: String!) on INPUT_OBJECT
enum Kind { LASER DET }
input A { name: String! }
input B { x: Int! }
input One @oneOf { a: A b: B }
input Elem { kind: Kind! x: Int }
input LaserE @unionElementOf(union: "Elem", discriminator: "kind", key: "LASER") { kind: Kind! x: Int }
type Query { q(a: One, e: Elem): String }
"""


def unions():
    import vt_markers  # noqa: F401
    with gen.Scratch() as sc:
        s = sc.write("s.graphql", UNIONS)
        d = sc.write("q.graphql", "query Q($a: One, $e: Elem) { q(a: $a, e: $e) }")
        code = gen.generate(s, d, gen.turms_config([gen.plug("enums"), gen.plug("inputs"), gen.plug("fragments"), gen.plug("operations"), gen.plug("input_funcs")]))
    mod = gen.load(code)
    try:
        broken = []
        for name, kw in [("One_", {"a": {"name": "x"}}), ("Elem_", {"kind": mod.Kind.LASER}), ("LaserE_", {"kind": mod.Kind.LASER})]:
            try:
                getattr(mod, name)(**kw)
            except (TypeError, ValidationError):
                broken.append(name)
        return "the factories of oneOf inputs and of inputs in tagged unions raise when called as annotated" if broken else None
    finally:
        gen.unload(mod)


PROBES = {"input-factory-of-a-union": unions}

"""C28: code for pydantic v1 and older pythons means what the default target means."""
import ast
import inspect
import json
import typing

import pydantic.v1 as v1
import pydantic.v1.main as v1main
from graphql import GraphQLNonNull, is_leaf_type, is_object_type, type_from_ast

from .. import client, confs, gen, kinds, serve, world
from . import c02, c06, c09, c12, c29

PROP = "C28"
RULE = ("Random worlds are generated for pydantic v1 (run against pydantic.v1) with random stylers, freezing, model options and call functions, and for older pythons. Valid responses "
        "parse, are walked value by value and dump unchanged; injected conformance faults are refused; variables round trip, also built from input classes and by python name; "
        "functions transmit exactly what was given; frozen models refuse assignment. Polyfilled modules use only syntax and typing names the python version has and differ from the "
        "unpolyfilled module by nothing else. Non-trivial: a response, variable set, fault or module; distinct by its content.")
N_QUICK, N_THOROUGH = 900, 14000
REQUIRE = {"responses": 1500, "roundtrips": 1200, "built": 400, "faults": 1500, "null": 100, "missing": 100, "kind": 150, "enum": 50, "typename": 100, "list": 100, "calls": 300, "by_name": 40,
           "frozen": 60, "assignments": 200, "extra_refused": 20, "polyfilled": 80, "moved": 40, "variable_faults": 500, "polymorphic": 200, "config_probes": 500, "union_members": 80, "oneof": 200}

# models of pydantic v1 keep their fields elsewhere; read by the monitor only
if not hasattr(v1main.ModelMetaclass, "model_fields"):
    v1main.ModelMetaclass.model_fields = property(lambda cls: cls.__fields__)

# values pydantic v1 refuses too (it converts where a conversion exists)
BAD = {"Int": ["abc", {}, []], "Float": ["abc", {}, []], "Boolean": ["maybe", {}], "String": [{}, []], "ID": [{}, []], "UUID": ["xyz", {}], "DateTime": ["not a date", {}],
       "Date": ["not a date", {}], "Slug": [{}, []], "BigInt": ["abc", {}, []]}


def dump(obj):
    return json.loads(obj.json(by_alias=True, exclude_unset=True).replace("+00:00", "Z"))


def place(value, site, rng, schema, respond):
    """value with the fault of the site, such that pydantic v1 has to refuse."""
    path, kind, t = site[:3]
    if kind in ("kind", "list", "object"):
        import copy
        value = copy.deepcopy(value)
        parent = value
        for p in path[:-1]:
            parent = parent[p]
        parent[path[-1]] = rng.choice([5, "text", True]) if kind == "object" else rng.choice([{"a": 1}, 5, "text", True]) if kind == "list" else copy.deepcopy(rng.choice(BAD[t.name]))
        return value
    if kind == "enum":
        import copy
        value = copy.deepcopy(value)
        parent = value
        for p in path[:-1]:
            parent = parent[p]
        parent[path[-1]] = rng.choice(["NOT_A_MEMBER_X", 3, {}, "", str(parent[path[-1]]) + "x"])
        return value
    if respond:
        return c02.inject(value, site, rng, schema)[0]
    return c06.inject(value, site, rng)


def anything(t):
    """Whether the field accepts everything, as typing.Any does."""
    while not is_leaf_type(t) and hasattr(t, "of_type"):
        if not isinstance(t, GraphQLNonNull):
            return False
        t = t.of_type
    return getattr(t, "name", "") == "JSON"


def objects(x, out):
    if isinstance(x, v1.BaseModel):
        out.append(x)
        for k in type(x).__fields__:
            objects(getattr(x, k), out)
    elif isinstance(x, (list, tuple)):
        for i in x:
            objects(i, out)
    return out


def case(ctx):
    x = ctx.rng.random()
    if x < 0.5:
        v1_case(ctx)
    elif x < 0.65:
        config_case(ctx)
    elif x < 0.85:
        polyfill_case(ctx)
    else:
        poly_case(ctx)


# ---- one-of inputs and input unions -------------------------------------------

class Found:
    """Generated classes by what they carry on the wire (field names are unique in these schemas)."""

    def __init__(self, g, mod):
        self.cls, self.wrap, self.problems = {}, {}, []
        by = {}
        for c in vars(mod).values():
            if isinstance(c, type) and issubclass(c, v1.BaseModel) and c.__module__ == mod.__name__:
                by.setdefault(frozenset(f.alias for f in c.__fields__.values()), c)
        for n in g.plain:
            keys = set(g.plain[n]) | {d for d, ms in g.unions.values() if n in ms}
            self.cls[n] = by.get(frozenset(keys))
        for n, fs in g.oneof.items():
            for tag in fs:
                self.wrap[n, tag] = by.get(frozenset([tag]))


class Values(c09.Values):
    def nn(self, t, depth):
        g, r = self.g, self.r
        if t not in g.oneof:
            return super().nn(t, depth)
        tags = list(g.oneof[t])
        if depth > 3:
            tags = [x for x in tags if g.oneof[t][x].strip("[]!") not in g.oneof] or tags
        tag = r.choice(tags)
        w, p = self.value(g.oneof[t][tag] + "!", depth + 1)
        self.ctx.count("oneof")
        return {tag: w}, self.lk.wrap[t, tag](**{tag: p})


def poly_case(ctx):
    from graphql import build_schema
    r = ctx.rng
    g = c09.Gen(r)
    g.make()
    sdl, doc = g.sdl(), g.document()
    kw = {}
    if r.random() < 0.25:
        kw["freeze"] = {"enabled": True}
    stylers = r.choice([[], [], [gen.styler("capitalize")], [gen.styler("snake")]])
    with gen.Scratch() as sc:
        sp = sc.write("schema.graphql", sdl)
        sc.write("docs/d.graphql", doc)
        try:
            code = gen.generate(sp, sc.join("docs", "*.graphql"), gen.turms_config([gen.plug("enums"), gen.plug("inputs"), gen.plug("operations")], stylers=stylers,
                                                                                   pydantic_version="v1", **kw))
        except Exception as e:
            ctx.fail("generation for pydantic v1 failed", error=repr(e), sdl=sdl, document=doc)
            return
    code = code.replace("from pydantic import", "from pydantic.v1 import")
    try:
        mod = gen.load(code)
    except Exception as e:
        if "cannot specify `Annotated` and value `Field`s together" in str(e):
            ctx.count("known_unloadable")          # known finding v1-union-of-inputs-with-alias
            return
        ctx.fail("a module for pydantic v1 does not load", error=repr(e)[:1500], sdl=sdl, code=code)
        return
    try:
        args = gen.operations_of(mod)["Run"].Arguments
        lk = Found(g, mod)
        schema = build_schema(sdl)
        for _ in range(5):
            vals = Values(g, lk, schema, ctx)
            try:
                pairs = {v: vals.value(t) for v, t in g.vars.items() if t.endswith("!") or r.random() < 0.7}
            except (v1.ValidationError, TypeError, KeyError) as e:
                ctx.fail("a valid polymorphic value cannot be built", error=repr(e)[:2000], sdl=sdl, code=code)
                return
            want = {v: w for v, (w, p) in pairs.items()}
            ctx.count("polymorphic")
            ctx.observed(repr(want) if want else None)
            for how, values in (("models", {v: p for v, (w, p) in pairs.items()}), ("json", want)):
                try:
                    got = dump(args(**values))
                except Exception as e:
                    ctx.fail(f"valid polymorphic variables were refused ({how})", wanted=want, error=repr(e)[:2000], sdl=sdl, code=code)
                    return
                if not client.same_json(got, want):
                    ctx.fail(f"a polymorphic input is not serialized in its tagged form ({how})", diff=client.json_diff(got, want)[:6], wanted=want, sdl=sdl, code=code)
                    return
        for m, c in lk.cls.items():
            for u, (d, ms) in g.unions.items():
                if m in ms:
                    ctx.count("members_attacked")
                    w, _p = Values(g, lk, schema, ctx).member(m, {}, 5)
                    try:
                        c(**{**w, d: "NO_SUCH_KEY"})
                    except v1.ValidationError:
                        continue
                    ctx.fail("an input union member accepts another member's key", member=m, code=code)
                    return
    finally:
        gen.unload(mod)


def v1_case(ctx):
    r = ctx.rng
    w = world.make_world(ctx.seed, world.Opts(oneof=False))
    catchall = r.random() < 0.5
    args_by_name = r.random() < 0.35
    kw = {}
    frozen = r.random() < 0.3
    lists = False
    if frozen:
        lists = r.random() < 0.5
        kw["freeze"] = {"enabled": True, "types": ["input", "fragment", "query", "mutation", "subscription", "object"], "convert_list_to_tuple": not lists}
    options = {}
    if r.random() < 0.4:
        options = {"enabled": True, "types": ["input", "fragment", "query", "mutation", "subscription", "object"]}
        if r.random() < 0.6:
            options["allow_population_by_field_name"] = True
        if r.random() < 0.6:
            options["extra"] = r.choice(["forbid", "ignore"])
        if r.random() < 0.5:
            options["validate_assignment"] = True
        if r.random() < 0.3:
            options["orm_mode"] = True
        kw["options"] = options
    plugins = [gen.plug("enums"), gen.plug("inputs"), gen.plug("fragments"), gen.plug("operations", **({"arguments_allow_population_by_field_name": True} if args_by_name else {}))]
    functions = r.random() < 0.5
    if functions:
        fp = confs.funcs_plugin(r)
        fp["global_args"], fp["global_kwargs"] = [], []
        for d in fp["definitions"]:
            d["extra_args"], d["extra_kwargs"] = [], []
            d["use"] = "vt_v1.call"
        fp["definitions"] = [d for d in fp["definitions"] if d["type"] != "subscription" and not d["is_async"]]
        fp["collapse_lonely"] = False
        functions = bool(fp["definitions"])
        if functions:
            plugins.append(fp)
    conf = gen.turms_config(plugins, stylers=client.random_stylers(r), pydantic_version="v1", create_catchall=catchall, **kw)
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)
        try:
            code = gen.generate(sp, dg, conf)
        except Exception as e:
            ctx.fail("generation for pydantic v1 failed", error=repr(e), conf=conf, sdl=w.sdl, documents=w.doc_text)
            return
    code = code.replace("from pydantic import", "from pydantic.v1 import")
    try:
        mod = gen.load(code)
    except Exception as e:
        ctx.fail("a module for pydantic v1 does not load", error=repr(e)[:1500], conf=conf, sdl=w.sdl, documents=w.doc_text, code=code)
        return
    b = client.Bundle(w, code, mod, conf)
    try:
        if set(b.source_ops) - set(b.ops):
            ctx.fail("operations without a class", missing=sorted(set(b.source_ops) - set(b.ops)))
            return
        classes = c06.input_classes(mod, w, None)
        funcs = {k.replace("_", "").lower(): f for k, f in vars(mod).items() if inspect.isfunction(f) and f.__module__ == mod.__name__}
        for op, cls in b.ops.items():
            if not (responses(ctx, b, op, cls, catchall, frozen, lists, options) and variables(ctx, b, op, cls, classes, args_by_name, options)):
                return
            if functions and any(d["type"] == b.source_ops[op].operation.value for d in fp["definitions"]):
                if not calls(ctx, b, op, cls, funcs, classes):
                    return
    finally:
        b.close()


# ---- freezing and model options of chosen kinds and types -------------------------

V1_DEFAULT = {"frozen": False, "allow_mutation": True, "extra": "ignore", "allow_population_by_field_name": False, "orm_mode": False, "use_enum_values": False,
              "validate_assignment": False, "title": None}


def effective(cls, key):
    v = getattr(cls.__config__, key, None)
    return getattr(v, "value", v)


def configured(f, o, add, mod, cls, kind, typename):
    """{key: value, or None when either is fine} the class has to be configured with."""
    ks = ["object", "fragment"] if kind is None else [kind]
    out = {}
    for key, default in V1_DEFAULT.items():
        values = set()
        for k in ks:
            v = default
            if key == "frozen":
                v = kinds.selected(f, k, typename)
            elif o.get(key) is not None and kinds.selected(o, k, typename):
                v = o[key]
            values.add(v)
        v = values.pop() if len(values) == 1 else None
        if v == default and any(effective(c, key) != default for c in kinds.generated_bases(mod, cls) if hasattr(c, "__config__")):
            v = None
        out[key] = v
    out.update(add.get(typename, {}))
    return out


def judge_config(ctx, f, o, add, mod, cls, kind, typename, info):
    ctx.count("config_probes")
    ctx.observed((repr(f), repr(o), kind, typename, cls.__name__))
    for key, v in configured(f, o, add, mod, cls, kind, typename).items():
        got = effective(cls, key)
        if v is not None and got != v and not (key == "title" and got in (None, cls.__name__) and v is None):
            ctx.fail(f"a model for pydantic v1 is not configured as asked ({key})", model=cls.__qualname__, kind=kind, type=typename, expected=v, got=got, freeze=f, options=o,
                     additional=add, **info)
            return False
    return True


def config_case(ctx):
    r = ctx.rng
    w = world.make_world(ctx.seed, world.Opts(oneof=False))
    names = sorted(set(w.objects) | set(w.interfaces) | set(w.inputs))
    f = c12.freeze_options(r, names) if r.random() < 0.7 else {}
    o, add = c29.options(r, names)
    if r.random() < 0.3:
        o = {}
    kw = {k: v for k, v in (("freeze", f), ("options", o), ("additional_config", add)) if v}
    objects_too = r.random() < 0.4
    plugins = ([gen.plug("enums", skip_unreferenced=False), gen.plug("inputs", skip_unreferenced=False), gen.plug("objects")] if objects_too else
               [gen.plug("enums"), gen.plug("inputs"), gen.plug("fragments"), gen.plug("operations")])
    conf = gen.turms_config(plugins, pydantic_version="v1", create_catchall=False, always_resolve_interfaces=False, **kw)
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)
        try:
            code = gen.generate(sp, dg, conf)
        except Exception as e:
            ctx.fail("generation for pydantic v1 failed", error=repr(e), conf=conf, sdl=w.sdl, documents=w.doc_text)
            return
    code = code.replace("from pydantic import", "from pydantic.v1 import")
    try:
        mod = gen.load(code)
    except Exception as e:
        ctx.fail("a module for pydantic v1 does not load", error=repr(e)[:1500], conf=conf, sdl=w.sdl, documents=w.doc_text, code=code)
        return
    b = client.Bundle(w, code, mod, conf)
    info = {"code": code[-6000:]}
    try:
        for n, cls in c06.input_classes(mod, w, None).items():
            if not judge_config(ctx, f, o, add, mod, cls, "input", n, info):
                return
        if objects_too:
            for n, t in b.schema.type_map.items():
                cls = getattr(mod, n, None)
                if is_object_type(t) and not n.startswith("__") and isinstance(cls, type):
                    if not judge_config(ctx, f, o, add, mod, cls, "object", n, info):
                        return
            return
        for n, cls in kinds.fragment_classes(b).items():
            if not judge_config(ctx, f, o, add, mod, cls, "fragment", b.frags[n].type_condition.name.value, info):
                return
        seen = set()
        for op, cls in b.ops.items():
            for vs, data in client.responses(ctx, b, op, 2, null_p=0.1):
                data = client.without_aliased_typename(data)
                try:
                    obj = cls(**data)
                except Exception as e:
                    ctx.fail("a valid response was rejected", operation=b.doc(op), data=data, error=str(e)[:2000], code=b.code, freeze=f, options=o, additional=add)
                    return
                for x, kind, tn, path in kinds.result_objects(b, op, obj, data):
                    if type(x) not in seen:
                        seen.add(type(x))
                        if not judge_config(ctx, f, o, add, mod, type(x), kind, tn, {"operation": b.doc(op), "path": path, **info}):
                            return
    finally:
        b.close()


def responses(ctx, b, op, cls, catchall, frozen, lists, options):
    r = ctx.rng
    node = b.source_ops[op]
    root = b.schema.get_root_type(node.operation)
    for vs, data in client.responses(ctx, b, op, 2, null_p=r.choice([0, .2]), min_list=1):
        if options.get("extra") == "forbid":
            data = client.without_aliased_typename(data)      # known finding aliased-typename
        try:
            obj = cls(**data)
        except Exception as e:
            ctx.fail("a valid response was rejected", operation=b.doc(op), data=data, error=str(e)[:2000], code=b.code)
            return False
        ctx.count("responses")
        ctx.observed((op, repr(data)))
        ctx.sample({"operation": b.doc(op)[:300], "data": str(data)[:200]})
        data = client.without_aliased_typename(data)
        out = dump(obj)
        if not client.same_json(out, data):
            ctx.fail("the parsed response does not carry the response's data", operation=b.doc(op), diff=client.json_diff(out, data)[:8], data=data, code=b.code)
            return False
        problems = []
        client.typed_walk(b, obj, data, root, [node.selection_set], op, problems, {}, tuple if frozen and not lists else list)
        if problems:
            ctx.fail("a parsed value is not the typed counterpart of the wire value", operation=b.doc(op), problems=problems[:8], data=data, code=b.code)
            return False
        if frozen:
            for o in objects(obj, [])[:10]:
                ctx.count("frozen")
                for k in list(type(o).__fields__)[:4]:
                    ctx.count("assignments")
                    try:
                        setattr(o, k, getattr(o, k))
                    except TypeError:
                        continue
                    ctx.fail("a frozen model can be changed", model=type(o).__name__, attribute=k, code=b.code)
                    return False
        if options.get("extra") == "forbid":
            ctx.count("extra_refused")
            try:
                cls(**data, zz_unknown_key=1)
            except v1.ValidationError:
                pass
            else:
                ctx.fail("an unknown key is accepted where extra keys are forbidden", operation=op, code=b.code)
                return False
        ss = []
        c02.sites(b, data, root, [node.selection_set], [], False, ss)
        ss = [s for s in ss if not (catchall and s[3]) and not (anything(s[2]) or s[2] is not None and str(s[2]).strip("[]!") == "JSON" and s[1] in ("kind", "null", "missing"))]
        if options.get("orm_mode"):
            ss = [s for s in ss if s[1] != "object"]            # every object is a source of attributes then
        for _ in range(4 if ss else 0):
            k = r.choice(sorted({s[1] for s in ss}))
            s = r.choice([x for x in ss if x[1] == k])
            bad = place(data, s, r, b.schema, True)
            ctx.count("faults")
            ctx.count(k)
            try:
                got = cls(**bad)
            except (v1.ValidationError, TypeError):
                continue
            ctx.fail(f"a response with a {k} fault was accepted", path=s[0], type=str(s[2]), operation=b.doc(op), data=bad, parsed=repr(got), code=b.code)
            return False
    return True


def given(ctx, b, op):
    r = ctx.rng
    node = b.source_ops[op]
    vs = serve.random_variables(b.schema, node, r, omit_p=r.choice([.1, .4, .8]), null_p=r.choice([.05, .3]))
    errs, _ = serve.coerce(b.schema, node, vs)
    return None if errs else vs


def variables(ctx, b, op, cls, classes, args_by_name, options):
    r = ctx.rng
    node = b.source_ops[op]
    names = {v.variable.name.value: v for v in node.variable_definitions}
    types = {n: type_from_ast(b.schema, v.type) for n, v in names.items()}
    if not names:
        return True
    for _ in range(2):
        vs = given(ctx, b, op)
        if vs is None:
            continue

        def verify(how, kw):
            ctx.count("roundtrips")
            try:
                out = dump(cls.Arguments(**kw))
            except Exception as e:
                ctx.fail(f"valid variables were refused ({how})", operation=op, variables=vs, error=str(e)[:2000], code=b.code)
                return False
            if not client.same_json(out, vs):
                ctx.fail(f"the serialized variables differ from the given ones ({how})", operation=op, diff=client.json_diff(out, vs)[:8], given=vs, code=b.code)
                return False
            return True
        ctx.observed((op, repr(vs)) if vs else None)
        if not verify("json", vs):
            return False
        try:
            built = {n: c06.build(v, types[n], classes, bool(options.get("allow_population_by_field_name")) and r.random() < .7, ctx) for n, v in vs.items()}
        except Exception as e:
            ctx.fail("a valid input object could not be built from its generated class", variables=vs, error=str(e)[:2000], code=b.code)
            return False
        if any(isinstance(x, v1.BaseModel) for x in objects(list(built.values()), [])):
            ctx.count("built")
        if not verify("generated input classes", built):
            return False
        if args_by_name:
            ctx.count("by_name")
            if not verify("python names", {client.attr_for(cls.Arguments, n): v for n, v in built.items()}):
                return False
        ss = []
        for n, v in names.items():
            d = v.default_value is not None
            if isinstance(types[n], GraphQLNonNull) and not d:
                ss.append(([n], "missing", types[n]))
            if n in vs:
                c06.sites(vs[n], types[n], [n], ss, d)
        ss = [s for s in ss if str(s[2]).strip("[]!") != "JSON" and not (options.get("orm_mode") and s[1] == "object")]
        for _k in range(2 if ss else 0):
            kind = r.choice(sorted({s[1] for s in ss}))
            s = r.choice([x for x in ss if x[1] == kind])
            bad = place(vs, s, r, b.schema, False)
            ctx.count("variable_faults")
            try:
                got = cls.Arguments(**bad)
            except (v1.ValidationError, TypeError):
                continue
            ctx.fail(f"variables with a {kind} fault were accepted", path=s[0], type=str(s[2]), operation=op, variables=bad, parsed=repr(got), code=b.code)
            return False
    return True


def calls(ctx, b, op, cls, funcs, classes):
    import vt_v1
    node = b.source_ops[op]
    fn = funcs.get(op.replace("_", "").lower())
    if fn is None:
        ctx.fail("an operation does not have its call function", operation=op, functions=sorted(funcs))
        return False
    from .c07 import param_for
    vs = given(ctx, b, op)
    if vs is None:
        return True
    types = {v.variable.name.value: type_from_ast(b.schema, v.type) for v in node.variable_definitions}
    params = inspect.signature(fn).parameters
    kw = {}
    for n, v in vs.items():
        p = param_for(params, n)
        if p is None:
            ctx.fail("a variable has no parameter", function=fn.__name__, variable=n, parameters=list(params))
            return False
        kw[p] = c06.build(v, types[n], classes, False, ctx)
    token = object()
    vt_v1.CALLS.clear()
    vt_v1.RESULT = token
    try:
        result = fn(**kw)
    except Exception as e:
        ctx.fail("a call with valid arguments failed", function=fn.__name__, arguments=repr(kw)[:1500], error=repr(e)[:2000], code=b.code)
        return False
    ctx.count("calls")
    if result is not token or len(vt_v1.CALLS) != 1 or vt_v1.CALLS[0][0] is not cls:
        ctx.fail("a call is not transmitted exactly once", function=fn.__name__, calls=repr(vt_v1.CALLS)[:800])
        return False
    out = vt_v1.CALLS[0][1]
    if not client.same_json(out, vs):
        ctx.fail("a call transmits other variables than the given ones", function=fn.__name__, diff=client.json_diff(out, vs)[:8], given=vs, code=b.code)
        return False
    return True


# ---- older pythons ---------------------------------------------------------

NOT_YET = {"3.7": {"Annotated", "Literal", "Final", "Protocol", "TypedDict", "ParamSpec", "TypeAlias", "Self", "Required", "NotRequired", "Never", "Unpack", "override"},
           "3.8": {"Annotated", "ParamSpec", "TypeAlias", "Self", "Required", "NotRequired", "Never", "Unpack", "override"},
           "3.9": {"ParamSpec", "TypeAlias", "Self", "Required", "NotRequired", "Never", "Unpack", "override"}}
BUILTIN_GENERICS = {"list", "dict", "tuple", "set", "frozenset", "type"}


def too_new(tree, version):
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom) and n.module == "typing":
            out += [f"typing.{a.name}" for a in n.names if a.name in NOT_YET[version]]
        anns = []
        if isinstance(n, ast.AnnAssign):
            anns.append(n.annotation)
        elif isinstance(n, ast.arg) and n.annotation:
            anns.append(n.annotation)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns:
            anns.append(n.returns)
        for a in anns:
            for x in ast.walk(a):
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                    out.append("X | Y")
                if version != "3.9" and isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in BUILTIN_GENERICS:
                    out.append(x.value.id + "[...]")
    return out


def imports(tree):
    return {(a.asname or a.name): (n.module if n.module not in ("typing", "typing_extensions") else "typing", a.name) for n in tree.body if isinstance(n, ast.ImportFrom) for a in n.names}


def polyfill_case(ctx):
    r = ctx.rng
    w = world.make_world(ctx.seed)
    version = r.choice(["3.7", "3.8", "3.9", "3.7", "3.8", "3.10", "3.11", "3.12", "3.13"])
    plugins = list(gen.CLIENT_PLUGINS)
    if r.random() < 0.5:
        plugins.append(confs.funcs_plugin(r))
    if r.random() < 0.3:
        plugins.append(gen.plug("input_funcs"))
    if r.random() < 0.2:
        plugins.append(gen.plug("objects"))
    conf = dict(pydantic_version=r.choice(["v1", "v2", "v2"]), stylers=client.random_stylers(r), create_catchall=r.random() < .5)
    written = r.choice([version, version, float(version)] if version in ("3.7", "3.8", "3.9") else [version])
    parser = {"type": "turms.parsers.polyfill.PolyfillParser", "python_version": written}
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)
        try:
            plain = gen.generate(sp, dg, gen.turms_config(plugins, **conf))
        except Exception:
            ctx.count("skipped")
            return
        try:
            code = gen.generate(sp, dg, gen.turms_config(plugins, parsers=[parser] * r.choice([1, 1, 2]), **conf))
        except Exception as e:
            ctx.fail("generation fails with a polyfill", error=repr(e), conf=conf, version=version)
            return
    ctx.count("polyfilled")
    ctx.observed((version, code))
    tree, before = ast.parse(code), ast.parse(plain)
    if version in NOT_YET:
        try:
            ast.parse(code, feature_version=tuple(map(int, version.split("."))))
        except SyntaxError as e:
            ctx.fail("a polyfilled module uses syntax its python does not have", version=version, error=str(e), code=code)
            return
        new = too_new(tree, version)
        if new:
            ctx.fail("a polyfilled module needs a newer python", version=version, needs=sorted(set(new)), code=code)
            return
    if imports(tree) != imports(before):
        ctx.fail("a polyfilled module imports other names", version=version, missing=str(sorted(set(imports(before).items()) - set(imports(tree).items())))[:500],
                 new=str(sorted(set(imports(tree).items()) - set(imports(before).items())))[:500])
        return
    if any(isinstance(n, ast.ImportFrom) and n.module == "typing_extensions" for n in tree.body):
        ctx.count("moved")
    body = [[ast.dump(n) for n in t.body if not isinstance(n, ast.ImportFrom)] for t in (tree, before)]
    if body[0] != body[1]:
        ctx.fail("a polyfill changes more than imports", version=version, code=code)
        return
    if conf["pydantic_version"] == "v2":
        try:
            mod = gen.load(code)
        except Exception as e:
            ctx.fail("a polyfilled module does not load", version=version, error=repr(e)[:1000], code=code)
            return
        gen.unload(mod)


# ---- known findings ----------------------------------------------------------

def aliased_union():
    sdl = ('directive @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT\n'
           'input Shape { a: Int }\n'
           'input Circle @unionElementOf(union: "Shape", discriminator: "kind", key: "CIRCLE") { r: Int }\n'
           'input Line @unionElementOf(union: "Shape", discriminator: "kind", key: "LINE") { l: Int }\n'
           'type Query { q(from: Shape!): Int }\n')
    with gen.Scratch() as sc:
        sp = sc.write("s.graphql", sdl)
        sc.write("d/a.graphql", "query Q($from: Shape!) { q(from: $from) }")
        code = gen.generate(sp, sc.join("d", "*.graphql"), gen.turms_config(gen.CLIENT_PLUGINS, pydantic_version="v1"))
    try:
        mod = gen.load(code.replace("from pydantic import", "from pydantic.v1 import"))
    except ValueError as e:
        return f"does not load: {e}"
    got = dump(gen.operations_of(mod)["Q"].Arguments(**{"from": mod.Line(l=1)}))
    gen.unload(mod)
    return None if got == {"from": {"l": 1, "kind": "LINE"}} else f"sent {got}"


PROBES = {"v1-union-of-inputs-with-alias": aliased_union}

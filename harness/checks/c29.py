"""C29: model options reach exactly the configured kinds and types."""
import enum
import json
import types

from graphql import type_from_ast
from pydantic import ValidationError

from .. import client, gen, kinds, pinned, serve, world
from . import c09
from .c06 import build
from .c12 import freeze_options

PROP = "C29"
RULE = ("Random worlds under random model options (extra, mutation, population by name, attributes, enum values, assignment validation; kinds, included "
        "and excluded types) and per-type additional config; every object of parsed responses and built inputs is probed for the behaviour each option "
        "promises: unknown keys, assignments, python names, attribute sources, enum values. Selected models must behave as configured, others as "
        "without options. Non-trivial: an object below the operation; distinct by (options, kind, type, class).")
N_QUICK, N_THOROUGH = 600, 10000
REQUIRE = {"selected": 3000, "unselected": 1500, "extra_probes": 1500, "assignment_probes": 800, "name_probes": 300, "enum_probes": 60, "attribute_probes": 300,
           "inputs": 500, "additional": 200, "wrappers": 100}

ALLK = ["input", "fragment", "object", "query", "mutation", "subscription"]


def options(r, names):
    o = {"enabled": r.random() < 0.9}
    for k, vs in (("extra", ["ignore", "allow", "forbid"]), ("allow_mutation", [True, False]), ("allow_population_by_field_name", [True, False]),
                  ("orm_mode", [True, False]), ("use_enum_values", [True, False]), ("validate_assignment", [True, False])):
        if r.random() < 0.45:
            o[k] = r.choice(vs)
    if r.random() < 0.6:
        o["types"] = sorted(set(r.sample(ALLK, r.randint(1, 5)) + (["object", "fragment"] if r.random() < 0.5 else [])))
    x = r.random()
    if x < 0.2:
        o["exclude"] = r.sample(names, min(len(names), r.randint(1, 3)))
    elif x < 0.4:
        o["include"] = r.sample(names, min(len(names), r.randint(1, 4)))
        if r.random() < 0.4:       # exclusion wins
            o["exclude"] = r.sample(o["include"], 1) + r.sample(names, 1)
    add = {}
    if r.random() < 0.35:
        for n in r.sample(names, min(len(names), r.randint(1, 3))):
            add[n] = dict(r.sample([("extra", r.choice(["allow", "forbid"])), ("validate_assignment", True), ("title", "Given title"), ("frozen", True),
                                    (r.choice(["populate_by_name", "from_attributes", "validate_assignment"]), False)], r.randint(1, 2)))
    return o, add


TO_V2 = {"extra": ("extra", lambda v: v), "allow_mutation": ("frozen", lambda v: not v), "allow_population_by_field_name": ("populate_by_name", lambda v: v),
         "orm_mode": ("from_attributes", lambda v: v), "use_enum_values": ("use_enum_values", lambda v: v), "validate_assignment": ("validate_assignment", lambda v: v)}
DEFAULT = {"extra": ("ignore", None), "frozen": (False, None), "populate_by_name": (False, None), "from_attributes": (False, None),
           "use_enum_values": (False, None), "validate_assignment": (False, None), "title": (None,)}


def wanted(b, o, add, cls, kind, typename, freeze={}):
    """{key: value or None when either is fine} the class has to be configured with."""
    out = {}
    ks = ["object", "fragment"] if kind is None else [kind]
    sels = [kinds.selected(o, k, typename) for k in ks]
    bases = kinds.generated_bases(b.mod, cls)
    for k, (key, conv) in TO_V2.items():
        if sels[0] != sels[-1]:
            out[key] = None
        elif sels[0] and o.get(k) is not None:
            out[key] = conv(o[k])
        elif any(c.model_config.get(key) not in DEFAULT[key] for c in bases) or typename in getattr(b, "configured", ()):
            out[key] = None
        else:
            out[key] = DEFAULT[key][0]
    frozen = [kinds.selected(freeze, k, typename) for k in ks]
    if any(frozen):                                   # freezing wins over allow_mutation
        out["frozen"] = True if all(frozen) else None
    for key, v in add.get(typename, {}).items():
        out[key] = v
    return out


def judge(ctx, b, o, add, obj, data, kind, typename, path, why):
    cls = type(obj)
    freeze = why.get("freeze") or {}
    want = wanted(b, o, add, cls, kind, typename, freeze)
    if typename in add:
        ctx.count("additional")
    ctx.count("selected" if any(v is not None and v not in DEFAULT[k] for k, v in want.items()) else "unselected")
    ctx.observed((str(o), kind, typename, cls.__name__) if path != "$" else None)
    info = {"model": cls.__qualname__, "kind": kind, "type": typename, "options": o, "additional": add, "path": path, **why}
    for key, v in want.items():
        got = cls.model_config.get(key)
        if v is None:
            continue
        if not ctx.check(got == v or (got in DEFAULT[key] and v in DEFAULT[key]), f"a model is not configured as asked ({key})", expected=v, got=got, code=b.code[-5000:], **info):
            return False
    if data is None:
        return True
    # behaviour
    if want["extra"] is not None:
        ctx.count("extra_probes")
        try:
            p = cls.model_validate({**data, "zzUnknown": 1})
            got = "allow" if (p.model_extra or {}).get("zzUnknown") == 1 else "ignore"
        except ValidationError:
            got = "forbid"
        if not ctx.check(got == want["extra"], "unknown keys are not treated as configured", expected=want["extra"], got=got, **info):
            return False
    aliased = [a for a, f in cls.model_fields.items() if f.alias and f.alias != a and f.alias in data and f.alias != "__typename"]
    named = {client.attr_for(cls, k) or k: v for k, v in data.items()}
    named.update({"__typename": data["__typename"]} if "__typename" in data else {})
    if aliased and want["populate_by_name"] is not None and cls.model_config.get("extra") != "forbid":
        ctx.count("name_probes")
        try:
            p = cls.model_validate(named)
            ok = all(a in p.model_fields_set and a not in (p.model_extra or {}) for a in aliased)
        except ValidationError:
            ok = False
        if not ctx.check(ok == want["populate_by_name"], "population by python names is not as configured", expected=want["populate_by_name"], got=ok, **info):
            return False
    if want["from_attributes"] is not None:
        ctx.count("attribute_probes")
        ns = types.SimpleNamespace()
        ns.__dict__.update(data)
        try:
            p = cls.model_validate(ns)
            ok = p.model_dump() == cls.model_validate(data).model_dump() or want["extra"] == "allow"
        except ValidationError:
            ok = False
        nested = any(isinstance(v, (dict, list)) for v in data.values())
        if not (nested and not ok):
            if not ctx.check(ok == want["from_attributes"], "attribute sources are not treated as configured", expected=want["from_attributes"], got=ok, **info):
                return False
    for a, f in list(cls.model_fields.items()):
        v = getattr(obj, a)
        if f.alias == "__typename":
            continue
        if want["use_enum_values"] is not None and (isinstance(v, enum.Enum) or "Enum" in str(f.annotation)) and isinstance(v, str):
            ctx.count("enum_probes")
            # pydantic loses use_enum_values where an enum is shared by several models, so only its absence is judged by behaviour
            if not ctx.check(want["use_enum_values"] or isinstance(v, enum.Enum), "enum values are not kept as configured", field=a, value=repr(v), **info):
                return False
    a = next((a for a, f in cls.model_fields.items() if f.annotation in (int, bool, str, float) and f.alias != "__typename"), None)
    if a is not None and want["frozen"] is not None:
        ctx.count("assignment_probes")
        old = getattr(obj, a)
        try:
            setattr(obj, a, old)
            mutable = True
        except ValidationError:
            mutable = False
        if not ctx.check(mutable != want["frozen"], "mutation is not as configured", field=a, mutable=mutable, **info):
            return False
        if mutable and want["validate_assignment"] is not None:
            try:
                setattr(obj, a, {"not": "valid"})
                checked = False
            except ValidationError:
                checked = True
            obj.__dict__.__setitem__(a, old)
            if not ctx.check(checked == want["validate_assignment"], "assignments are not validated as configured", field=a, validated=checked, **info):
                return False
    return True


def at(data, path):
    import re
    for k, i in re.findall(r"\.([^.\[\]]+)|\[(\d+)\]", path):
        data = data[k] if k else data[int(i)]
    return data


def case(ctx):
    r = ctx.rng
    w = world.make_world(ctx.seed, world.Opts(oneof=False))
    o, add = options(r, sorted(set(w.objects) | set(w.interfaces) | set(w.inputs)))
    freeze = freeze_options(r, sorted(set(w.objects) | set(w.interfaces) | set(w.inputs))) if r.random() < 0.35 else {}
    ctx.count("also_frozen", bool(freeze))
    # bases of some types switch everything on, what the configuration says wins over them
    configured = [n for n in sorted(add) if r.random() < 0.5]
    more = {"freeze": freeze} if freeze else {}
    if configured:
        ctx.count("configured_bases")
        more["additional_bases"] = {n: ["vt_traits.Configured"] for n in configured}
    b = client.build(ctx, w, stylers=client.random_stylers(r, 0.6), options=o, additional_config=add, create_catchall=False, **more)
    if b is None:
        return
    b.configured = configured
    try:
        for op, cls in b.ops.items():
            for vs, data in client.responses(ctx, b, op, 2, null_p=0.1):
                data = client.without_aliased_typename(data)
                try:
                    obj = cls(**data)
                except Exception as e:
                    return ctx.fail("a response is refused under model options", operation=op, data=data, error=str(e)[:1500], options=o, additional=add, code=b.code[-5000:])
                got = obj.model_dump(by_alias=True, exclude_unset=True, mode="json")
                diff = client.json_diff(data, got)
                if not ctx.check(not diff, "model options change the serialized response", diff=diff[:5], operation=op, options=o):
                    return
                for x, kind, tn, path in kinds.result_objects(b, op, obj, data):
                    if not judge(ctx, b, o, add, x, at(data, path), kind, tn, path, {"operation": op, "freeze": freeze}):
                        return
        for n, fc in kinds.fragment_classes(b).items():
            tn = b.frags[n].type_condition.name.value
            for key, v in wanted(b, o, add, fc, "fragment", tn, freeze).items():
                got = fc.model_config.get(key)
                if v is not None and not ctx.check(got == v or (got in DEFAULT[key] and v in DEFAULT[key]), "a fragment is not configured as asked", fragment=n,
                                                   type=tn, key=key, expected=v, got=got, options=o, additional=add):
                    return
        classes = kinds.input_classes(b.mod, w, None)
        for op, cls in b.ops.items():
            node = b.source_ops[op]
            vs = serve.random_variables(b.schema, node, r, omit_p=0.2)
            errs, _c = serve.coerce(b.schema, node, vs)
            if errs:
                continue
            for v in node.variable_definitions:
                n = v.variable.name.value
                if vs.get(n) is None:
                    continue
                built = build(vs[n], type_from_ast(b.schema, v.type), classes, False, ctx)
                for x, kind, tn, path in kinds.input_objects(b, classes, built):
                    ctx.count("inputs")
                    d = x.model_dump(by_alias=True, mode="json", exclude_unset=True)
                    if not judge(ctx, b, o, add, x, d, kind, tn, path + ".", {"variable": n, "operation": op, "freeze": freeze}):
                        return
    finally:
        b.close()
    if r.random() < 0.3:
        polymorphic(ctx)


def polymorphic(ctx):
    """The models of one-of inputs and members of input unions."""
    r = ctx.rng
    g = c09.Gen(r)
    g.make()
    o, add = options(r, list(g.plain) + list(g.oneof))
    mod, found = c09.input_models(ctx, g, {"options": o, "additional_config": add})
    if mod is None:
        return
    b = types.SimpleNamespace(mod=mod)
    try:
        for n, cs in found.items():
            for c in cs:
                ctx.observed(("polymorphic", str(o), n in g.oneof))
                for key, v in wanted(b, o, add, c, "input", n).items():
                    got = c.model_config.get(key)
                    if v is not None and got != v and not (got in DEFAULT[key] and v in DEFAULT[key]):
                        ctx.fail("a model of a polymorphic input is not configured as asked", type=n, model=c.__name__, key=key, expected=v, got=got, options=o,
                                 additional=add, sdl=g.sdl())
                        return
    finally:
        gen.unload(mod)


def inputs_by_name():
    """The documented option of the inputs plugin (on by default)."""
    mod = pinned.module("input W { maxValue: Int! } type Query { a(w: W): Int }", "query Q($w: W) { a(w: $w) }",
                        [gen.plug("inputs", allow_population_by_field_name=True), gen.plug("operations")], stylers=[gen.styler("snake")])
    try:
        try:
            mod.W(max_value=3)
            return None
        except ValidationError:
            return "not populated by name"
    finally:
        gen.unload(mod)


def override():
    mod = pinned.module(pinned.ZOO, "query Q { cat { lives } }", freeze={"enabled": True}, options={"enabled": True, "allow_mutation": False, "extra": "forbid"},
                        additional_config={"Cat": {"frozen": True, "extra": "allow"}})
    try:
        c = gen.operations_of(mod)["Q"](cat={"__typename": "Cat", "lives": 1, "more": 2}).cat
        return None if c.model_config["frozen"] and c.model_extra == {"more": 2} else f"config {dict(c.model_config)}"
    finally:
        gen.unload(mod)


PROBES = {"inputs-population-by-name": inputs_by_name}
REGRESSIONS = {"type-config-overrides": override}

"""C16: the object models mirror the schema's object types and interfaces."""
from graphql import (
    GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLUnionType, get_named_type, is_abstract_type, is_leaf_type,
)

from .. import client, gen, serve, world

PROP = "C16"
RULE = ("Random schemas are generated with the objects plugin (stylers, freezing, bases, options). For every object type random conforming values are built "
        "bottom up through the models, read back attribute by attribute and dumped; values with one fault (missing or null non-null field, null list "
        "item, wrong kind, unknown enum value, instance of a foreign class at an abstract position) must be refused. Every object must be an instance of the "
        "bases of exactly its interfaces. Non-trivial: a built or refused object; distinct by (field type shape, fault).")
N_QUICK, N_THOROUGH = 900, 9000
REQUIRE = {"types": 900, "built": 3000, "values": 9000, "refused": 2500, "abstract_positions": 800, "foreign_refused": 300, "interfaces": 200, "styled": 60}

MISSING = object()


class Skip(Exception):
    pass


class Maker:
    """Builds conforming values: (python argument, expected wire value)."""

    def __init__(self, b, classes, rng):
        self.b, self.classes, self.rng = b, classes, rng

    def value(self, t, depth):
        if isinstance(t, GraphQLNonNull):
            return self.nn(t.of_type, depth)
        if self.rng.random() < 0.25 or depth > 3 and not is_leaf_type(get_named_type(t)):
            return None, None
        try:
            return self.nn(t, depth)
        except Skip:
            return None, None

    def nn(self, t, depth):
        r = self.rng
        if depth > 7:
            raise Skip
        if isinstance(t, GraphQLList):
            n = 0 if depth > 3 and not is_leaf_type(get_named_type(t)) else r.randint(0, 3)
            items = [self.value(t.of_type, depth + 1) for _ in range(n)]
            return [i[0] for i in items], [i[1] for i in items]
        if is_leaf_type(t):
            v = serve.leaf_value(t, r)
            return v, v
        if is_abstract_type(t):
            possible = self.b.schema.get_possible_types(t)
            if not possible:    # an interface nothing implements has no values
                raise Skip
            runtime = r.choice(possible)
            wire = self.wire(runtime, depth + 1)
            return self.classes[runtime.name](**wire[0]), wire[1]    # nothing in the data tells the members apart
        wire = self.wire(t, depth + 1)
        if r.random() < 0.5:
            return self.classes[t.name](**wire[0]), wire[1]
        return wire

    def wire(self, t, depth):
        arg, out = {}, {}
        for n, f in t.fields.items():
            if not isinstance(f.type, GraphQLNonNull) and self.rng.random() < 0.15:
                continue
            a, w = self.value(f.type, depth)
            arg[n], out[n] = a, w
        return arg, out


def read(value, wire, t, b, classes, path, problems, stats):
    """Compare attributes with the wire value."""
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if wire is None or is_leaf_type(get_named_type(t)) and not isinstance(t, GraphQLList):
        client.typed_walk(b, value, wire, t, [], path, problems, stats, (list, tuple))
        return
    if isinstance(t, GraphQLList):
        want = b.sequence
        if type(value) is not want or len(value) != len(wire):
            problems.append(f"{path}: {type(value).__name__}, expected a {want.__name__} of {len(wire)}")
            return
        for i, (v, x) in enumerate(zip(value, wire)):
            read(v, x, t.of_type, b, classes, f"{path}[{i}]", problems, stats)
        return
    name = next((n for n, c in classes.items() if type(value) is c), None)
    if name is None or t.name != name and not (is_abstract_type(t) and b.schema.is_sub_type(t, b.schema.get_type(name))):
        problems.append(f"{path}: {type(value).__name__} at a position of {t.name}")
        return
    ot = b.schema.get_type(name)
    for n, f in ot.fields.items():
        a = client.attr_for(type(value), n)
        if a is None:
            problems.append(f"{path}.{n}: no attribute on {type(value).__name__}")
            continue
        if n in wire:
            stats["values"] = stats.get("values", 0) + 1
            read(getattr(value, a), wire[n], f.type, b, classes, f"{path}.{n}", problems, stats)
        elif getattr(value, a, MISSING) is not None:
            problems.append(f"{path}.{n}: {getattr(value, a, MISSING)!r} for an absent field")


WRONG = {"Int": ["x", 1.5, {}], "Float": ["x", {}], "Boolean": ["maybe", {}, 7], "String": [5, {}, []], "ID": [{}, []], "UUID": ["no-uuid", {}], "Date": ["yesterday"],
         "DateTime": ["yesterday", {}], "Slug": [5, {}], "BigInt": ["x", 1.5], "JSON": []}


def faults(t, arg, maker, r):
    """(description, replacement) which the type does not allow."""
    nn = isinstance(t, GraphQLNonNull)
    u = t.of_type if nn else t
    out = []
    if nn:
        out.append(("missing", MISSING))
        if getattr(u, "name", "") != "JSON":
            out.append(("null", None))
    if isinstance(u, GraphQLList):
        out.append(("no list", 5))
        out.append(("no list", {"a": 1}))
        item = u.of_type
        anything = get_named_type(u).name == "JSON"      # whose python type takes null
        if isinstance(item, GraphQLNonNull) and not (anything and is_leaf_type(item.of_type)):
            out.append(("null item", [None]))
        if isinstance(item, GraphQLList) and isinstance(item.of_type, GraphQLNonNull) and not anything:
            out.append(("null inner item", [[None]]))
        return out
    if is_leaf_type(u):
        if hasattr(u, "values"):
            out += [("unknown enum value", "NOPE_NOT_A_VALUE"), ("wrong kind", 5)]
        out += [("wrong kind", v) for v in WRONG.get(u.name, [])]
        return out
    out += [("wrong kind", 5), ("wrong kind", "text"), ("wrong kind", [])]
    if is_abstract_type(u):
        possible = {p.name for p in maker.b.schema.get_possible_types(u)}
        for n in r.sample(sorted(maker.classes), len(maker.classes)):
            ot = maker.b.schema.get_type(n)
            if n not in possible and isinstance(ot, GraphQLObjectType):
                try:
                    out.append(("foreign", maker.classes[n](**maker.wire(ot, 2)[0])))
                    break
                except Skip:
                    pass
    else:
        for n in r.sample(sorted(maker.classes), len(maker.classes)):
            if n != u.name:
                try:
                    out.append(("foreign", maker.classes[n](**maker.wire(maker.b.schema.get_type(n), 2)[0])))
                    break
                except Skip:
                    pass
    return out


def class_of(mod, name):
    """The class of a type: named like it, escaped where python reserves the name."""
    for n in (name, name + "_", name[:1].upper() + name[1:], "Gql" + name, "Gql" + name[:1].upper() + name[1:]):
        c = getattr(mod, n, None)
        if c is not None:
            return c


def case(ctx):
    r = ctx.rng
    w = world.make_world(f"{ctx.seed}", world.Opts(n_objects=(2, 6), n_fields=(1, 7), oneof=False, union_element=False))
    stylers, conf, freeze = [], {}, False
    if r.random() < 0.5:
        stylers = [gen.styler(s) for s in r.sample(["capitalize", "snake", "default"], r.randint(1, 2))]
        if r.random() < 0.4:
            stylers.append({"type": "vt_stylers.ObjectStyler"})
        ctx.count("styled")
    if r.random() < 0.3:
        freeze = r.random() < 0.7
        conf["freeze"] = {"enabled": True, "types": ["object"] if freeze else ["input"]}
        if r.random() < 0.3:
            conf["freeze"]["convert_list_to_tuple"] = False
            freeze = False
    if r.random() < 0.3:
        conf["options"] = {"enabled": True, "types": ["object"], "extra": r.choice(["ignore", "allow", "forbid"])}
    if r.random() < 0.3:
        conf["document_field_metadata"] = False
    plugin = gen.plug("objects", **({"types_bases": ["vt_traits.ObjectBase"]} if r.random() < 0.3 else {}))
    plugins = [gen.plug("enums", skip_unreferenced=False), plugin] if r.random() < 0.7 else \
        [gen.plug("enums", skip_unreferenced=False), gen.plug("inputs", skip_unreferenced=False), plugin]
    lone = [i for i in w.interfaces if not w.schema.get_implementations(w.schema.type_map[i]).objects
            and not w.schema.get_implementations(w.schema.type_map[i]).interfaces]
    strict = r.random() < 0.5
    conf["always_resolve_interfaces"] = strict
    config = gen.turms_config(plugins, stylers=stylers, **conf)
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)
        if strict and lone:
            ctx.count("unimplemented_interfaces")
            try:
                gen.generate(sp, None, config)
            except Exception as e:
                if not all(i in str(e) for i in lone):
                    ctx.fail("the refusal of unimplemented interfaces does not name them", error=str(e), interfaces=lone)
            else:
                ctx.fail("unimplemented interfaces are accepted although always_resolve_interfaces demands types", interfaces=lone, sdl=w.sdl)
            return
        try:
            code = gen.generate(sp, dg if r.random() < 0.3 else None, config)
            mod = gen.load(code)
        except Exception as e:
            ctx.fail("objects cannot be generated", error=repr(e), cause=repr(e.__cause__), conf=config, sdl=w.sdl)
            return
    b = client.Bundle(w, code, mod, config)
    b.sequence = tuple if freeze else list
    schema = w.schema
    try:
        classes, bases = {}, {}
        for n, t in schema.type_map.items():
            if n.startswith("__"):
                continue
            if isinstance(t, GraphQLObjectType):
                c = class_of(mod, n)
                if not isinstance(c, type) or not hasattr(c, "model_fields"):
                    ctx.fail("an object type without a model", type=n, code=code)
                    return
                classes[n] = c
            elif isinstance(t, GraphQLInterfaceType):
                c = class_of(mod, n + "Base") or class_of(mod, n + "_Base")
                if c is None:
                    ctx.fail("an interface without a base model", type=n, code=code)
                    return
                bases[n] = c
                ctx.count("interfaces")
        if len(set(classes.values())) != len(classes):
            ctx.fail("two object types share a model", classes={k: v.__name__ for k, v in classes.items()}, sdl=w.sdl)
            return
        m = Maker(b, classes, r)
        for n, c in list(classes.items()) + list(bases.items()):
            t = schema.get_type(n)
            ctx.count("types")
            names = [f.alias or a for a, f in c.model_fields.items()]
            if sorted(names) != sorted(t.fields):
                ctx.fail("a model carries other fields than its type", type=n, model=names, schema=list(t.fields), code=code)
                return
            for i, ic in bases.items():
                it = schema.get_type(i)
                want = i == n or any(x.name == i for x in t.interfaces)
                if issubclass(c, ic) != want:
                    ctx.fail("a model does not inherit exactly the interfaces of its type", type=n, interface=i, model=[x.__name__ for x in c.__mro__])
                    return
        for n, c in classes.items():
            t = schema.get_type(n)
            for _ in range(3):
                try:
                    arg, wire = m.wire(t, 0)
                except Skip:
                    ctx.count("endless")
                    continue
                try:
                    obj = c(**arg)
                except Exception as e:
                    ctx.fail("a conforming value is refused", type=n, value=repr(arg), error=str(e), code=code, sdl=w.sdl)
                    return
                problems, stats = [], {}
                read(obj, wire, t, b, classes, n, problems, stats)
                dump = obj.model_dump(mode="json", by_alias=True, exclude_unset=True)
                problems += client.json_diff(dump, wire)
                if problems:
                    ctx.fail("a value is not carried faithfully", type=n, problems=problems[:8], value=repr(arg), code=code, sdl=w.sdl)
                    return
                ctx.count("built")
                ctx.count("values", stats.get("values", 0))
                for fn, f in t.fields.items():
                    ctx.count("abstract_positions", int(is_abstract_type(get_named_type(f.type)) and bool(wire.get(fn))))
                    ctx.observed((n == fn, str(f.type).replace(get_named_type(f.type).name, type(get_named_type(f.type)).__name__), fn in wire))
                    fs = faults(f.type, arg.get(fn), m, r)
                    if not fs:
                        continue
                    what, v = r.choice(fs)
                    bad = dict(arg)
                    bad.pop(fn, None)
                    if v is not MISSING:
                        bad[fn] = v
                    ctx.count("refused")
                    ctx.count("foreign_refused", int(what == "foreign"))
                    ctx.observed((what, str(f.type).replace(get_named_type(f.type).name, type(get_named_type(f.type)).__name__)))
                    try:
                        c(**bad)
                    except Exception as e:
                        if type(e).__name__ != "ValidationError":
                            ctx.fail("a fault is not refused by validation", type=n, field=fn, fault=what, error=repr(e))
                            return
                    else:
                        ctx.fail("a value breaking the schema is accepted", type=n, field=f"{fn}: {f.type}", fault=what, value=repr(v), code=code, sdl=w.sdl)
                        return
    finally:
        b.close()

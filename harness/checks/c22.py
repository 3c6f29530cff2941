"""C22: traits and bases reach every model of their types and kinds and no other."""
import pydantic
from graphql import GraphQLObjectType, is_abstract_type, type_from_ast

from .. import client, gen, kinds, serve, world
from . import c09
from .c06 import build

PROP = "C22"
RULE = ("Random worlds are generated with traits for random objects, interfaces and inputs and with bases for random kinds of models. Every object of parsed "
        "responses (any depth, any concrete type, through fragments), every built input and every operation, arguments and fragment class is examined: it must "
        "inherit the traits of its type and position before the bases of its kind, run their validators once, offer their methods, and have no traits of other "
        "types. Parsing and serialization must be as without traits. Non-trivial: an examined model; distinct by (kind, traits, position).")
N_QUICK, N_THOROUGH = 600, 6000
REQUIRE = {"objects": 3000, "with_traits": 1200, "abstract": 500, "inputs": 200, "inputs_with_traits": 50, "validators": 1200, "fragments": 100, "operations": 400, "arguments": 400,
           "object_models": 80, "wrappers": 100}

LETTERS = "ABCDE"


def trait_class(letter):
    import vt_traits
    return getattr(vt_traits, "Trait" + letter)


def case(ctx):
    import vt_traits
    r = ctx.rng
    w = world.make_world(f"{ctx.seed}", world.Opts(n_frags=(0, 5), n_ops=(1, 3)))
    plugins = [gen.plug(n) for n in ("enums", "inputs", "fragments", "operations")]
    conf, traits = {}, {}
    pool = list(w.objects) + list(w.interfaces)
    plain_inputs = [n for n in w.inputs if not w.input_meta[n].get("oneof")]
    # Interfaces share a trait only if it is their only one: a class cannot inherit the same traits in two orders
    perm = r.sample(LETTERS, len(LETTERS))         # the order of traits wherever several are given
    free, shared = list(LETTERS), r.choice(LETTERS) if r.random() < 0.3 else ""
    for n in r.sample(pool, r.randint(1, len(pool))) + (r.sample(plain_inputs, r.randint(0, len(plain_inputs)))):
        k = r.choice([1, 1, 2, 3])
        if n not in w.interfaces:
            traits[n] = "".join(sorted(r.sample(LETTERS, k), key=perm.index))
        elif shared or free:
            traits[n] = shared or "".join(sorted(r.sample(free, min(k, len(free))), key=perm.index))
            free = [x for x in free if x not in traits[n]]
    conf["additional_bases"] = {n: ["vt_traits.Trait" + x for x in t] for n, t in traits.items()}
    B = "vt_traits."
    own = {}            # kind -> base class name

    def maybe(kind, plugin, key, name, p=0.4):
        if r.random() < p:
            (conf if plugin is None else plugins[plugin])[key] = [B + name] if plugin in (None, 2) or r.random() < 0.5 else [B + name, "pydantic.BaseModel"]
            own[kind] = name
    maybe("object", None, "object_bases", "Common", 0.7)
    maybe("interface", None, "interface_bases", "InterfaceBase")
    maybe("query", 3, "query_bases", "QueryBase")
    maybe("mutation", 3, "mutation_bases", "MutationBase")
    maybe("subscription", 3, "subscription_bases", "SubscriptionBase")
    maybe("arguments", 3, "arguments_bases", "ArgumentsBase")
    maybe("input", 1, "inputtype_bases", "InputBase")
    maybe("fragment", 2, "fragment_bases", "FragmentBase", 0.25)
    if "fragment" not in own:
        maybe("fragment", 2, "object_bases", "UnionBase", 0.25)
    if r.random() < 0.3:
        conf["freeze"] = {"enabled": True}
    if r.random() < 0.3:
        conf["create_catchall"] = False
    with gen.Scratch() as sc:
        b = client.build(ctx, w, plugins, (), sc, **conf)
        if b is None:
            return
        b0 = client.build(ctx, w, None, (), sc, **{k: v for k, v in conf.items() if k in ("create_catchall", "freeze")})
    if b0 is None:
        b.close()
        return
    base = {k: getattr(vt_traits, v) for k, v in own.items()}
    fallback = base.get("object")

    def kind_base(kind):
        return base.get(kind, fallback)

    def has(c, kind, what, **info):
        """The class c inherits the base of its kind, and specific bases of no other kind."""
        k = kind_base(kind)
        if k is not None and not issubclass(c, k):
            ctx.fail("a model lacks the base of its kind", kind=kind, base=k.__name__, model=[x.__name__ for x in c.__mro__], what=what, **info)
            return False
        for other in ("query", "mutation", "subscription", "arguments", "input"):
            if other in base and other != kind and issubclass(c, base[other]):
                ctx.fail("a model has the base of another kind", kind=kind, other=other, model=[x.__name__ for x in c.__mro__], what=what, **info)
                return False
        return True
    try:
        for op, cls in b.ops.items():
            kind = b.source_ops[op].operation.value
            ctx.count("operations")
            ctx.count("arguments")
            if not has(cls, kind, op) or not has(cls.Arguments, "arguments", op):
                return
            for _, data in client.responses(ctx, b, op, 3):
                del vt_traits.TRACE[:]
                try:
                    obj = cls(**data)
                except Exception as e:
                    ctx.fail("traits or bases make a conforming response fail", error=str(e), operation=op, data=data, traits=traits, bases=own, code=b.code, sdl=w.sdl)
                    return
                ref = b0.ops[op](**data)
                if obj.model_dump(mode="json", by_alias=True) != ref.model_dump(mode="json", by_alias=True):
                    ctx.fail("traits or bases change what is parsed", operation=op, got=obj.model_dump(mode="json", by_alias=True), want=ref.model_dump(mode="json", by_alias=True))
                    return
                statics = []
                found = kinds.result_objects(b, op, obj, data, statics)[1:]
                ran = {}
                for x, c in vt_traits.TRACE:
                    ran[x, c] = ran.get((x, c), 0) + 1
                per_class = {}
                for o, _, _, _ in found:
                    per_class[type(o)] = per_class.get(type(o), 0) + 1
                for (o, _, tn, path), static in zip(found, statics):
                    c = type(o)
                    st = b.schema.get_type(static)
                    ctx.count("objects")
                    abstract = is_abstract_type(st)
                    ctx.count("abstract", int(abstract))
                    want = set(traits.get(tn, "")) | (set(traits.get(static, "")) if static in w.interfaces else set())
                    allowed = set(want)
                    for i in [i.name for i in b.schema.get_type(tn).interfaces]:
                        allowed |= set(traits.get(i, ""))       # through fragments on the interface
                    have = {x for x in LETTERS if issubclass(c, trait_class(x))}
                    ctx.count("with_traits", int(bool(want)))
                    ctx.observed(("result", "".join(sorted(want)), "".join(sorted(have)), abstract, "fragment" if o is not None and kinds.generated_bases(b.mod, c) else ""))
                    info = dict(operation=op, path=path, type=tn, position=static, traits=traits, model=[x.__name__ for x in c.__mro__], documents=w.doc_text, sdl=w.sdl)
                    if not want <= have:
                        ctx.fail("a model lacks the traits of its type", missing=sorted(want - have), **info)
                        return
                    if not have <= allowed:
                        ctx.fail("a model has traits of another type", extra=sorted(have - allowed), **info)
                        return
                    if not any(k is None or issubclass(c, k) for k in (kind_base("object"), kind_base("interface"), kind_base("fragment"))):
                        ctx.fail("a model lacks the base of its kind", **info)
                        return
                    for other in ("query", "mutation", "subscription", "arguments", "input"):
                        if other in base and issubclass(c, base[other]):
                            ctx.fail("a model has the base of another kind", other=other, **info)
                            return
                    mro = c.__mro__
                    if disordered(c, traits.get(tn, "")):
                        ctx.fail("a model does not inherit the traits of its type in their order", **info)
                        return
                    for x in sorted(have):
                        if getattr(o, "trait_" + x.lower())() != x:
                            ctx.fail("a trait's method does not work", trait=x, **info)
                            return
                        for k in () if set(own) & {"fragment", "interface"} else {v for v in base.values()}:
                            if x in traits.get(tn, "") and k in mro and mro.index(k) < mro.index(trait_class(x)):
                                ctx.fail("a base precedes a trait", trait=x, base=k.__name__, **info)
                                return
                        n = ran.get((x, c), 0)
                        ctx.count("validators")
                        if n < per_class[c]:
                            ctx.fail("a trait's validator did not run for every object", trait=x, ran=n, objects=per_class[c], **info)
                            return
                    if traits.get(tn) and hasattr(o, "common_marker") and not o.common_marker().startswith("trait "):
                        ctx.fail("a trait's method is shadowed by a base", **info)
                        return
        for n, fc in kinds.fragment_classes(b).items():
            tn = b.frags[n].type_condition.name.value
            ctx.count("fragments")
            lacks = [x for x in traits.get(tn, "") if not issubclass(fc, trait_class(x))]
            if lacks:
                ctx.fail("a fragment lacks the traits of its type", fragment=n, type=tn, missing=lacks, model=[x.__name__ for x in fc.__mro__])
                return
            if disordered(fc, traits.get(tn, "")):
                ctx.fail("a fragment does not inherit the traits of its type in their order", fragment=n, type=tn, traits=traits, model=[x.__name__ for x in fc.__mro__])
                return
            if not has(fc, "fragment", n):
                return
            if {x for x in LETTERS if issubclass(fc, trait_class(x))} - set(traits.get(tn, "")) - {x for i in b.schema.get_type(tn).interfaces for x in traits.get(i.name, "")}:
                ctx.fail("a fragment has traits of another type", fragment=n, type=tn, traits=traits, model=[x.__name__ for x in fc.__mro__])
                return
        classes = kinds.input_classes(b.mod, w, None)
        for n, c in classes.items():
            ctx.count("inputs")
            want = set(traits.get(n, ""))
            have = {x for x in LETTERS if issubclass(c, trait_class(x))}
            ctx.count("inputs_with_traits", int(bool(want)))
            ctx.observed(("input", "".join(sorted(want)), "input" in own))
            if want != have:
                ctx.fail("an input does not have exactly its type's traits", type=n, want=sorted(want), have=sorted(have), code=b.code)
                return
            if disordered(c, traits.get(n, "")):
                ctx.fail("an input does not inherit its traits in their order", type=n, traits=traits, model=[x.__name__ for x in c.__mro__])
                return
            k = base.get("input")
            if k is not None and (not issubclass(c, k) or any(c.__mro__.index(k) < c.__mro__.index(trait_class(x)) for x in have)):
                ctx.fail("an input lacks the base of its kind, or it precedes the traits", type=n, model=[x.__name__ for x in c.__mro__])
                return
        for op, cls in b.ops.items():
            node = b.source_ops[op]
            vs = serve.random_variables(b.schema, node, r, omit_p=0.1)
            if serve.coerce(b.schema, node, vs)[0]:
                continue
            for v in node.variable_definitions:
                n = v.variable.name.value
                if vs.get(n) is None:
                    continue
                del vt_traits.TRACE[:]
                try:
                    built = build(vs[n], type_from_ast(b.schema, v.type), classes, False, ctx)
                except pydantic.ValidationError:
                    continue            # instances inside unions of inputs: not every union takes them
                for o, _, tn, path in kinds.input_objects(b, classes, built):
                    for x in traits.get(tn, ""):
                        if (x, type(o)) not in vt_traits.TRACE or getattr(o, "trait_" + x.lower())() != x:
                            ctx.fail("a trait of an input does not act", trait=x, type=tn, path=path)
                            return
    finally:
        b.close()
        b0.close()
    if r.random() < 0.5:
        polymorphic(ctx)
    if r.random() < 0.4:
        objects(ctx, w, traits, conf["additional_bases"])


def disordered(cls, letters):
    places = [cls.__mro__.index(trait_class(x)) for x in letters]
    return places != sorted(places)


def polymorphic(ctx):
    """Traits and bases of one-of inputs and members of input unions."""
    import vt_traits
    r = ctx.rng
    g = c09.Gen(r)
    g.make()
    names = list(g.plain) + list(g.oneof)
    traits = {n: "".join(sorted(r.sample(LETTERS, r.randint(1, 2)))) for n in r.sample(names, r.randint(1, len(names)))}
    inputs = {"inputtype_bases": ["vt_traits.InputBase"]} if r.random() < 0.5 else {}
    mod, found = c09.input_models(ctx, g, {"additional_bases": {n: ["vt_traits.Trait" + x for x in t] for n, t in traits.items()}}, **inputs)
    if mod is None:
        return
    try:
        for n, cs in found.items():
            for c in cs:
                want = set(traits.get(n, ""))
                have = {x for x in LETTERS if issubclass(c, trait_class(x))}
                ctx.observed(("polymorphic", n in g.oneof, "".join(sorted(want))))
                if want != have or inputs and not issubclass(c, vt_traits.InputBase):
                    ctx.fail("a model of a polymorphic input does not have exactly the traits and bases of its input", type=n, want=sorted(want), have=sorted(have),
                             model=[x.__name__ for x in c.__mro__], sdl=g.sdl())
                    return
    finally:
        gen.unload(mod)


def objects(ctx, w, traits, bases):
    """Traits on the models of the objects plugin."""
    with gen.Scratch() as sc:
        sp, _ = gen.write_world(sc, w)
        conf = gen.turms_config([gen.plug("enums", skip_unreferenced=False), gen.plug("objects", types_bases=["vt_traits.ObjectBase"])], additional_bases=bases, always_resolve_interfaces=False)
        try:
            mod = gen.load(gen.generate(sp, None, conf))
        except Exception as e:
            ctx.fail("objects with traits cannot be generated", error=repr(e), traits=traits, sdl=w.sdl)
            return
    try:
        for n, t in w.schema.type_map.items():
            if n.startswith("__") or n not in list(w.objects) + list(w.interfaces):
                continue
            kind = "" if isinstance(t, GraphQLObjectType) else "Base"
            c = getattr(mod, n + kind, None) or getattr(mod, n + "_" + kind)
            want = set(traits.get(n, "")) | {x for i in t.interfaces for x in traits.get(i.name, "")}
            have = {x for x in LETTERS if issubclass(c, trait_class(x))}
            ctx.count("object_models")
            ctx.observed(("model", "".join(sorted(want))))
            if want != have:
                ctx.fail("an object model does not have exactly its type's and interfaces' traits", type=n, want=sorted(want), have=sorted(have))
                return
    finally:
        gen.unload(mod)

"""C06: variables reach the wire exactly as given, and invalid ones never do."""
import copy

from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, Undefined, type_from_ast
from pydantic import ValidationError

from .. import client, gen, serve, world
from .c02 import BAD

PROP = "C06"
RULE = ("Random input types and operations; random variable assignments accepted by graphql-core are passed to the generated argument model "
        "(as JSON, and with nested values built from the generated input classes, by wire name and, where the configuration allows it, by python "
        "name); the serialized variables must equal the given ones - same keys, explicit nulls kept, omitted ones absent. Then one fault is "
        "injected and the model must refuse. Non-trivial: at least one variable given; distinct by (operation, variables) or (type, fault, depth).")
N_QUICK, N_THOROUGH = 1200, 16000
REQUIRE = {"roundtrips": 1500, "nested_inputs": 500, "explicit_nulls": 300, "omitted": 300, "faults": 1000, "by_name": 200, "built_from_classes": 500}


def sites(value, t, path, out, has_default=False):
    """(path, fault kind, type) which must be refused."""
    nn = isinstance(t, GraphQLNonNull)
    if nn:
        t = t.of_type
        if not has_default:
            out.append((path, "null", t))
    if value is None:
        return
    if isinstance(t, GraphQLList):
        out.append((path, "list", t))
        for i, v in enumerate(value):
            sites(v, t.of_type, path + [i], out)
        return
    if isinstance(t, GraphQLInputObjectType):
        out.append((path, "object", t))
        for k, f in t.fields.items():
            d = f.default_value is not Undefined
            if isinstance(f.type, GraphQLNonNull) and not d:
                out.append((path + [k], "missing", f.type))
            if k in value:
                sites(value[k], f.type, path + [k], out, d)
        return
    out.append((path, "enum" if isinstance(t, GraphQLEnumType) else "kind", t))


def inject(vs, site, rng):
    path, kind, t = site
    vs = copy.deepcopy(vs)
    parent = vs
    for p in path[:-1]:
        parent = parent[p]
    last = path[-1]
    if kind == "null":
        parent[last] = None
    elif kind == "missing":
        del parent[last]
    elif kind == "list":
        parent[last] = rng.choice([{"a": 1}, 5, "text", True])
    elif kind == "object":
        parent[last] = rng.choice([5, "text", [], True])
    elif kind == "enum":
        parent[last] = rng.choice(["NOT_A_MEMBER_X", 3, {}, "", str(parent[last]) + "x"])
    else:
        parent[last] = copy.deepcopy(rng.choice(BAD[t.name]))
    return vs


def input_classes(mod, w, stylers):
    """{GraphQL input type: generated class}, found structurally: the class whose wire names are the type's fields."""
    out = {}
    for n in w.inputs:
        keys = {f.name for f in w.inputs[n]}
        cands = [c for c in vars(mod).values() if isinstance(c, type) and c.__module__ == mod.__name__ and hasattr(c, "model_fields")
                 and {f.alias or k for k, f in c.model_fields.items()} == keys and client_norm(c.__name__) .startswith(client_norm(n))]
        if len(cands) == 1:
            out[n] = cands[0]
    return out


def client_norm(s):
    return s.replace("_", "").lower()


def build(value, t, classes, by_name, ctx):
    """value with its input objects replaced by instances of the generated classes."""
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if value is None:
        return None
    if isinstance(t, GraphQLList):
        return [build(v, t.of_type, classes, by_name, ctx) for v in value]
    if isinstance(t, GraphQLInputObjectType):
        ctx.count("nested_inputs")
        kw = {k: build(v, t.fields[k].type, classes, by_name, ctx) for k, v in value.items()}
        cls = classes.get(t.name)
        if cls is None:
            return kw
        if by_name:
            kw = {client.attr_for(cls, k): v for k, v in kw.items()}
        return cls(**kw)
    return value


def nulls(v):
    if isinstance(v, dict):
        return sum(nulls(x) for x in v.values())
    if isinstance(v, list):
        return sum(nulls(x) for x in v)
    return v is None


def case(ctx):
    r = ctx.rng
    opts = world.Opts(oneof=False, fragments=False, interfaces=False, unions=False, n_objects=(1, 2), n_ops=(2, 5), n_root=(3, 6), max_depth=1)
    w = world.make_world(ctx.seed, opts)
    args_by_name = r.random() < 0.4
    kw = {}
    inputs_by_name = r.random() < 0.3
    if inputs_by_name:
        kw["options"] = {"enabled": True, "allow_population_by_field_name": True}
    plugins = [gen.plug("enums"), gen.plug("inputs"), gen.plug("fragments"),
               gen.plug("operations", **({"arguments_allow_population_by_field_name": True} if args_by_name else {}))]
    b = client.build(ctx, w, plugins=plugins, stylers=client.random_stylers(r, 0.7), **kw)
    if b is None:
        return
    try:
        classes = input_classes(b.mod, w, None)
        for op, cls in b.ops.items():
            node = b.source_ops[op]
            names = {v.variable.name.value: v for v in node.variable_definitions}
            wires = {f.alias or n for n, f in cls.Arguments.model_fields.items()}
            if not ctx.check(wires == set(names), "the argument model does not have exactly the operation's variables",
                             operation=op, got=sorted(wires), expected=sorted(names)):
                return
            for _ in range(4):
                vs = serve.random_variables(b.schema, node, r, omit_p=r.choice([0.1, 0.4, 0.8]), null_p=r.choice([0.05, 0.3]))
                errs, _c = serve.coerce(b.schema, node, vs)
                if errs:
                    ctx.count("skipped")
                    continue
                ctx.count("roundtrips")
                ctx.count("explicit_nulls", nulls(vs))
                ctx.count("omitted", len(names) - len(vs))
                ctx.observed((op, repr(vs)) if vs else None)
                ctx.sample({"operation": op, "variables": str(vs)[:300]})

                def verify(how, **given):
                    try:
                        out = cls.Arguments(**given).model_dump(by_alias=True, exclude_unset=True, mode="json")
                    except Exception as e:
                        ctx.fail(f"valid variables were refused ({how})", operation=op, variables=vs, error=str(e)[:2500], document=b.doc(op), sdl=w.sdl)
                        return False
                    if not client.same_json(out, vs):
                        ctx.fail(f"the serialized variables differ from the given ones ({how})", operation=op, diff=client.json_diff(out, vs)[:8],
                                 given=vs, code=b.code)
                        return False
                    return True
                if not verify("json", **vs):
                    return
                types = {n: type_from_ast(b.schema, v.type) for n, v in names.items()}
                try:
                    built = {n: build(v, types[n], classes, inputs_by_name and r.random() < 0.7, ctx) for n, v in vs.items()}
                except Exception as e:
                    ctx.fail("a valid input object could not be built from its generated class", variables=vs, error=str(e)[:2500], code=b.code)
                    return
                ctx.count("built_from_classes")
                if not verify("generated input classes", **built):
                    return
                if args_by_name:
                    ctx.count("by_name")
                    if not verify("python names", **{client.attr_for(cls.Arguments, n): v for n, v in built.items()}):
                        return
                ss = []
                for n, v in names.items():
                    d = v.default_value is not None
                    if isinstance(types[n], GraphQLNonNull) and not d:
                        ss.append(([n], "missing", types[n]))
                    if n in vs:
                        sites(vs[n], types[n], [n], ss, d)
                ss = [s for s in ss if getattr(s[2], "name", "") != "JSON" and str(s[2]).strip("!") != "JSON"]
                for _k in range(3):
                    if not ss:
                        break
                    kind = r.choice(sorted({s[1] for s in ss}))
                    s = r.choice([x for x in ss if x[1] == kind])
                    bad = inject(vs, s, r)
                    ctx.count("faults")
                    ctx.observed((str(s[2]), s[1], len(s[0]), tuple(map(str, s[0])), op))
                    try:
                        got = cls.Arguments(**bad)
                    except (ValidationError, TypeError):
                        continue
                    ctx.fail(f"variables with a {s[1]} fault were accepted", path=s[0], type=str(s[2]), operation=op, variables=bad, parsed=repr(got), sdl=w.sdl)
                    return
    finally:
        b.close()

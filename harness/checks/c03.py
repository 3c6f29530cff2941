"""C03: values of interface and union selections become the class of their concrete type."""
import copy

from graphql import FieldNode, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLUnionType, InlineFragmentNode, is_leaf_type
from pydantic import BaseModel, ValidationError

from .. import client, world

PROP = "C03"
RULE = ("Operations with interface/union selections; every possible concrete type is forced in turn and random mixes are served; at every "
        "abstract position the chosen class must carry exactly the selected fields of that type, reject any other typename, and differ "
        "between types; unknown future types must fall back to the catch-all (or be rejected when it is off). Non-trivial: an abstract "
        "position; distinct by (operation, path without indices, concrete type).")
N_QUICK, N_THOROUGH = 1000, 12000
REQUIRE = {"positions": 1500, "interface_positions": 400, "union_positions": 200, "future_types": 100, "future_rejected": 50}


def walk(b, value, data, t, node_sets, path, out):
    """Collect (path, abstract type, node sets, runtime, value, data) for all abstract positions."""
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if data is None or value is None or is_leaf_type(t):
        return
    if isinstance(t, GraphQLList):
        for i, (v, d) in enumerate(zip(value, data)):
            walk(b, v, d, t.of_type, node_sets, path + [i], out)
        return
    runtime = t if isinstance(t, GraphQLObjectType) else b.schema.get_type(data["__typename"])
    if not isinstance(t, GraphQLObjectType):
        out.append((path, t, node_sets, runtime, value, data))
    for key, nodes in client.collect(b.schema, b.frags, runtime, node_sets).items():
        ft = client.field_type(b.schema, runtime, nodes[0])
        if ft is None or key not in data:
            continue
        a = client.attr_for(type(value), key)
        if a is None:
            continue
        walk(b, getattr(value, a), data[key], ft, [n.selection_set for n in nodes if n.selection_set], path + [key], out)


def keys_of(cls):
    return {f.alias or n for n, f in cls.model_fields.items()}


def common_keys(node_sets, t):
    """Response keys selected on every value of the interface t, implementations unknown to the schema included."""
    out = set()
    for ss in node_sets:
        for s in ss.selections:
            if isinstance(s, FieldNode) and s.name.value != "__typename":
                out.add(s.alias.value if s.alias else s.name.value)
            elif isinstance(s, InlineFragmentNode) and (s.type_condition is None or s.type_condition.name.value in {t.name, *(i.name for i in t.interfaces)}):
                out |= common_keys([s.selection_set], t)
    return out


def static(path):
    return tuple(p for p in path if not isinstance(p, int))


def case(ctx):
    opts = world.Opts(n_objects=(3, 5), n_ops=(1, 3))
    w = world.make_world(ctx.seed, opts)
    if not (w.unions or w.interfaces):
        return
    catchall = ctx.rng.random() < 0.6
    hide = ctx.rng.random() < 0.2
    b = client.build(ctx, w, stylers=client.random_stylers(ctx.rng, 0.3), create_catchall=catchall, **({"exclude_typenames": True} if hide else {}))
    if b is None:
        return
    try:
        for op, cls in b.ops.items():
            node = b.source_ops[op]
            root = b.schema.get_root_type(node.operation)
            classes = {}
            runs = []
            for force in [None] + ctx.rng.sample(sorted(w.objects), min(4, len(w.objects))):
                runs += client.responses(ctx, b, op, 1, null_p=0.1, min_list=1, force_type=force)
            for vs, data in runs:
                try:
                    obj = cls(**data)
                except Exception as e:
                    ctx.fail("a valid response was rejected", operation=b.doc(op), data=data, error=str(e)[:2000], sdl=w.sdl)
                    return
                found = []
                walk(b, obj, data, root, [node.selection_set], [], found)
                for path, t, nsets, runtime, value, d in found:
                    ctx.count("positions")
                    ctx.count("union_positions" if isinstance(t, GraphQLUnionType) else "interface_positions")
                    ctx.observed((op, static(path), runtime.name))
                    vc = type(value)
                    want = set(client.collect(b.schema, b.frags, runtime, nsets)) | {"__typename"}
                    want.discard("gqlType")          # known finding aliased-typename of C01
                    if keys_of(vc) != want:
                        ctx.fail("the chosen class does not carry exactly the fields selected for the concrete type",
                                 path=path, runtime=runtime.name, chosen=vc.__name__, fields=sorted(keys_of(vc)), expected=sorted(want), operation=b.doc(op))
                        return
                    tn = client.attr_for(vc, "__typename")
                    if getattr(value, tn) != runtime.name:
                        ctx.fail("the parsed value reports a different typename", path=path, got=getattr(value, tn), runtime=runtime.name)
                        return
                    other = ctx.rng.choice([x for x in w.objects if x != runtime.name] + ["NoSuchType"])
                    try:
                        vc(**{**d, "__typename": other})
                    except ValidationError:
                        pass
                    else:
                        ctx.fail("the class chosen for one concrete type also accepts another typename", chosen=vc.__name__,
                                 runtime=runtime.name, accepted=other, operation=b.doc(op))
                        return
                    seen = classes.setdefault(static(path) + tuple(id(n) for n in nsets), {})
                    for other_rt, oc in seen.items():
                        if other_rt != runtime.name and oc is vc:
                            ctx.fail("two concrete types share one class", types=[other_rt, runtime.name], chosen=vc.__name__)
                            return
                    seen[runtime.name] = vc
                    if isinstance(t, GraphQLInterfaceType) and len(seen) > 1:
                        common = set.intersection(*[set(c.__mro__) for c in seen.values()])
                        need = common_keys(nsets, t)
                        ctx.count("common_bases")
                        if not any(issubclass(c, BaseModel) and need <= keys_of(c) for c in common if c is not BaseModel and c is not object and isinstance(c, type) and issubclass(c, BaseModel)):
                            ctx.fail("implementations of an interface selection have no common base with the common fields",
                                     path=path, classes=[c.__name__ for c in seen.values()], need=sorted(need))
                            return
                # a type added to the schema later
                ifaces = [f for f in found if isinstance(f[1], GraphQLInterfaceType)]
                if ifaces:
                    path, t, nsets, runtime, value, d = ctx.rng.choice(ifaces)
                    bad = copy.deepcopy(data)
                    tgt = bad
                    for p in path:
                        tgt = tgt[p]
                    keep = common_keys(nsets, t)
                    for k in list(tgt):
                        if k not in keep:
                            del tgt[k]
                    tgt["__typename"] = "FutureTypeX"
                    try:
                        got = cls(**bad)
                        err = None
                    except ValidationError as e:
                        got, err = None, e
                    if catchall:
                        ctx.count("future_types")
                        if err is not None:
                            ctx.fail("an unknown implementation is rejected although the catch-all is on", path=path, data=bad, error=str(err)[:2000], operation=b.doc(op))
                            return
                        v = got
                        for p in path:
                            v = v[p] if isinstance(p, int) else getattr(v, client.attr_for(type(v), p) or "?")
                        out = v.model_dump(by_alias=True, mode="json", exclude_unset=True)
                        tgt = client.without_aliased_typename(tgt)
                        if not client.same_json(out, client.without_typename(tgt) if hide else tgt):
                            ctx.fail("the catch-all does not carry the common fields of an unknown implementation", path=path,
                                     exclude_typenames=hide, diff=client.json_diff(out, tgt)[:6], operation=b.doc(op))
                            return
                        ctx.observed((op, static(path), "future"))
                    else:
                        ctx.count("future_rejected")
                        ctx.observed((op, static(path), "future-rejected"))
                        if err is None:
                            ctx.fail("an unknown implementation is accepted although the catch-all is off", path=path, data=bad, operation=b.doc(op))
                            return
                if found:
                    ctx.sample({"operation": b.doc(op)[:300], "positions": [[str(static(f[0])), f[3].name, type(f[4]).__name__] for f in found[:4]]})
    finally:
        b.close()

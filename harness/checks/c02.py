"""C02: responses which break the schema's promises are rejected."""
import copy

from graphql import GraphQLEnumType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, is_abstract_type, is_leaf_type
from pydantic import ValidationError

from .. import client, world

PROP = "C02"
RULE = ("Valid responses (as in C01) with exactly one random conformance fault injected (null or missing where non-null is promised, "
        "wrong JSON kind, unknown enum value, foreign typename of a concrete object, non-list for list); the generated class must raise a "
        "validation error. Sites below an interface selection are only used when the catch-all option is off. Non-trivial: fault below the "
        "operation root; distinct by (site kind, GraphQL type, depth, list nesting, position).")
N_QUICK, N_THOROUGH = 900, 12000
REQUIRE = {"faults": 800, "null": 60, "missing": 60, "kind": 100, "enum": 30, "typename": 60, "list": 60}

BAD = {"Int": ["abc", 1.5, {}, []], "Float": ["abc", {}, []], "Boolean": ["maybe", 2, {}], "String": [5, {}, [], True],
       "ID": [5, {}, []], "UUID": ["xyz", {}], "DateTime": ["not a date", {}], "Date": ["not a date", {}],
       "Slug": [{}, 5], "BigInt": ["abc", {}, 1.5]}


def sites(b, data, t, node_sets, path, iface, out, depth=0):
    nn = isinstance(t, GraphQLNonNull)
    if nn:
        t = t.of_type
        if path:
            out.append((path, "null", t, iface))
    if data is None:
        return
    if isinstance(t, GraphQLList):
        out.append((path, "list", t, iface))
        for i, d in enumerate(data):
            sites(b, d, t.of_type, node_sets, path + [i], iface, out, depth)
        return
    if is_leaf_type(t):
        out.append((path, "enum" if isinstance(t, GraphQLEnumType) else "kind", t, iface))
        return
    if path:
        out.append((path, "object", t, iface))
    runtime = t if isinstance(t, GraphQLObjectType) else b.schema.get_type(data["__typename"])
    inner = iface or isinstance(t, GraphQLInterfaceType)
    if path and isinstance(t, GraphQLObjectType) and "__typename" in data:
        out.append((path + ["__typename"], "typename", t, iface))
    for key, nodes in client.collect(b.schema, b.frags, runtime, node_sets).items():
        ft = client.field_type(b.schema, runtime, nodes[0])
        if ft is None or key not in data:
            continue
        if isinstance(ft, GraphQLNonNull):
            out.append((path + [key], "missing", ft, inner))
        sites(b, data[key], ft, [n.selection_set for n in nodes if n.selection_set], path + [key], inner, out, depth + 1)


def inject(data, site, rng, schema):
    path, kind, t, _ = site
    data = copy.deepcopy(data)
    parent = data
    for p in path[:-1]:
        parent = parent[p]
    last = path[-1]
    if kind == "null":
        parent[last] = None
    elif kind == "missing":
        del parent[last]
    elif kind == "list":
        parent[last] = rng.choice([{"a": 1}, 5, "text", True])
    elif kind == "object":
        parent[last] = rng.choice([5, "text", [], True])
    elif kind == "enum":
        parent[last] = rng.choice(["NOT_A_MEMBER_X", 3, {}, "", str(parent[last]) + "x", str(parent[last]).swapcase() + "_"])
    elif kind == "typename":
        others = [n for n, x in schema.type_map.items() if isinstance(x, GraphQLObjectType) and n != t.name and not n.startswith("__")]
        parent[last] = rng.choice(others + ["Nonexistent"])
    else:
        parent[last] = copy.deepcopy(rng.choice(BAD[t.name]))
    return data, parent


def case(ctx):
    w = world.make_world(ctx.seed)
    catchall = ctx.rng.random() < 0.5
    b = client.build(ctx, w, stylers=client.random_stylers(ctx.rng, 0.3), create_catchall=catchall)
    if b is None:
        return
    try:
        for op, cls in b.ops.items():
            node = b.source_ops[op]
            root = b.schema.get_root_type(node.operation)
            for vs, data in client.responses(ctx, b, op, 2, null_p=0.1, min_list=1):
                try:
                    cls(**data)
                except Exception as e:
                    ctx.fail("the unfaulted response was rejected", operation=b.doc(op), data=data, error=str(e)[:2000])
                    return
                all_sites = []
                sites(b, data, root, [node.selection_set], [], False, all_sites)
                ok = [s for s in all_sites if not (catchall and s[3]) and not (is_leaf_type(s[2]) and getattr(s[2], "name", "") == "JSON" and s[1] in ("kind", "null"))]
                if not ok:
                    continue
                for _ in range(4):
                    kinds = sorted({s[1] for s in ok})
                    k = ctx.rng.choice(kinds)
                    s = ctx.rng.choice([x for x in ok if x[1] == k])
                    bad, _p = inject(data, s, ctx.rng, b.schema)
                    ctx.count("faults")
                    ctx.count(s[1])
                    key = None
                    if len(s[0]) > 1:
                        key = (s[1], str(s[2]), len(s[0]), sum(isinstance(p, int) for p in s[0]), s[0][-1], op)
                    ctx.observed(key)
                    try:
                        obj = cls(**bad)
                    except ValidationError:
                        continue
                    except TypeError:
                        continue
                    ctx.fail(f"a response with a {s[1]} fault was accepted", path=s[0], type=str(s[2]), operation=b.doc(op),
                             data=bad, parsed=repr(obj), catchall=catchall, sdl=w.sdl)
                    return
                ctx.sample({"path": [str(p) for p in s[0]], "fault": s[1], "type": str(s[2])})
    finally:
        b.close()

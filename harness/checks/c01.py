"""C01: every response a conforming server can return is accepted and kept intact."""
from ..pinned import FINDINGS_C01 as PROBES, REPAIRED_C01 as REGRESSIONS  # noqa: F401
from .. import client, world

PROP = "C01"
RULE = ("Random schema + documents (seeded); graphql-core executes each generated operation's own document with random "
        "resolvers; the response is parsed by the generated class, walked leaf by leaf against the schema and dumped again. "
        "Non-trivial: a response with at least one composite value; distinct by (operation document, response).")
N_QUICK, N_THOROUGH = 1200, 16000
REQUIRE = {"responses": 300, "leaves": 1000, "abstract_worlds": 20, "hidden_typenames": 300}


def case(ctx):
    w = world.make_world(ctx.seed)
    hide = ctx.rng.random() < 0.2
    b = client.build(ctx, w, stylers=client.random_stylers(ctx.rng), **({"exclude_typenames": True} if hide else {}))
    if b is None:
        return
    try:
        stats = {}
        if w.unions or w.interfaces:
            ctx.count("abstract_worlds")
        for op, cls in b.ops.items():
            node = b.source_ops[op]
            root = b.schema.get_root_type(node.operation)
            for i, (vs, data) in enumerate(client.responses(ctx, b, op, 4, null_p=ctx.rng.choice([0.0, 0.2, 0.6]))):
                try:
                    obj = cls(**data)
                except Exception as e:
                    ctx.fail("a valid response was rejected", operation=b.doc(op), data=data, error=str(e)[:3000], sdl=w.sdl)
                    return
                ctx.count("responses")
                ctx.observed((op, repr(data)) if any(isinstance(v, (dict, list)) for v in data.values()) else None)
                data = client.without_aliased_typename(data)      # known finding aliased-typename
                out = obj.model_dump(by_alias=True, mode="json", exclude_unset=True)
                if hide:
                    ctx.count("hidden_typenames")
                if not client.same_json(out, client.without_typename(data) if hide else data):
                    ctx.fail("the parsed response does not carry the response's data", operation=b.doc(op),
                             diff=client.json_diff(out, data)[:8], data=data, exclude_typenames=hide)
                    return
                problems = []
                client.typed_walk(b, obj, data, root, [node.selection_set], op, problems, stats)
                if problems:
                    ctx.fail("a parsed value is not the typed counterpart of the wire value", operation=b.doc(op),
                             problems=problems[:8], data=data)
                    return
                ctx.sample({"operation": b.doc(op)[:400], "data": str(data)[:300]})
        for k, v in stats.items():
            ctx.count(k, v)
        for f in w.features:
            ctx.count("worlds_with_" + f)
    finally:
        b.close()

"""C04: the document a generated class sends is the author's document."""
from graphql import (FieldNode, FragmentDefinitionNode, FragmentSpreadNode, GraphQLObjectType, InlineFragmentNode, OperationDefinitionNode,
                     get_named_type, is_abstract_type, parse, print_ast, validate, specified_rules)
from graphql.validation import NoUnusedFragmentsRule

from .. import client, gen, world

PROP = "C04"
RULE = ("For every generated operation (and fragment) class the carried document is parsed, validated against the schema with all "
        "specification rules and compared definition by definition with the authored one modulo added __typename requests; executing both "
        "must resolve the same fields with the same arguments. Non-trivial: operation with variables, fragments or nested selections; "
        "distinct by operation text.")
N_QUICK, N_THOROUGH = 1000, 14000
REQUIRE = {"operations": 800, "with_fragments": 150, "with_variables": 200, "fragment_documents": 50}


def norm_value(n):
    return print_ast(n)


def norm(ss):
    out = []
    for s in ss.selections:
        dirs = tuple(print_ast(d) for d in s.directives)
        if isinstance(s, FieldNode):
            if s.name.value == "__typename" and not s.alias:
                continue
            out.append(("field", s.alias.value if s.alias else None, s.name.value,
                        tuple((a.name.value, norm_value(a.value)) for a in s.arguments), dirs,
                        norm(s.selection_set) if s.selection_set else None))
        elif isinstance(s, InlineFragmentNode):
            out.append(("inline", s.type_condition.name.value if s.type_condition else None, dirs, norm(s.selection_set)))
        else:
            out.append(("spread", s.name.value, dirs))
    return tuple(out)


def norm_def(d):
    if isinstance(d, OperationDefinitionNode):
        return ("op", d.operation.value, d.name.value, tuple(print_ast(v) for v in d.variable_definitions),
                tuple(print_ast(x) for x in d.directives), norm(d.selection_set))
    return ("fragment", d.name.value, d.type_condition.name.value, tuple(print_ast(x) for x in d.directives), norm(d.selection_set))


def spreads(node, frags, out):
    for s in node.selection_set.selections if node.selection_set else []:
        if isinstance(s, FragmentSpreadNode):
            if s.name.value not in out:
                out.add(s.name.value)
                spreads(frags[s.name.value], frags, out)
        else:
            spreads(s, frags, out)
    return out


def typenames_requested(schema, frags, data, t, nsets, path, problems):
    from graphql import GraphQLList, GraphQLNonNull, is_leaf_type
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if data is None or is_leaf_type(t):
        return
    if isinstance(t, GraphQLList):
        for d in data:
            typenames_requested(schema, frags, d, t.of_type, nsets, path, problems)
        return
    if is_abstract_type(t) and "__typename" not in data:
        problems.append(path)
        return
    rt = t if isinstance(t, GraphQLObjectType) else schema.get_type(data["__typename"])
    for k, nodes in client.collect(schema, frags, rt, nsets).items():
        ft = client.field_type(schema, rt, nodes[0])
        if ft is not None and k in data:
            typenames_requested(schema, frags, data[k], ft, [n.selection_set for n in nodes if n.selection_set], path + [k], problems)


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k != "__typename"}
    return [strip(v) for v in x] if isinstance(x, list) else x


def case(ctx):
    w = world.make_world(ctx.seed)
    b = client.build(ctx, w, stylers=client.random_stylers(ctx.rng, 0.6))
    if b is None:
        return
    try:
        from .. import serve
        import random
        for op, src in b.source_ops.items():
            ctx.count("operations")
            text = b.doc(op)
            try:
                doc = parse(text)
            except Exception as e:
                ctx.fail("the carried document is no GraphQL document", operation=op, document=text, error=str(e))
                return
            ops = [d for d in doc.definitions if isinstance(d, OperationDefinitionNode)]
            fr = {}
            for d in doc.definitions:
                if isinstance(d, FragmentDefinitionNode):
                    if d.name.value in fr:
                        ctx.fail("a fragment is defined twice in the carried document", fragment=d.name.value, document=text)
                        return
                    fr[d.name.value] = d
            if len(ops) != 1:
                ctx.fail("the carried document does not define exactly one operation", document=text)
                return
            want_frs = spreads(src, b.frags, set())
            nontrivial = bool(src.variable_definitions or want_frs or any(s.selection_set for s in src.selection_set.selections))
            ctx.observed(print_ast(src) if nontrivial else None)
            ctx.count("with_fragments", bool(want_frs))
            ctx.count("with_variables", bool(src.variable_definitions))
            if norm_def(ops[0]) != norm_def(src):
                ctx.fail("the operation differs from the authored one", authored=print_ast(src), carried=print_ast(ops[0]))
                return
            if set(fr) != want_frs:
                ctx.fail("the carried fragments are not exactly the ones the operation needs", needed=sorted(want_frs), carried=sorted(fr), document=text)
                return
            for n in fr:
                if norm_def(fr[n]) != norm_def(b.frags[n]):
                    ctx.fail("a carried fragment differs from the authored one", authored=print_ast(b.frags[n]), carried=print_ast(fr[n]))
                    return
            errs = validate(b.schema, doc)
            # graphql-core can overlook field conflicts depending on the order of definitions; the
            # authored definitions are judged in the same order
            if errs and validate(b.schema, parse("\n".join(print_ast(b.frags[n]) for n in fr) + "\n" + print_ast(src))):
                ctx.count("skipped_conflicting_authored")
                continue
            if errs:
                ctx.fail("the carried document is not valid", document=text, errors=[str(e) for e in errs][:4])
                return
            # what a server sees
            vs = serve.random_variables(b.schema, src, ctx.rng)
            if serve.coerce(b.schema, src, vs)[0]:
                continue
            s1, s2 = (serve.Server(b.schema, random.Random(ctx.seed + op), null_p=0.0, max_list=1, min_list=1) for _ in range(2))
            # type choice must not depend on the number of fields resolved
            for s in (s1, s2):
                s.resolve_type = lambda value, info, abstract, s=s: sorted(x.name for x in b.schema.get_possible_types(abstract))[
                    sum(map(ord, "/".join(str(p) for p in info.path.as_list()))) % len(b.schema.get_possible_types(abstract))]
            r1 = s1.run(text, op, vs)
            r2 = s2.run(w.doc_text, op, vs)
            if r1.errors or r2.errors:
                ctx.count("skipped_execution")
                continue
            ctx.count("executions")
            ctx.evals += 1
            if sorted(map(repr, s1.calls)) != sorted(map(repr, s2.calls)):
                ctx.fail("a server sees other field requests than authored", document=text, authored=w.doc_text)
                return
            problems = []
            typenames_requested(b.schema, fr, r1.data, b.schema.get_root_type(src.operation), [ops[0].selection_set], [], problems)
            if problems:
                ctx.fail("an abstract selection does not ask for the typename", paths=problems[:5], document=text)
                return
        carried = set()
        for n, v in list(vars(b.mod).items()):
            meta = getattr(v, "__dict__", {}).get("Meta") if isinstance(v, type) else None
            if meta is None or not hasattr(meta, "document") or not hasattr(meta, "name"):
                continue
            ctx.count("fragment_documents")
            carried.add(meta.name)
            doc = parse(meta.document)
            fr = {d.name.value: d for d in doc.definitions}
            if meta.name not in fr:
                ctx.fail("a fragment class does not carry its own fragment", cls=n, document=meta.document)
                return
            want = spreads(b.frags[meta.name], b.frags, set()) | {meta.name}
            if set(fr) != want or len(doc.definitions) != len(fr):
                ctx.fail("a fragment class does not carry exactly the fragments it needs", cls=n, needed=sorted(want), carried=sorted(fr))
                return
            for k in fr:
                if norm_def(fr[k]) != norm_def(b.frags[k]):
                    ctx.fail("a fragment carried by a class differs from the authored one", authored=print_ast(b.frags[k]), carried=print_ast(fr[k]))
                    return
            errs = validate(b.schema, doc, [r for r in specified_rules if r is not NoUnusedFragmentsRule])
            if errs:
                ctx.fail("a carried fragment document is not valid", document=meta.document, errors=[str(e) for e in errs][:4])
                return
            ctx.observed(("fragment", meta.document))
        lost = [n for n, f in b.frags.items() if isinstance(b.schema.get_type(f.type_condition.name.value), GraphQLObjectType) and n not in carried]
        if lost:
            ctx.fail("fragment classes carry no document", fragments=lost)
            return
        ctx.sample({"document": b.doc(next(iter(b.source_ops)))[:400]})
    finally:
        b.close()

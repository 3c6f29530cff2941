"""Which kind of model, for which GraphQL type, an object of a generated client is."""
from __future__ import annotations

from graphql import FragmentSpreadNode, GraphQLList, GraphQLNonNull, GraphQLObjectType, is_abstract_type, is_leaf_type

from . import client
from .checks import c06


def has_spread(sets):
    for ss in sets:
        for s in ss.selections:
            if isinstance(s, FragmentSpreadNode):
                return True
            inner = getattr(s, "selection_set", None)
            if inner is not None and type(s).__name__ == "InlineFragmentNode" and has_spread([inner]):
                return True
    return False


def result_objects(b, op, obj, data, statics=None):
    """[(object, kind or None, type name or None, path)] of everything a parsed response holds. The kind is None
    where an object is built from fragments and own fields alike. statics collects the type of each position but the root."""
    node = b.source_ops[op]
    root = b.schema.get_root_type(node.operation)
    out = [(obj, node.operation.value, None, "$")]

    def value(v, d, t, sets, path):
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if d is None or v is None or is_leaf_type(t):
            return
        if isinstance(t, GraphQLList):
            for i, (x, y) in enumerate(zip(v, d)):
                value(x, y, t.of_type, sets, f"{path}[{i}]")
            return
        runtime = t if isinstance(t, GraphQLObjectType) else b.schema.get_type(d["__typename"])
        kind = "object" if not is_abstract_type(t) and not has_spread(sets) else None
        out.append((v, kind, runtime.name, path))
        if statics is not None:
            statics.append(t.name)
        fields(v, d, runtime, sets, path)

    def fields(v, d, runtime, sets, path):
        for key, nodes in client.collect(b.schema, b.frags, runtime, sets).items():
            ft = client.field_type(b.schema, runtime, nodes[0])
            if ft is None or key not in d:
                continue
            a = client.attr_for(type(v), key)
            if a is not None:
                value(getattr(v, a), d[key], ft, [n.selection_set for n in nodes if n.selection_set], f"{path}.{key}")
    fields(obj, data, root, [node.selection_set], "$")
    return out


def input_objects(b, classes_by_type, value, path="$"):
    """[(object, "input", type name, path)] of a built input value."""
    by_cls = {c: n for n, c in classes_by_type.items()}
    out = []

    def visit(v, path):
        if type(v) in by_cls:
            out.append((v, "input", by_cls[type(v)], path))
        if hasattr(type(v), "model_fields"):
            for f in type(v).model_fields:
                visit(getattr(v, f), f"{path}.{f}")
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                visit(x, f"{path}[{i}]")
    visit(value, path)
    return out


def fragment_classes(b):
    """{fragment name: class} for fragments on object types."""
    out = {}
    for n, f in b.frags.items():
        if isinstance(b.schema.get_type(f.type_condition.name.value), GraphQLObjectType):
            cands = [c for c in vars(b.mod).values() if isinstance(c, type) and c.__module__ == b.mod.__name__ and hasattr(c, "Meta")
                     and getattr(vars(c).get("Meta"), "name", None) == n]
            if len(cands) == 1:
                out[n] = cands[0]
    return out


def generated_bases(mod, cls):
    return [c for c in cls.__mro__[1:] if c.__module__ == mod.__name__]


def selected(conf, kind, typename):
    """Whether a freeze or options configuration asks for a model of this kind and type."""
    if not conf.get("enabled"):
        return False
    if kind not in conf.get("types", ["input", "fragment", "object"]):
        return False
    if conf.get("exclude") and typename in conf["exclude"]:
        return False
    if conf.get("include") and typename not in conf["include"]:
        return False
    return True


input_classes = c06.input_classes

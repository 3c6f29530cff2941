"""Reference server: graphql-core executes the client's documents with random,
type-correct resolvers, so every response used by the monitors is one a
spec-conforming server can really return."""
from __future__ import annotations

from graphql import (
    GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType,
    get_named_type, is_abstract_type, parse, type_from_ast, Undefined,
)
from graphql.execution import execute
from graphql.execution.values import get_variable_values

STRINGS = ["", "plain", "with \"quote\"", "line\nbreak", "\u00fcnic\u00f6de \u2713", "null", "0", "true", "a" * 40, "  padded "]


def leaf_value(t, rng):
    n = t.name
    if isinstance(t, GraphQLEnumType):
        return rng.choice(list(t.values))
    if n == "String":
        return rng.choice(STRINGS)
    if n == "ID":
        return rng.choice(["1", "abc", "550e8400"])
    if n == "Int":
        return rng.choice([0, 1, -1, 2147483647, -2147483648, rng.randint(-1000, 1000)])
    if n == "Float":
        return rng.choice([0.0, 1.5, -2.25, 1e10, 3.0, rng.random()])
    if n == "Boolean":
        return rng.random() < 0.5
    if n == "UUID":
        h = "%032x" % rng.getrandbits(128)
        return f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}"
    if n == "DateTime":
        return "20%02d-%02d-%02dT%02d:%02d:%02dZ" % (rng.randint(0, 40), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    if n == "Date":
        return "20%02d-%02d-%02d" % (rng.randint(0, 40), rng.randint(1, 12), rng.randint(1, 28))
    if n == "JSON":
        return rng.choice([{"a": [1, {"b": None}]}, [1, 2], "s", 5, True, {"__typename": "X"}])
    if n == "Slug":
        return rng.choice(["a-slug", "other"])
    if n == "BigInt":
        return rng.choice([0, 2 ** 40, -(2 ** 50), 7])
    raise KeyError(n)


class Server:
    def __init__(self, schema, rng, null_p=0.2, max_list=3, min_list=0, force_type=None):
        self.schema, self.rng = schema, rng
        self.null_p, self.max_list, self.min_list = null_p, max_list, min_list
        self.force_type = force_type
        self.calls = []                      # (parent type, field, coerced args) seen by resolvers

    def value(self, t):
        if isinstance(t, GraphQLNonNull):
            return self._nn(t.of_type)
        if self.rng.random() < self.null_p:
            return None
        return self._nn(t)

    def _nn(self, t):
        if isinstance(t, GraphQLList):
            return [self.value(t.of_type) for _ in range(self.rng.randint(self.min_list, self.max_list))]
        if hasattr(t, "parse_literal") or isinstance(t, GraphQLEnumType):
            return leaf_value(t, self.rng)
        return {"_obj": True}

    def resolve(self, source, info, **args):
        self.calls.append((info.parent_type.name, info.field_name, args))
        return self.value(info.return_type)

    def resolve_type(self, value, info, abstract):
        names = sorted(x.name for x in self.schema.get_possible_types(abstract))
        if self.force_type and self.force_type in names:
            return self.force_type
        return self.rng.choice(names)

    def run(self, document, operation=None, variables=None):
        doc = parse(document) if isinstance(document, str) else document
        res = execute(self.schema, doc, root_value={}, variable_values=variables or {},
                      operation_name=operation, field_resolver=self.resolve,
                      type_resolver=self.resolve_type)
        return res

    def subscribe_event(self, document, operation=None, variables=None):
        """One subscription event's data: execute the subscription selection as execute() does per event."""
        from graphql.execution.execute import ExecutionContext
        return self.run(document, operation, variables)


def json_input(t, rng, depth=0, omit_p=0.4, null_p=0.15, schema=None, oneof=None):
    """Random JSON value coercible to input type t."""
    if isinstance(t, GraphQLNonNull):
        return _json_nn(t.of_type, rng, depth, omit_p, null_p)
    if rng.random() < null_p:
        return None
    return _json_nn(t, rng, depth, omit_p, null_p)


def is_oneof(t):
    node = getattr(t, "ast_node", None)
    return bool(node) and any(d.name.value == "oneOf" for d in node.directives)


def _json_nn(t, rng, depth, omit_p, null_p):
    if isinstance(t, GraphQLList):
        n = 0 if depth > 3 else rng.randint(0, 3 if depth < 2 else 1)
        return [json_input(t.of_type, rng, depth + 1, omit_p, null_p) for _ in range(n)]
    if isinstance(t, GraphQLInputObjectType):
        if is_oneof(t):
            # prefer shallow members when deep
            names = list(t.fields)
            k = rng.choice(names)
            return {k: _json_nn(t.fields[k].type, rng, depth + 1, omit_p, null_p)}
        out = {}
        for k, f in t.fields.items():
            req = isinstance(f.type, GraphQLNonNull) and f.default_value is Undefined
            composite = isinstance(get_named_type(f.type), GraphQLInputObjectType)
            if not req:
                if rng.random() < omit_p or (composite and depth > 2):
                    continue
            out[k] = json_input(f.type, rng, depth + 1, omit_p, null_p)
        return out
    return leaf_value(t, rng)


def random_variables(schema, op_node, rng, omit_p=0.4, null_p=0.15):
    """Random JSON variables valid for the operation."""
    out = {}
    for v in op_node.variable_definitions:
        t = type_from_ast(schema, v.type)
        req = isinstance(t, GraphQLNonNull) and v.default_value is None
        if not req and rng.random() < omit_p:
            continue
        out[v.variable.name.value] = json_input(t, rng, 0, omit_p, null_p)
    return out


def coerce(schema, op_node, variables):
    """graphql-core's verdict on the variables: (errors list, coerced dict)."""
    r = get_variable_values(schema, op_node.variable_definitions, variables)
    if isinstance(r, list):
        return r, None
    return [], r

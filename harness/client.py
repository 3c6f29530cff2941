"""Shared pieces of the client-side monitors: build a generated client for a
random world, and walk responses together with schema and selection sets."""
from __future__ import annotations

import copy
import datetime
import enum
import uuid

from graphql import (
    FieldNode, FragmentDefinitionNode, FragmentSpreadNode, GraphQLEnumType, GraphQLList, GraphQLNonNull,
    GraphQLObjectType, InlineFragmentNode, OperationDefinitionNode, get_named_type, is_abstract_type,
    is_leaf_type, parse,
)

from . import gen, serve, world


class Bundle:
    def __init__(self, w, code, mod, conf):
        self.w, self.code, self.mod, self.conf = w, code, mod, conf
        self.schema = w.schema
        self.ops = gen.operations_of(mod)
        self.source = parse(w.doc_text)
        self.source_ops = {d.name.value: d for d in self.source.definitions if isinstance(d, OperationDefinitionNode)}
        self.frags = {d.name.value: d for d in self.source.definitions if isinstance(d, FragmentDefinitionNode)}

    def doc(self, op):
        return self.ops[op].Meta.document

    def close(self):
        gen.unload(self.mod)


def random_stylers(rng, p=0.5):
    """A random styler stack (possibly empty)."""
    if rng.random() > p:
        return []
    out = []
    if rng.random() < 0.4:
        out.append(gen.styler("default"))
    if rng.random() < 0.5:
        out.append(gen.styler("capitalize"))
    if rng.random() < 0.6:
        out.append(gen.styler("snake"))
    if rng.random() < 0.3:
        out.append(gen.styler("appender"))
    return out


def build(ctx, w, plugins=None, stylers=(), scratch=None, logs=None, **kw):
    """Generate and load a client for world w; reports and returns None on failure."""
    conf = gen.turms_config(plugins, stylers=stylers, **kw)
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)
        try:
            code = gen.generate(sp, dg, conf, logs)
        except Exception as e:
            ctx.fail("generation failed for a supported schema and document",
                     error=repr(e), cause=repr(e.__cause__), conf=conf, sdl=w.sdl, documents=w.doc_text)
            return None
    try:
        mod = gen.load(code)
    except Exception as e:
        ctx.fail("the generated module does not load", error=repr(e), conf=conf, code=code, sdl=w.sdl, documents=w.doc_text)
        return None
    b = Bundle(w, code, mod, conf)
    missing = set(b.source_ops) - set(b.ops)
    if missing and any("OperationsPlugin" in p["type"] for p in conf["plugins"]):
        ctx.fail("operations without a generated class carrying their document", missing=sorted(missing), code=code)
        b.close()
        return None
    return b


# ---- responses -----------------------------------------------------------

def type_applies(schema, condition, runtime):
    t = schema.get_type(condition)
    if t.name == runtime.name:
        return True
    return is_abstract_type(t) and schema.is_sub_type(t, runtime)


def collect(schema, frags, runtime, selection_sets, out=None, via=()):
    """{response key: [FieldNode]} selected for runtime (conditions ignored, those of fragments are those of
    their fields)."""
    out = {} if out is None else out
    for ss in selection_sets:
        for s in ss.selections:
            if isinstance(s, FieldNode):
                if via:
                    s = copy.copy(s)
                    s.directives = (*s.directives, *via)
                out.setdefault(s.alias.value if s.alias else s.name.value, []).append(s)
            elif isinstance(s, InlineFragmentNode):
                if s.type_condition is None or type_applies(schema, s.type_condition.name.value, runtime):
                    collect(schema, frags, runtime, [s.selection_set], out, (*via, *s.directives))
            elif isinstance(s, FragmentSpreadNode):
                f = frags[s.name.value]
                if type_applies(schema, f.type_condition.name.value, runtime):
                    collect(schema, frags, runtime, [f.selection_set], out, (*via, *s.directives))
    return out


def field_type(schema, runtime, node):
    if node.name.value == "__typename":
        return None
    t = runtime.fields[node.name.value].type
    if isinstance(t, GraphQLNonNull) and any(d.name.value in ("skip", "include") for d in node.directives or ()):
        return t.of_type          # the server may leave the field out
    return t


def strip_nn(t):
    return t.of_type if isinstance(t, GraphQLNonNull) else t


def same_json(a, b):
    """Equality of JSON values which keeps booleans and numbers apart."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    return a == b


def json_diff(a, b, path="$"):
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                out.append(f"{path}.{k}: missing, expected {b[k]!r}")
            elif k not in b:
                out.append(f"{path}.{k}: unexpected {a[k]!r}")
            else:
                out += json_diff(a[k], b[k], f"{path}.{k}")
        return out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [d for i, (x, y) in enumerate(zip(a, b)) for d in json_diff(x, y, f"{path}[{i}]")]
    return [] if same_json(a, b) else [f"{path}: {a!r} != {b!r}"]


def without_typename(data):
    if isinstance(data, list):
        return [without_typename(v) for v in data]
    if isinstance(data, dict):
        return {k: without_typename(v) for k, v in data.items() if k != "__typename" or v == "X"}    # JSON values keep theirs
    return data


def without_aliased_typename(data):
    """data without the "gqlType" keys: worlds use that alias for __typename only."""
    if isinstance(data, dict):
        return {k: without_aliased_typename(v) for k, v in data.items() if k != "gqlType"}
    if isinstance(data, list):
        return [without_aliased_typename(v) for v in data]
    return data


PY = {"String": str, "ID": str, "Int": int, "Float": float, "Boolean": bool, "UUID": uuid.UUID,
      "DateTime": datetime.datetime, "Date": datetime.date, "Slug": str, "BigInt": int}


def attr_for(model_cls, key):
    """Attribute of a model class which carries the response key."""
    for n, f in model_cls.model_fields.items():
        if f.alias == key:
            return n
    for n, f in model_cls.model_fields.items():
        if n == key and f.alias is None:
            return n
    return None


def typed_walk(b, value, data, t, node_sets, path, problems, stats, sequence=list):
    """Compare a parsed python value with the wire data it came from, typed by the schema."""
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if data is None:
        if value is not None:
            problems.append(f"{path}: {value!r} for null")
        stats["nulls"] = stats.get("nulls", 0) + 1
        return
    if isinstance(t, GraphQLList):
        if not isinstance(value, sequence) or len(value) != len(data):
            problems.append(f"{path}: {type(value).__name__} of {len(value) if hasattr(value, '__len__') else '?'} for a list of {len(data)}")
            return
        for i, (v, d) in enumerate(zip(value, data)):
            typed_walk(b, v, d, t.of_type, node_sets, f"{path}[{i}]", problems, stats, sequence)
        return
    if is_leaf_type(t):
        stats["leaves"] = stats.get("leaves", 0) + 1
        if isinstance(t, GraphQLEnumType):
            if not isinstance(value, enum.Enum) or value.value != data:
                problems.append(f"{path}: {value!r} is not the enum member for {data!r}")
            return
        if t.name == "JSON":
            if not same_json(value, data):
                problems.append(f"{path}: {value!r} != {data!r}")
            return
        want = PY[t.name]
        if not isinstance(value, want) or (want is int and isinstance(value, bool)) or (want is datetime.date and isinstance(value, datetime.datetime)):
            problems.append(f"{path}: {value!r} is a {type(value).__name__}, expected {want.__name__}")
        elif want in (str, bool, int, float) and value != data:
            problems.append(f"{path}: {value!r} != {data!r}")
        elif want is uuid.UUID and str(value) != data:
            problems.append(f"{path}: {value!r} != {data!r}")
        elif want is datetime.datetime and value.strftime("%Y-%m-%dT%H:%M:%SZ") != data:
            problems.append(f"{path}: {value!r} != {data!r}")
        elif want is datetime.date and value.isoformat() != data:
            problems.append(f"{path}: {value!r} != {data!r}")
        return
    if not hasattr(type(value), "model_fields"):
        problems.append(f"{path}: {type(value).__name__} is no generated model")
        return
    stats["objects"] = stats.get("objects", 0) + 1
    runtime = t if isinstance(t, GraphQLObjectType) else b.schema.get_type(data["__typename"])
    fields = collect(b.schema, b.frags, runtime, node_sets)
    for key, nodes in fields.items():
        ft = field_type(b.schema, runtime, nodes[0])
        if ft is None or key not in data:
            continue
        a = attr_for(type(value), key)
        if a is None:
            problems.append(f"{path}.{key}: no attribute on {type(value).__name__}")
            continue
        typed_walk(b, getattr(value, a), data[key], ft, [n.selection_set for n in nodes if n.selection_set],
                   f"{path}.{key}", problems, stats, sequence)


def responses(ctx, b, op, k, **server):
    """k valid responses (variables, data) of an operation, executed by graphql-core on the document
    the generated class carries."""
    node = b.source_ops[op]
    out = []
    for _ in range(k * 3):
        if len(out) == k:
            break
        vs = serve.random_variables(b.schema, node, ctx.rng)
        errs, _c = serve.coerce(b.schema, node, vs)
        if errs:
            ctx.count("skipped_variables")
            continue
        srv = serve.Server(b.schema, ctx.rng, **server)
        res = srv.run(b.doc(op), op, vs)
        if res.errors or res.data is None:
            ctx.count("skipped_execution")
            continue
        out.append((vs, res.data))
    return out

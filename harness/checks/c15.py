"""C15: the strawberry module serves the API the schema describes."""
import ast
import asyncio
import datetime
import json
import re
import types as pytypes
from random import Random

from graphql import (
    GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType,
    DirectiveLocation, OperationType, Undefined, Visitor, build_schema, get_named_type, is_abstract_type, is_leaf_type, is_specified_scalar_type, parse, print_ast,
    value_from_ast, visit,
)
from graphql.execution import execute
from graphql.language import ast as g

from .. import client, gen, pinned, serve, world

PROP = "C15"
RULE = ("Random schemas decorated with directives and renamed root types are generated with the strawberry plugin (stylers, scalars, bases, oneOf). The schema "
        "strawberry builds from the module must describe the same API: types, fields, arguments, inputs, defaults, enum values, interfaces, union members, "
        "descriptions, deprecations, applied directives. Then the resolvers are filled in and random operations run against it: response and resolver "
        "arguments must equal those of graphql-core on the schema. Non-trivial: a type, field or executed operation; distinct by (kind, facts).")
N_QUICK, N_THOROUGH = 800, 6000
REQUIRE = {"types": 2500, "fields": 6000, "arguments": 1200, "input_fields": 800, "defaults": 300, "enum_values": 800, "unions": 80, "interfaces": 150, "applied_directives": 400,
           "executed": 400, "leaves": 1200, "resolver_calls": 500, "resolver_arguments": 250, "subscriptions": 40, "renamed_roots": 25, "oneof_inputs": 15, "plain_names": 20}

LOCATIONS = ["OBJECT", "INTERFACE", "FIELD_DEFINITION", "ENUM", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION", "SCALAR"]
EXECUTABLE = ["QUERY", "FIELD", "MUTATION", "VARIABLE_DEFINITION", "FRAGMENT_SPREAD"]
LITERALS = {
    "String": ['"x"', '""', '"quote \\" and \\\\"', '"ünic✓"'], "Int": ["0", "5", "-3"], "Float": ["1.5", "-0.25", "2"], "Boolean": ["true", "false"],
}


# ---- the schema ----------------------------------------------------------

def literal(r, t, enums):
    if t.endswith("!"):
        return literal1(r, t[:-1], enums)
    return "null" if r.random() < 0.1 else literal1(r, t, enums)


def literal1(r, t, enums):
    if t.startswith("["):
        return "[" + ", ".join(literal(r, t[1:-1], enums) for _ in range(r.randint(0, 2))) + "]"
    return r.choice(LITERALS.get(t) or enums[t])


def decorate(w, r):
    """(sdl with directives and other root names, {old root: new root})."""
    doc = parse(w.sdl)
    enums = {n: list(t.values) for n, t in w.schema.type_map.items() if isinstance(t, GraphQLEnumType) and not n.startswith("__")}
    defs, table = [], {}
    for name in r.sample(["auth", "costOf", "visible", "tagged", "audit"], r.randint(0, 3)):
        args = {}
        for a in r.sample(["level", "role", "flags", "mode", "weight", "maxItems"], r.randint(0, 4)):
            base = r.choice(["String", "Int", "Float", "Boolean"] + (sorted(enums) if enums and r.random() < 0.5 else []))
            t = r.choice([base, base + "!", f"[{base}!]", f"[{base}]!"])
            args[a] = (t, literal(r, t, enums) if r.random() < 0.4 else None)
        locations = r.sample(LOCATIONS, r.randint(1, len(LOCATIONS))) + (r.sample(EXECUTABLE, r.randint(1, 3)) if r.random() < 0.4 else [])
        if r.random() < 0.15:
            locations = r.sample(EXECUTABLE, r.randint(1, 3))
        r.shuffle(locations)
        sig = ", ".join(f"{a}: {t}" + (f" = {d}" if d is not None else "") for a, (t, d) in args.items())
        defs.append(f"directive @{name}" + (f"({sig})" if sig else "") + " on " + " | ".join(locations))
        table[name] = (args, locations)

    def apply(node, location):
        new = []
        for name, (args, locations) in table.items():
            if location in locations and r.random() < 0.35:
                given = []
                for a, (t, d) in args.items():
                    if (t.endswith("!") and d is None) or r.random() < 0.5:
                        given.append(f"{a}: {literal(r, t, enums)}")
                new.append(f"@{name}" + (f"({', '.join(given)})" if given else ""))
        if new:
            made = parse("type X " + " ".join(new) + " { a: Int }").definitions[0].directives
            node.directives = tuple(node.directives) + tuple(made)
    kinds = {g.ObjectTypeDefinitionNode: "OBJECT", g.InterfaceTypeDefinitionNode: "INTERFACE", g.EnumTypeDefinitionNode: "ENUM",
             g.InputObjectTypeDefinitionNode: "INPUT_OBJECT", g.ScalarTypeDefinitionNode: "SCALAR"}
    for d in doc.definitions:
        if type(d) in kinds:
            apply(d, kinds[type(d)])
            for f in getattr(d, "fields", None) or []:
                apply(f, "INPUT_FIELD_DEFINITION" if isinstance(d, g.InputObjectTypeDefinitionNode) else "FIELD_DEFINITION")
    names = {}
    explicit = [d for d in doc.definitions if isinstance(d, g.SchemaDefinitionNode)]
    if not explicit and r.random() < 0.25:
        for old, new in (("Query", "RootQuery"), ("Mutation", "Changes"), ("Subscription", "Events")):
            if old in w.schema.type_map and new not in w.schema.type_map:
                names[old] = new
        rename(doc, names)
        defs.append("schema { " + " ".join(f"{op.value}: {names.get(t.name, t.name)}" for op, t in (
            (OperationType.QUERY, w.schema.query_type), (OperationType.MUTATION, w.schema.mutation_type), (OperationType.SUBSCRIPTION, w.schema.subscription_type)) if t) + " }")
    return print_ast(doc) + "\n\n" + "\n\n".join(defs) + "\n", names


def rename(doc, names):
    class V(Visitor):
        def enter_named_type(self, node, *_):
            node.name.value = names.get(node.name.value, node.name.value)

        def enter_object_type_definition(self, node, *_):
            node.name.value = names.get(node.name.value, node.name.value)
    visit(doc, V())


# ---- the module ----------------------------------------------------------

def fill(code, optional):
    """The module with every resolver calling __resolve__ (what a user would write into it),
    and with defaults for optional input fields, which have to be written by hand as well."""
    tree = ast.parse(code)
    n = 0
    for c in tree.body:
        if not isinstance(c, ast.ClassDef):
            continue
        is_input = any("strawberry.input" in ast.unparse(d) for d in c.decorator_list)
        for f in c.body:
            if optional and is_input and isinstance(f, ast.AnnAssign) and ast.unparse(f.annotation).startswith("Optional["):
                if f.value is None:
                    f.value = ast.parse("strawberry.field(default=strawberry.UNSET)", mode="eval").body
                elif not any(k.arg in ("default", "default_factory") for k in f.value.keywords):
                    f.value.keywords.append(ast.keyword("default", ast.parse("strawberry.UNSET", mode="eval").body))
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                call = ast.parse(f"__resolve__({c.name!r}, {f.name!r}, locals())", mode="eval").body
                last = f.body[-1]
                assert isinstance(last, ast.Return)
                f.body[-1] = ast.Expr(ast.Yield(call)) if isinstance(f, ast.AsyncFunctionDef) else ast.Return(call)
                n += 1
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), n


def case(ctx):
    r = ctx.rng
    stylers = client.random_stylers(r)
    plain = not stylers and r.random() < 0.4      # strawberry is told not to camel case names
    w = world.make_world(f"{ctx.seed}", world.Opts(union_element=False, oneof=r.random() < 0.5, directives=False))
    sdl, names = decorate(w, r)
    schema = build_schema(sdl)
    own_datetime = r.random() < 0.6
    options = {}
    if own_datetime:
        options["builtin_scalars"] = ["String", "Boolean", "Int", "Float", "ID"]
    bases = r.random() < 0.3
    if bases:
        options["types_bases"] = ["vt_bases.TypeBase"]
        options["inputtype_bases"] = ["vt_bases.InputBase"]
    any_id = r.random() < 0.85
    scalars = dict(world.CUSTOM_SCALARS, **({"ID": "strawberry.ID"} if any_id else {}))
    with gen.Scratch() as sc:
        sp = sc.write("schema.graphql", sdl)
        conf = gen.turms_config([gen.plug("strawberry", **options)], stylers, skip_forwards=True)
        conf["scalar_definitions"] = scalars
        try:
            code = gen.generate(sp, None, conf)
        except Exception as e:
            ctx.fail("generation fails", error=repr(e), cause=repr(e.__cause__), sdl=sdl)
            return
    info = dict(sdl=sdl, code=code, options=options)
    import strawberry
    from strawberry.schema.config import StrawberryConfig
    completed = r.random() < 0.75
    filled, n = fill(code, completed)
    try:
        mod = gen.load(filled)
        roots = {k: getattr(mod, t.name) for k, t in (("query", schema.query_type), ("mutation", schema.mutation_type), ("subscription", schema.subscription_type)) if t}
        extra = {"config": StrawberryConfig(auto_camel_case=False)} if plain else {}
        with gen.quiet():
            s = strawberry.Schema(**roots, types=[c for c in vars(mod).values() if isinstance(c, type) and hasattr(c, "__strawberry_definition__")], **extra)
    except Exception as e:
        ctx.fail("strawberry builds no schema", error=repr(e), **info)
        return
    try:
        if plain:
            ctx.count("plain_names")
        if names:
            ctx.count("renamed_roots")
        served = s._schema
        alias = {}
        if not any_id:
            alias["ID"] = "String"
        j = Judge(ctx, schema, served, mod, alias, plain, info, own_datetime)
        if not j.judge() or not any_id:
            return
        if bases:
            import vt_bases
            for t in served.type_map.values():
                d = (t.extensions or {}).get("strawberry-definition")
                o = getattr(d, "origin", None)
                if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)) and o and not issubclass(o, vt_bases.TypeBase) or isinstance(t, GraphQLInputObjectType) and o and not issubclass(o, vt_bases.InputBase):
                    ctx.fail("a configured base is missing", type=t.name, **info)
                    return
        Run(ctx, w, schema, s, served, mod, alias, names, info, own_datetime, completed).run()
    finally:
        gen.unload(mod)


def text(x):
    return re.sub(r"\s+", " ", x or "").strip()


class Judge:
    def __init__(self, ctx, schema, served, mod, alias, plain, info, own_datetime):
        self.ctx, self.schema, self.served, self.mod, self.alias, self.plain, self.info, self.own_datetime = ctx, schema, served, mod, alias, plain, info, own_datetime

    def fail(self, what, **kw):
        self.ctx.fail(what, **kw, **self.info)
        return False

    def named(self, t):
        return re.sub(r"\w+", lambda m: self.alias.get(m.group(), m.group()), str(t))

    def judge(self):
        ctx = self.ctx
        used = set()
        for t in self.schema.type_map.values():
            for f in getattr(t, "fields", {}).values():
                used.add(get_named_type(f.type).name)
                used |= {get_named_type(a.type).name for a in getattr(f, "args", {}).values()}
        for name, t in self.schema.type_map.items():
            if name.startswith("__") or isinstance(t, GraphQLScalarType) and (name not in used or is_specified_scalar_type(t)):
                continue
            if name == "ID":
                continue
            u = self.served.type_map.get(name)
            if u is None and name not in used and isinstance(t, (GraphQLEnumType, GraphQLUnionType)):
                if isinstance(t, GraphQLEnumType) and not hasattr(self.mod, name):
                    return self.fail("an enum is missing", type=name)
                continue
            ctx.count("types")
            if u is None:
                return self.fail("a type is not served", type=name)
            kinds = (GraphQLObjectType, GraphQLInterfaceType, GraphQLInputObjectType, GraphQLEnumType, GraphQLScalarType, GraphQLUnionType)
            if [isinstance(t, k) for k in kinds] != [isinstance(u, k) for k in kinds]:
                return self.fail("a type is served as another kind", type=name, kind=type(u).__name__)
            what = {GraphQLObjectType: self.fields, GraphQLInterfaceType: self.fields, GraphQLInputObjectType: self.inputs, GraphQLEnumType: self.values, GraphQLScalarType: self.scalar, GraphQLUnionType: self.union}[type(t)]
            if not what(t, u) or not isinstance(t, GraphQLUnionType) and not self.directives(t, u, name):
                return False
            origin = getattr((u.extensions or {}).get("strawberry-definition"), "origin", None)
            if origin is not None and not isinstance(t, (GraphQLScalarType, GraphQLUnionType)) and t.description and text(t.description) != text(origin.__doc__):
                return self.fail("the description of a type is not documented", type=name, documentation=origin.__doc__, description=t.description)
        for op in ("query_type", "mutation_type", "subscription_type"):
            a, b = getattr(self.schema, op), getattr(self.served, op)
            if (a and a.name) != (b and b.name):
                return self.fail("another root type is served", expected=a and a.name, served=b and b.name)
        return True

    def fields(self, t, u):
        ctx = self.ctx
        if {x.name for x in t.interfaces} != {x.name for x in u.interfaces}:
            return self.fail("interfaces differ", type=t.name, expected=[x.name for x in t.interfaces], served=[x.name for x in u.interfaces])
        ctx.count("interfaces", len(t.interfaces))
        if set(t.fields) != set(u.fields):
            return self.fail("fields differ", type=t.name, difference=sorted(set(t.fields) ^ set(u.fields)))
        for n, x in t.fields.items():
            y = u.fields[n]
            at = f"{t.name}.{n}"
            ctx.count("fields")
            if self.named(x.type) != str(y.type):
                return self.fail("a field has another type", field=at, expected=self.named(x.type), served=str(y.type))
            if text(x.description) != text(y.description):
                return self.fail("a field has another description", field=at, expected=x.description, served=y.description)
            if x.deprecation_reason != y.deprecation_reason:
                return self.fail("a field has another deprecation", field=at, expected=x.deprecation_reason, served=y.deprecation_reason)
            if set(x.args) != set(y.args):
                return self.fail("arguments differ", field=at, difference=sorted(set(x.args) ^ set(y.args)))
            ctx.observed(("field", re.sub(r"\w+", "T", str(x.type)), bool(x.description), bool(x.deprecation_reason), len(x.args)))
            for k, p in x.args.items():
                q = y.args[k]
                ctx.count("arguments")
                if not self.value(f"{at}({k})", p, q):
                    return False
            if not self.directives(x, y, at):
                return False
        return True

    def value(self, at, p, q):
        if self.named(p.type) != str(q.type):
            return self.fail("an argument or input has another type", at=at, expected=self.named(p.type), served=str(q.type))
        a, b = p.default_value, q.default_value
        if (a is Undefined) != (b is Undefined) or a is not Undefined and not same(a, b):
            return self.fail("a default differs", at=at, expected=repr(a), served=repr(b))
        if a is not Undefined:
            self.ctx.count("defaults")
            self.ctx.observed(("default", type(a).__name__, re.sub(r"\w+", "T", str(p.type))))
        return True

    def inputs(self, t, u):
        if set(t.fields) != set(u.fields):
            return self.fail("input fields differ", type=t.name, difference=sorted(set(t.fields) ^ set(u.fields)))
        for n, p in t.fields.items():
            q = u.fields[n]
            at = f"{t.name}.{n}"
            self.ctx.count("input_fields")
            if not self.value(at, p, q) or not self.directives(p, q, at):
                return False
            if text(p.description) != text(q.description) or p.deprecation_reason != q.deprecation_reason:
                return self.fail("an input field has another description or deprecation", at=at, expected=[p.description, p.deprecation_reason], served=[q.description, q.deprecation_reason])
        one = serve.is_oneof(t)
        if one:
            self.ctx.count("oneof_inputs")
        if one != bool((u.extensions["strawberry-definition"]).is_one_of):
            return self.fail("oneOf got lost or invented", type=t.name)
        return True

    def values(self, t, u):
        self.ctx.count("enum_values", len(t.values))
        if list(t.values) != list(u.values):
            return self.fail("enum values differ", type=t.name, expected=list(t.values), served=list(u.values))
        return True

    def union(self, t, u):
        self.ctx.count("unions")
        if {x.name for x in t.types} != {x.name for x in u.types}:
            return self.fail("union members differ", union=t.name, expected=[x.name for x in t.types], served=[x.name for x in u.types])
        return True

    def scalar(self, t, u):
        if (self.own_datetime or t.name != "DateTime") and text(t.description) != text(u.description):
            return self.fail("a scalar has another description", type=t.name, expected=t.description, served=u.description)
        return True

    def directives(self, t, u, at):
        """Applied directives with the values of their arguments."""
        if t.ast_node is None or at == "DateTime" and not self.own_datetime:
            return True
        want = []
        for d in t.ast_node.directives:
            if d.name.value in ("deprecated", "oneOf", "specifiedBy", "unionElementOf"):
                continue
            definition = self.schema.get_directive(d.name.value)
            given = {a.name.value: a.value for a in d.arguments}
            want.append((d.name.value, {k: value_from_ast(given[k], a.type) if k in given else a.default_value for k, a in definition.args.items()}))
        d = u.extensions["strawberry-definition"]
        got = [(type(x).__strawberry_directive__.python_name, {f.python_name: getattr(x, f.python_name) for f in type(x).__strawberry_directive__.fields}) for x in (getattr(d, "directives", None) or []) if type(x).__name__ != "OneOf"]
        from strawberry.utils.str_converters import to_camel_case
        got = [(n, {k if k in (dict(want).get(n) or {}) else to_camel_case(k): Undefined if v.__class__.__name__ == "UnsetType" else v for k, v in a.items()}) for n, a in got]
        self.ctx.count("applied_directives", len(want))
        if len(got) != len(want) or any(a[0] != b[0] or not same(a[1], b[1]) for a, b in zip(want, got)):
            return self.fail("applied directives differ", at=at, expected=repr(want), served=repr(got))
        if want:
            self.ctx.observed(("directives", at.count("."), len(want)))
        return True


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b


# ---- running it ----------------------------------------------------------

class Obj:
    def __init__(self, typename):
        self.typename = typename


class Run:
    def __init__(self, ctx, w, schema, s, served, mod, alias, names, info, own_datetime, completed):
        self.completed = completed
        self.ctx, self.w, self.schema, self.s, self.served, self.mod, self.alias, self.names, self.info, self.own_datetime = ctx, w, schema, s, served, mod, alias, names, info, own_datetime
        self.seed = ctx.rng.random()
        self.instances = {}
        self.cls = {}
        self.by_class = {}
        for n, t in served.type_map.items():
            d = (t.extensions or {}).get("strawberry-definition")
            if isinstance(t, GraphQLObjectType) and d is not None:
                self.cls[n] = (d.origin, t)
                self.by_class[d.origin.__name__] = n
        mod.__dict__["__resolve__"] = self.resolve

    # the data: a function of (type, field)
    def value(self, tname, fname):
        r = Random(f"{self.seed}{tname}.{fname}")
        return self._value(self.schema.type_map[tname].fields[fname].type, r)

    def _value(self, t, r):
        if isinstance(t, GraphQLNonNull):
            return self._nn(t.of_type, r)
        return None if r.random() < 0.15 else self._nn(t, r)

    def _nn(self, t, r):
        if isinstance(t, GraphQLList):
            return [self._value(t.of_type, r) for _ in range(r.randint(0, 2))]
        if is_leaf_type(t):
            return serve.leaf_value(t, r)
        if is_abstract_type(t):
            return Obj(r.choice(sorted(x.name for x in self.schema.get_possible_types(t))))
        return Obj(t.name)

    # reference
    def reference(self, doc, op, variables):
        calls = []

        def field(source, info, **args):
            t = info.parent_type.name
            if args:
                calls.append((t, info.field_name, norm(args)))
            return self.value(t, info.field_name)
        res = execute(self.schema, doc, root_value={}, variable_values=variables, operation_name=op, field_resolver=field, type_resolver=lambda v, i, a: v.typename)
        return res, calls

    # strawberry
    def python(self, t, v):
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if v is None:
            return None
        if isinstance(t, GraphQLList):
            return [self.python(t.of_type, x) for x in v]
        if isinstance(v, Obj):
            return self.instance(v.typename)
        if isinstance(t, GraphQLEnumType):
            e = self.served.type_map[t.name].extensions["strawberry-definition"]
            return next(x.value if isinstance(x.value, e.wrapped_cls) else e.wrapped_cls(x.value) for x in e.values if x.name == v)
        if t.name == "DateTime" and not self.own_datetime:
            return datetime.datetime.fromisoformat(v.replace("Z", "+00:00"))
        return v

    def instance(self, typename):
        if typename not in self.instances:
            origin, t = self.cls[typename]
            members = {}
            for fname, f in t.fields.items():
                d = f.extensions["strawberry-definition"]
                if d.base_resolver is None:
                    members[d.python_name] = property(lambda me, fname=fname: self.python(self.schema.type_map[typename].fields[fname].type, self.value(typename, fname)))
            sub = type(origin.__name__, (origin,), members)
            self.instances[typename] = object.__new__(sub)
        return self.instances[typename]

    def resolve(self, cls, function, given):
        tname = self.by_class[cls]
        origin, t = self.cls[tname]
        fname, f = next((n, f) for n, f in t.fields.items() if f.extensions["strawberry-definition"].python_name == function)
        args = {}
        from strawberry import UNSET
        for n, a in f.args.items():
            d = a.extensions["strawberry-definition"]
            v = given[d.python_name]
            if v is not UNSET:
                args[n] = self.plain(a.type, v)
        if args:
            self.calls.append((tname, fname, norm(args)))
        return self.python(self.schema.type_map[tname].fields[fname].type, self.value(tname, fname))

    def plain(self, t, v):
        """What a resolver was given, as graphql-core would give it."""
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if v is None:
            return None
        if isinstance(t, GraphQLList):
            return [self.plain(t.of_type, x) for x in v]
        if isinstance(t, GraphQLInputObjectType):
            from strawberry import UNSET
            if isinstance(v, dict):
                raise AssertionError(f"a resolver got a plain dict for {t.name}")
            out = {}
            for n, f in t.fields.items():
                x = getattr(v, f.extensions["strawberry-definition"].python_name)
                if x is not UNSET:
                    out[n] = self.plain(f.type, x)
            return out
        if isinstance(t, GraphQLEnumType):
            e = t.extensions["strawberry-definition"]
            return next((x.name for x in e.values if x.value == v or isinstance(v, e.wrapped_cls) and x.value == v.value), v)
        return v

    def run(self):
        ctx, r = self.ctx, self.ctx.rng
        doc = parse("\n".join(self.w.files.values()))
        used = {get_named_type(f.type).name for t in self.w.schema.type_map.values() for f in getattr(t, "fields", {}).values()}
        if conditions(doc) & (set(self.w.unions) - used):
            ctx.count("unserved_unions")     # no field returns the union, so the served schema has none
            return
        rename(doc, self.names)
        mine = parse(print_ast(doc))
        rename(mine, {k: v for k, v in self.alias.items()})
        for d in doc.definitions:
            if not isinstance(d, g.OperationDefinitionNode):
                continue
            op = d.name.value
            for _ in range(2):
                variables = serve.random_variables(self.schema, d, r)
                want, want_calls = self.reference(doc, op, variables)
                if want.errors:
                    break
                self.calls = []
                try:
                    got = self.execute(print_ast(mine), op, variables, d.operation)
                except Exception as e:
                    ctx.fail("running an operation fails", error=repr(e), operation=print_ast(d), variables=variables, **self.info)
                    return
                detail = dict(operation=print_ast(d), variables=variables, expected=norm(want.data), got=got.data, **self.info)
                if got.errors:
                    if not self.completed and all(re.search(r"__init__\(\) missing \d+ required keyword-only argument", str(e)) for e in got.errors):
                        ctx.count("omitted_inputs")       # recorded finding
                        continue
                    ctx.fail("an operation is answered with errors", errors=[str(e) for e in got.errors], **detail)
                    return
                ctx.count("executed")
                if d.operation == OperationType.SUBSCRIPTION:
                    ctx.count("subscriptions")
                if norm(got.data) != norm(want.data):
                    ctx.fail("an operation is answered differently", **detail)
                    return
                ctx.count("leaves", leaves(got.data))
                ctx.count("resolver_calls", len(want_calls))
                ctx.count("resolver_arguments", sum(len(a) for _, _, a in want_calls))
                a, b = sorted(want_calls, key=key), sorted(self.calls, key=key)
                if a != b:
                    ctx.fail("resolvers got other arguments", expected_calls=a, calls=b, **detail)
                    return
                ctx.observed(("executed", d.operation.value, min(len(a), 3), min(leaves(got.data), 10)))

    def execute(self, text_, op, variables, kind):
        with gen.quiet():
            if kind != OperationType.SUBSCRIPTION:
                return self.s.execute_sync(text_, variable_values=variables, operation_name=op)

            async def first():
                it = await self.s.subscribe(text_, variable_values=variables, operation_name=op)
                if not hasattr(it, "__aiter__"):
                    return it
                async for x in it:
                    return x
            return asyncio.run(first())


def conditions(doc):
    """The types that fragments and inline fragments of a document are on."""
    out = set()

    class V(Visitor):
        def enter(self, n, *_):
            t = getattr(n, "type_condition", None)
            if t is not None:
                out.add(t.name.value)

    visit(doc, V())
    return out


def leaves(x):
    if isinstance(x, dict):
        return sum(map(leaves, x.values()))
    if isinstance(x, list):
        return sum(map(leaves, x))
    return 1


def key(call):
    return json.dumps(call, sort_keys=True, default=str)


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, datetime.datetime):
        return x.isoformat()
    if isinstance(x, str) and re.fullmatch(r"20\d\d-\d\d-\d\dT\d\d:\d\d:\d\dZ", x):
        return x[:-1] + "+00:00"
    return x


def omitted_input():
    """Known finding: an optional input field without a default has to be given."""
    import strawberry
    with gen.Scratch() as sc:
        sp = sc.write("schema.graphql", "input F { a: Int b: Int }\ntype Query { q(f: F!): Int }")
        code = gen.generate(sp, None, gen.turms_config([gen.plug("strawberry")], skip_forwards=True))
    mod = gen.load(code)
    try:
        with gen.quiet():
            res = strawberry.Schema(query=mod.Query).execute_sync("{ q(f: {a: 1}) }")
    finally:
        gen.unload(mod)
    return str(res.errors[0]) if res.errors else None


PROBES = {"strawberry-omitted-inputs": omitted_input}

"""C23: defaults, deprecations and descriptions of the schema reach the generated code."""
import ast
import re

from graphql import (
    GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLNonNull, GraphQLObjectType, ListValueNode, NullValueNode,
    ObjectValueNode, TypeInfo, TypeInfoVisitor, Undefined, VariableNode, Visitor, visit,
)

from .. import client, confs, gen, kinds, world
from .c07 import expandable, param_for

PROP = "C23"
RULE = ("Random worlds with descriptions (quotes, backslashes, several lines, unicode), deprecations and default values of every kind. Every field of every "
        "generated input, arguments class, object of parsed responses and object model is compared with the schema: exactly one default marker reading back "
        "as the non-null default, exactly one deprecation marker with the reason, the description, and documentation holding what is configured; deprecated "
        "selections are warned about. Non-trivial: a field with a default, a deprecation or a description; distinct by (kind of definition, facts).")
N_QUICK, N_THOROUGH = 800, 6000
REQUIRE = {"input_fields": 1200, "defaults": 200, "deprecated_inputs": 60, "variables": 800, "variable_defaults": 150, "result_fields": 5000, "deprecated_results": 300,
           "described_results": 1000, "class_docs": 1000, "warnings": 100, "function_docs": 350, "function_heads": 90, "expanded_docs": 80, "argument_docs": 100, "model_fields": 800, "custom_markers": 50, "plain_docs": 50}


def comments(code):
    """{qualified class name: {attribute: comment}} and {qualified class name: docstring} of a module."""
    notes, docs = {}, {}

    def walk(body, prefix):
        for d in body:
            if not isinstance(d, ast.ClassDef):
                continue
            q = prefix + d.name
            docs[q] = ast.get_docstring(d, clean=False)
            found, last = {}, None
            for s in d.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    last = s.target.id
                    found[last] = None
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str) and last:
                    found[last] = s.value.value
                    last = None
                else:
                    last = None
            notes[q] = found
            walk(d.body, q + ".")
    walk(ast.parse(code).body, "")
    return notes, docs


def squeeze(s):
    return re.sub(r"\s+", " ", s or "").strip()


def plain(v):
    """The python value of a literal (enum values are their names)."""
    if isinstance(v, ListValueNode):
        return [plain(x) for x in v.values]
    if isinstance(v, ObjectValueNode):
        return {f.name.value: plain(f.value) for f in v.fields}
    if isinstance(v, NullValueNode):
        return None
    if type(v).__name__ == "IntValueNode":
        return int(v.value)
    if type(v).__name__ == "FloatValueNode":
        return float(v.value)
    return v.value


def reads_back(text, value):
    """A default marker is a string which shows the value."""
    if not isinstance(text, str):
        return False
    if isinstance(value, str):
        return text == value
    try:
        return ast.literal_eval(text) == value
    except Exception:
        return False


class Judge:
    def __init__(self, ctx, mod, code, conf, sdl):
        self.ctx, self.mod, self.conf = ctx, mod, conf
        self.notes, self.docs = comments(code)
        self.metadata = conf.get("document_field_metadata", True)
        import vt_markers
        self.default_cls = vt_markers.MyDefault if conf.get("graphql_default_class") else getattr(mod, "GraphQLDefault", None)
        self.deprecated_cls = vt_markers.MyDeprecated if conf.get("deprecated_class") else getattr(mod, "Deprecated", None)
        self.sdl = sdl

    def fail(self, what, **kw):
        self.ctx.fail(what, conf=self.conf, sdl=self.sdl, **kw)
        return False

    def markers(self, field):
        """(default markers, deprecation markers, others) of a model field."""
        de = [m for m in field.metadata if self.default_cls and type(m) is self.default_cls]
        dp = [m for m in field.metadata if self.deprecated_cls and type(m) is self.deprecated_cls]
        return de, dp, [m for m in field.metadata if not any(m is x for x in de + dp)]

    def note(self, cls, attr):
        for c in cls.__mro__:
            if c.__module__ == self.mod.__name__ and attr in self.notes.get(c.__qualname__, {}):
                return self.notes[c.__qualname__][attr]
        return None

    def marked(self, kind, cls, attr, default, reasons, **info):
        """default: Undefined or a python value. reasons: acceptable deprecation reasons (None for none)."""
        field = cls.model_fields[attr]
        de, dp, rest = self.markers(field)
        info = dict(kind=kind, model=cls.__qualname__, attribute=attr, metadata=repr(field.metadata), **info)
        if default is Undefined or default is None:
            if de:
                return self.fail("a default is recorded where the schema has none", **info)
        elif len(de) != 1 or not reads_back(de[0].value, default):
            return self.fail("the default of the schema is not recorded", default=repr(default), **info)
        got = dp[0].reason if len(dp) == 1 else None if not dp else "several"
        if got not in reasons:
            return self.fail("the deprecation of the schema is not recorded as it is", reasons=sorted(map(str, reasons)), **info)
        if any("Default" in type(m).__name__ or "Deprecated" in type(m).__name__ for m in rest):
            return self.fail("a marker of another class than the configured one is recorded", **info)
        if field.default not in (None, ) and not field.is_required():
            return self.fail("a default of the schema is baked into the model", default=repr(field.default), **info)
        return True

    def class_doc(self, kind, cls, descriptions, **info):
        """One of the classes an object is built from carries the description of its type."""
        self.ctx.count("class_docs")
        texts = [c.__doc__ for c in cls.__mro__ if c.__module__ == self.mod.__name__]
        if not any(d in texts for d in descriptions):
            return self.fail("a class does not carry the description of its type", kind=kind, model=cls.__qualname__, texts=texts, descriptions=descriptions, **info)
        return True


def case(ctx):
    r = ctx.rng
    w = world.make_world(f"{ctx.seed}", world.Opts(n_ops=(1, 3), n_frags=(0, 4), p_deprecated=0.25) if hasattr(world.Opts, "p_deprecated") else world.Opts(n_ops=(1, 3), n_frags=(0, 4)))
    conf = {}
    if r.random() < 0.35:
        conf["document_field_metadata"] = False
        ctx.count("plain_docs")
    if r.random() < 0.3:
        conf["graphql_default_class"] = "vt_markers.MyDefault"
    if r.random() < 0.3:
        conf["deprecated_class"] = "vt_markers.MyDeprecated"
    ctx.count("custom_markers", int(bool({"graphql_default_class", "deprecated_class"} & set(conf))))
    undocumented = r.random() < 0.2
    expand = expandable(w, r)
    plugins = [gen.plug("enums", skip_unreferenced=False), gen.plug("inputs", skip_unreferenced=False),
               gen.plug("fragments", **({"add_documentation": False} if undocumented else {})), gen.plug("operations"),
               gen.plug("funcs", definitions=[{"type": k, "is_async": False, "use": "vt_proxies." + ("subscribe" if k == "subscription" else "execute")}
                                              for k in ("query", "mutation", "subscription")], collapse_lonely=False,
                        **({"expand_input_types": [expand]} if expand else {}))]
    stylers = client.random_stylers(r, 0.5)
    logs = []
    b = client.build(ctx, w, plugins, stylers, logs=logs, **conf)
    if b is None:
        return
    try:
        j = Judge(ctx, b.mod, b.code, conf, w.sdl)
        inputs(ctx, j, b, w, stylers) and arguments(ctx, j, b, w) and results(ctx, j, b, w, undocumented) and warnings(ctx, j, b, w, logs) and functions(ctx, j, b, w, expand)
    finally:
        b.close()
    if r.random() < 0.5:
        models(ctx, w, conf, stylers)


def doc_holds(j, text, description, reason, default):
    """Whether a comment says exactly what is configured."""
    want = [description] if description else []
    if j.metadata:
        want += [reason] if reason else []
        want += [str(default)] if default not in (None, Undefined) else []
    if not want:
        return not text
    if text is None:
        return False
    if not all(x in text for x in want):
        return False
    return j.metadata or text == description


def inputs(ctx, j, b, w, stylers):
    for n, cls in kinds.input_classes(b.mod, w, None).items():
        t = b.schema.get_type(n)
        if w.input_meta[n].get("oneof"):
            continue
        if t.description and not j.class_doc("input", cls, [t.description]):
            return False
        if not t.description and any(squeeze(o.description) == squeeze(cls.__doc__) for o in b.schema.type_map.values() if o.description):
            return j.fail("an input carries the description of another type", type=n, doc=cls.__doc__)
        for fn, f in t.fields.items():
            attr = client.attr_for(cls, fn)
            if attr is None:
                return j.fail("an input lacks a field", type=n, field=fn)
            ctx.count("input_fields")
            has = f.default_value not in (Undefined, None)
            ctx.count("defaults", int(has))
            ctx.count("deprecated_inputs", int(bool(f.deprecation_reason)))
            if has or f.deprecation_reason or f.description:
                ctx.observed(("input", type(f.default_value).__name__, bool(f.deprecation_reason), bool(f.description), isinstance(f.type, GraphQLNonNull), j.metadata))
            if str(cls.model_fields[attr].annotation).startswith("typing.Literal"):
                continue                # a discriminator
            if not j.marked("input", cls, attr, f.default_value, {f.deprecation_reason}, field=fn):
                return False
            if (cls.model_fields[attr].description or None) != (f.description or None):
                return j.fail("an input field does not carry its description", type=n, field=fn, got=cls.model_fields[attr].description, want=f.description)
            note = j.note(cls, attr)
            if note is None and not (j.metadata and (has or f.deprecation_reason)):
                continue                # the description is on the field itself
            if not doc_holds(j, note, f.description, f.deprecation_reason, f.default_value):
                return j.fail("the documentation of an input field does not hold what is configured", type=n, field=fn, note=note, description=f.description,
                              reason=f.deprecation_reason, default=repr(f.default_value))
    for n, t in b.schema.type_map.items():
        if isinstance(t, GraphQLEnumType) and not n.startswith("__"):
            cands = [c for c in vars(b.mod).values() if isinstance(c, type) and c.__module__ == b.mod.__name__ and hasattr(c, "__members__")
                     and [m.value for m in c] == list(t.values) and norm(c.__name__) == norm(n)]
            for c in cands:
                if t.description and c.__doc__ != t.description:
                    return j.fail("an enum does not carry its description", enum=n, doc=c.__doc__)
                ctx.count("class_docs")
    return True


def norm(s):
    return s.replace("_", "").lower()


def arguments(ctx, j, b, w):
    for op, cls in b.ops.items():
        for v in b.source_ops[op].variable_definitions:
            attr = client.attr_for(cls.Arguments, v.variable.name.value)
            if attr is None:
                return j.fail("arguments lack a variable", operation=op, variable=v.variable.name.value)
            default = plain(v.default_value) if v.default_value is not None else Undefined
            ctx.count("variables")
            ctx.count("variable_defaults", int(default not in (None, Undefined)))
            ctx.observed(("variable", type(default).__name__, type(v.type).__name__))
            if not j.marked("variable", cls.Arguments, attr, default, {None}, variable=v.variable.name.value, operation=op):
                return False
    return True


def candidates(schema, runtime, name):
    """Definitions of a field on a type and its interfaces."""
    return [t.fields[name] for t in [runtime, *runtime.interfaces] if name in t.fields]


def results(ctx, j, b, w, undocumented):
    on_unions = tuple(norm(n) for n, d in b.frags.items() if d.type_condition.name.value in w.unions)
    for op, cls in b.ops.items():
        seen = set()
        for _, data in client.responses(ctx, b, op, 3):
            try:
                obj = cls(**data)
            except Exception:
                continue                # judged by C02
            todo = []
            statics = []
            found = kinds.result_objects(b, op, obj, data, statics)
            walk(b, op, obj, data, todo)
            for (o, kind, tn, path), static in zip(found[1:], statics):
                if type(o) in seen or tn is None:
                    continue
                seen.add(type(o))
                ds = [b.schema.get_type(tn).description]
                st = b.schema.get_type(static)
                # A union has no class of its own, members may be built from fragments alone
                bare = static in w.unions or any(norm(k.__name__).startswith(on_unions) for k in type(o).__mro__)
                if all(ds) and not undocumented and not bare and "catchall" not in type(o).__name__.lower() and not j.class_doc("result", type(o), ds, operation=op, path=path, type=tn, documents=w.doc_text):
                    return False
            for o, key, tn, fname, path in todo:
                c = type(o)
                attr = client.attr_for(c, key)
                if attr is None:
                    continue
                defs = candidates(b.schema, b.schema.get_type(tn), fname)
                ctx.count("result_fields")
                reasons = {d.deprecation_reason for d in defs}
                ctx.count("deprecated_results", int(reasons != {None}))
                ctx.count("described_results", int(any(d.description for d in defs)))
                ctx.observed(("result", len(defs), bool(reasons - {None}), None in reasons, any(d.description for d in defs), j.metadata, len(c.__mro__)))
                if not j.marked("result", c, attr, Undefined, reasons, operation=op, path=path, key=key, type=tn, documents=w.doc_text):
                    return False
                note = j.note(c, attr)
                if not any(doc_holds(j, note, d.description, d.deprecation_reason, None) for d in defs):
                    return j.fail("the documentation of a result field does not hold what is configured", operation=op, path=path, key=key, type=tn, note=note,
                                  want=[(d.description, d.deprecation_reason) for d in defs], documents=w.doc_text)
    return True


def walk(b, op, obj, data, out):
    """out += [(object, response key, type name, field name, path)]."""
    from graphql import GraphQLList, is_leaf_type
    node = b.source_ops[op]

    def value(v, d, t, sets, path):
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if d is None or v is None or is_leaf_type(t):
            return
        if isinstance(t, GraphQLList):
            for i, (x, y) in enumerate(zip(v, d)):
                value(x, y, t.of_type, sets, f"{path}[{i}]")
            return
        fields(v, d, t if isinstance(t, GraphQLObjectType) else b.schema.get_type(d["__typename"]), sets, path)

    def fields(v, d, runtime, sets, path):
        for key, nodes in client.collect(b.schema, b.frags, runtime, sets).items():
            ft = client.field_type(b.schema, runtime, nodes[0])
            if ft is None or key not in d:
                continue
            out.append((v, key, runtime.name, nodes[0].name.value, path))
            a = client.attr_for(type(v), key)
            if a is not None:
                value(getattr(v, a), d[key], ft, [n.selection_set for n in nodes if n.selection_set], f"{path}.{key}")
    fields(obj, data, b.schema.get_root_type(node.operation), [node.selection_set], "$")


def warnings(ctx, j, b, w, logs):
    """Deprecated selections are warned about."""
    info = TypeInfo(b.schema)
    wanted = set()

    class V(Visitor):
        def enter_field(self, node, *_):
            f = info.get_field_def()
            if f is not None and f.deprecation_reason:
                wanted.add((node.name.value, f.deprecation_reason))
    visit(b.source, TypeInfoVisitor(info, V()))
    warned = [m for level, m in logs if str(level).upper().startswith("WARN")]
    for name, reason in sorted(wanted):
        ctx.count("warnings")
        if not any(name in m and reason in m for m in warned):
            return j.fail("a deprecated selection is not warned about", field=name, reason=reason, warnings=warned, documents=b.w.doc_text)
    return True


def functions(ctx, j, b, w, expand):
    import inspect
    fns = [f for f in vars(b.mod).values() if inspect.isfunction(f) and f.__module__ == b.mod.__name__]
    for op, cls in b.ops.items():
        node = b.source_ops[op]
        mine = [f for f in fns if norm(f.__name__) == norm(op)]
        if len(mine) != 1:
            continue
        doc = mine[0].__doc__
        ctx.count("function_docs")
        root = b.schema.get_root_type(node.operation)
        lines = (doc or "").split("\n")
        if "#" not in w.doc_text:
            # nothing but the descriptions of the root fields before the arguments
            head = squeeze("\n".join((doc or "").split("\nArgs:")[0].split("\n")[1:]))
            for f in node.selection_set.selections:
                if type(f).__name__ == "FieldNode" and f.name.value != "__typename" and root.fields[f.name.value].description:
                    d = squeeze(root.fields[f.name.value].description)
                    for said in ((f.alias or f.name).value + ": " + d, d):
                        if said in head:
                            head = head.replace(said, "", 1)
                            break
            ctx.count("function_heads")
            if head.strip():
                return j.fail("a function documents more than its root fields say", operation=op, doc=doc, left=head)
        for v in node.variable_definitions:
            n = v.variable.name.value
            if n == expand:
                for k, f in b.schema.get_type(v.type.type.name.value).fields.items():
                    p = param_for(inspect.signature(mine[0]).parameters, k)
                    ctx.count("expanded_docs")
                    if p is None or not any(re.match(r"\s*" + re.escape(p) + r"\b", x) for x in lines) or f.description and squeeze(f.description) not in squeeze(doc):
                        return j.fail("a function does not document a field of an expanded input", operation=op, field=k, parameter=p, doc=doc, description=f.description)
                continue
            names = [p for p in inspect.signature(mine[0]).parameters if norm(p) in (norm(n), "field" + norm(n))]
            if len(names) != 1:
                continue
            mentions = [x for x in lines if re.match(r"\s*" + re.escape(names[0]) + r"\b", x)]
            if not mentions:
                return j.fail("a function does not document a parameter", operation=op, parameter=names[0], doc=doc)
            default = plain(v.default_value) if v.default_value is not None else None
            if v.default_value is not None and default is not None and squeeze(str(default)) not in squeeze(doc):
                return j.fail("a function does not document a default", operation=op, parameter=names[0], doc=doc, default=repr(default))
        for f in node.selection_set.selections:
            if type(f).__name__ != "FieldNode" or f.name.value == "__typename":
                continue
            fd = root.fields[f.name.value]
            if fd.description and "#" not in w.doc_text and squeeze(fd.description) not in squeeze(doc):
                return j.fail("a function does not carry the description of its root field", operation=op, field=f.name.value, doc=doc)
            for a in f.arguments:
                if isinstance(a.value, VariableNode) and a.value.name.value != expand and fd.args[a.name.value].description:
                    ctx.count("argument_docs")
                    ctx.observed(("argument", len(fd.args[a.name.value].description)))
                    if squeeze(fd.args[a.name.value].description) not in squeeze(doc):
                        return j.fail("a function does not document an argument", operation=op, argument=a.name.value, doc=doc, want=fd.args[a.name.value].description)
    return True


def models(ctx, w, conf, stylers):
    """Object models carry descriptions and deprecations."""
    with gen.Scratch() as sc:
        sp, _ = gen.write_world(sc, w)
        c = gen.turms_config([gen.plug("enums", skip_unreferenced=False), gen.plug("objects")], stylers, always_resolve_interfaces=False, **conf)
        try:
            code = gen.generate(sp, None, c)
            mod = gen.load(code)
        except Exception as e:
            ctx.fail("object models cannot be generated", error=repr(e), conf=c, sdl=w.sdl)
            return
    try:
        j = Judge(ctx, mod, code, conf, w.sdl)
        by = {}
        for n, c in list(vars(mod).items()):
            if isinstance(c, type) and hasattr(c, "model_fields") and c.__module__ == mod.__name__:
                by.setdefault(norm(n), []).append(c)
        for n, t in w.schema.type_map.items():
            if n.startswith("_") or not isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)):
                continue
            cands = [c for k in (norm(n), norm(n) + "base") for c in by.get(k, []) if {client.attr_for(c, f) for f in t.fields} <= set(c.model_fields)]
            if len(cands) != 1:
                continue
            c = cands[0]
            if t.description and not j.class_doc("model", c, [t.description]):
                return
            for fn in t.fields:
                attr = client.attr_for(c, fn)
                if attr is None:
                    ctx.fail("an object model lacks a field", type=n, field=fn)
                    return
                ctx.count("model_fields")
                f = t.fields[fn]
                ctx.observed(("model", bool(f.description), bool(f.deprecation_reason), j.metadata))
                if not j.marked("model", c, attr, Undefined, {f.deprecation_reason}, type=n, field=fn):
                    return
                note = j.note(c, attr)
                if not doc_holds(j, note, f.description, f.deprecation_reason, None):
                    j.fail("the documentation of a field of an object model does not hold what is configured", type=n, field=fn, note=note, description=f.description)
                    return
    finally:
        gen.unload(mod)

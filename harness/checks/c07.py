"""C07: generated call functions transmit exactly what the caller gave and return what the server sent."""
import asyncio
import inspect
import typing

from graphql import GraphQLInputObjectType, GraphQLNonNull, Undefined, type_from_ast
from pydantic import TypeAdapter

from .. import client, confs, gen, serve, world
from .c06 import build, input_classes

PROP = "C07"
RULE = ("Random operations with generated sync/async functions (extra positional and keyword parameters, collapsing, expanded inputs, styled names); "
        "every function is called against recording executors with random valid arguments; the event log of one call must hold exactly one "
        "transmission, to the right executor, with the right operation class, the caller's extras and exactly the given variables, and the result "
        "must be the parsed response (or its only field). Missing arguments and executor errors must surface. Non-trivial: a call with variables; "
        "distinct by (function, variables).")
N_QUICK, N_THOROUGH = 1000, 14000
REQUIRE = {"calls": 2000, "async_calls": 500, "stream_calls": 100, "collapsed": 300, "uncollapsed": 300, "extras": 300, "omitted": 300,
           "explicit_nulls": 100, "missing_refused": 200, "errors_surfaced": 300, "expanded": 60}


class Boom(Exception):
    pass


def norm(s):
    return s.replace("_", "").lower()


def param_for(params, var):
    c = {norm(var)} | ({"field" + norm(var)} if var.startswith("_") else set())
    got = [p for p in params if norm(p) in c]
    return got[0] if len(got) == 1 else None


def run(fn, kw):
    """Result of calling fn (list of events for streams)."""
    if inspect.isasyncgenfunction(fn):
        async def drain():
            return [x async for x in fn(**kw)]
        return asyncio.run(drain())
    if inspect.iscoroutinefunction(fn):
        return asyncio.run(fn(**kw))
    if inspect.isgeneratorfunction(fn):
        return list(fn(**kw))
    return fn(**kw)


def expandable(w, r):
    """The name of a variable whose input type may be spread over parameters (or None)."""
    from graphql import NamedTypeNode, NonNullTypeNode, OperationDefinitionNode, parse
    doc = parse(w.doc_text)
    ops = [d for d in doc.definitions if isinstance(d, OperationDefinitionNode)]
    cands = []
    for d in ops:
        for v in d.variable_definitions:
            if isinstance(v.type, NonNullTypeNode) and isinstance(v.type.type, NamedTypeNode) and v.type.type.name.value in w.inputs and not v.default_value:
                cands.append(v.variable.name.value)
    r.shuffle(cands)
    for n in cands:
        ok = True
        for d in ops:
            names = {norm(v.variable.name.value) for v in d.variable_definitions}
            for v in d.variable_definitions:
                if v.variable.name.value != n:
                    continue
                t = v.type
                if not (isinstance(t, NonNullTypeNode) and isinstance(t.type, NamedTypeNode) and t.type.name.value in w.inputs and not v.default_value):
                    ok = False
                elif {norm(f.name) for f in w.inputs[t.type.name.value]} & names:
                    ok = False
                elif len({norm(f.name) for f in w.inputs[t.type.name.value]}) != len(w.inputs[t.type.name.value]):
                    ok = False
        if ok and r.random() < 0.7:
            return n
    return None


def case(ctx):
    import vt_proxies
    r = ctx.rng
    w = world.make_world(ctx.seed, world.Opts(oneof=False, n_objects=(1, 3), n_ops=(2, 4), n_root=(2, 5), max_depth=2, words=("variables", "values", "event", "operation")))
    plugin = confs.funcs_plugin(r)
    collapse = plugin.get("collapse_lonely", True)
    expand = expandable(w, r)      # spread one required input variable over parameters
    if expand:
        plugin["expand_input_types"] = [expand]
    kw = {}
    if r.random() < 0.3:
        kw.update(unset_type_class="vt_markers.MyUnset", unset_instance="vt_markers.MISSING")
    if r.random() < 0.2:
        kw["freeze"] = {"enabled": True}
    b = client.build(ctx, w, plugins=gen.CLIENT_PLUGINS + [plugin], stylers=client.random_stylers(r, 0.6), **kw)
    if b is None:
        return
    try:
        classes = input_classes(b.mod, w, None)
        funcs = {k: f for k, f in vars(b.mod).items() if inspect.isfunction(f) and f.__module__ == b.mod.__name__}
        for op, cls in b.ops.items():
            node = b.source_ops[op]
            root = b.schema.get_root_type(node.operation)
            kind = node.operation.value
            for d in plugin["definitions"]:
                if d["type"] != kind:
                    continue
                want_name = norm(("a" if d["is_async"] else "") + op)
                found = [f for k, f in funcs.items() if norm(k) == want_name]
                if len(found) != 1:
                    ctx.fail("an operation does not have its call function", operation=op, definition=d, functions=sorted(funcs))
                    return
                fn = found[0]
                stream = kind == "subscription"
                shape = (inspect.isasyncgenfunction(fn) if stream else inspect.iscoroutinefunction(fn)) if d["is_async"] else \
                    (inspect.isgeneratorfunction(fn) if stream else not inspect.iscoroutinefunction(fn))
                if not ctx.check(shape, "the call function has the wrong calling convention", function=fn.__name__, definition=d):
                    return
                extra_pos = [a["key"] for a in plugin.get("global_args", []) + d.get("extra_args", [])]
                extra_kw = {a["key"]: a["default"] for a in plugin.get("global_kwargs", []) + d.get("extra_kwargs", [])}
                params = inspect.signature(fn).parameters
                try:
                    hints = typing.get_type_hints(fn)
                except Exception as e:
                    ctx.fail("the annotations of a call function cannot be resolved", function=fn.__name__, error=repr(e), code=b.code)
                    return
                for _ in range(2):
                    if not one_call(ctx, b, plugin, cls, op, node, root, fn, params, hints, d, stream, extra_pos, extra_kw, classes, expand, collapse, vt_proxies):
                        return
    finally:
        b.close()


def one_call(ctx, b, plugin, cls, op, node, root, fn, params, hints, d, stream, extra_pos, extra_kw, classes, expand, collapse, vt_proxies):
    r = ctx.rng
    vs = serve.random_variables(b.schema, node, r, omit_p=r.choice([0.2, 0.7]), null_p=r.choice([0.05, 0.3]))
    errs, _c = serve.coerce(b.schema, node, vs)
    if errs:
        ctx.count("skipped")
        return True
    types = {v.variable.name.value: type_from_ast(b.schema, v.type) for v in node.variable_definitions}
    given, required = {}, []
    for v in node.variable_definitions:
        n = v.variable.name.value
        t = types[n]
        if n == expand:
            inner = t.of_type
            for k, f in inner.fields.items():
                p = param_for(params, k)
                if p is None:
                    ctx.fail("a field of an expanded input has no parameter", function=fn.__name__, field=k, parameters=list(params))
                    return False
                if isinstance(f.type, GraphQLNonNull) and f.default_value is Undefined:
                    required.append(p)
                if k in vs[n]:
                    given[p] = build(vs[n][k], f.type, classes, False, ctx)
            ctx.count("expanded")
            continue
        p = param_for(params, n)
        if p is None:
            ctx.fail("a variable has no parameter", function=fn.__name__, variable=n, parameters=list(params))
            return False
        if isinstance(t, GraphQLNonNull) and v.default_value is None:
            required.append(p)
        if n in vs:
            given[p] = build(vs[n], t, classes, False, ctx)
    errs, _c = serve.coerce(b.schema, node, vs)
    if errs:
        ctx.count("skipped")
        return True
    for p in params.values():
        is_required = p.default is inspect.Parameter.empty
        if p.name in extra_pos or p.name in required:
            if not is_required:
                ctx.fail("a required argument can be left out", function=fn.__name__, parameter=p.name)
                return False
        elif is_required:
            ctx.fail("an optional argument must be given", function=fn.__name__, parameter=p.name)
            return False
    call = dict(given)
    extras_pos = {k: vt_proxies.Client() if k == "client" else "chan" for k in extra_pos}
    call.update(extras_pos)
    sent_kw = dict(extra_kw)
    for k in extra_kw:
        if r.random() < 0.5:
            sent_kw[k] = call[k] = r.choice([object(), 0, "", False, None, [], 7])
    served = []

    def respond(operation, wire):
        for _ in range(4):
            res = serve.Server(b.schema, r, null_p=0.15).run(operation.Meta.document, op, wire)
            if not res.errors and res.data is not None:
                served.append(res.data)
                return res.data
        raise Boom("no response")
    vt_proxies.CALLS.clear()
    vt_proxies.RESPOND = respond
    vt_proxies.EVENTS = n_events = r.choice([0, 1, 3])
    try:
        result = run(fn, call)
    except Boom:
        ctx.count("skipped_execution")
        return True
    except Exception as e:
        ctx.fail("a call with valid arguments failed", function=fn.__name__, arguments=repr(call), error=repr(e)[:2500], code=b.code)
        return False
    calls = list(vt_proxies.CALLS)
    ctx.count("calls")
    ctx.count("async_calls" if d["is_async"] else "sync_calls")
    ctx.count("omitted", len(types) - len(vs))
    ctx.count("explicit_nulls", sum(v is None for v in vs.values()))
    if extra_pos or extra_kw:
        ctx.count("extras")
    ctx.observed((fn.__name__, repr(vs)) if vs else None)
    ctx.sample({"function": fn.__name__, "arguments": repr(call)[:200], "sent": str(calls[0]["wire"])[:200] if calls else None})
    use = ("a" if d["is_async"] else "") + ("subscribe" if stream else "execute")
    if len(calls) != 1 or calls[0]["kind"] != use or calls[0]["operation"] is not cls:
        ctx.fail("a call is not transmitted exactly once to its executor", function=fn.__name__,
                 transmissions=[(c["kind"], c["operation"].__name__) for c in calls], expected=(use, cls.__name__))
        return False
    c = calls[0]
    if not client.same_json(json_of(c["wire"], cls), vs):
        ctx.fail("a call transmits other variables than the given ones", function=fn.__name__, diff=client.json_diff(json_of(c["wire"], cls), vs)[:8], given=vs, code=b.code)
        return False
    if list(c["args"]) != [extras_pos[k] for k in extra_pos] or c["kwargs"] != sent_kw:
        ctx.fail("the caller's extra arguments do not reach the executor", function=fn.__name__, args=c["args"], kwargs=c["kwargs"],
                 expected=[list(extras_pos.items()), sent_kw])
        return False
    lonely = len(node.selection_set.selections) == 1
    outs = result if stream else [result]
    got = c["result"] if stream else [c["result"]]
    if stream:
        ctx.count("stream_calls")
        if len(outs) != n_events or len(got) != n_events:
            ctx.fail("a stream does not deliver every event once", function=fn.__name__, events=n_events, delivered=len(outs))
            return False
    for o, g, data in zip(outs, got, served):
        if collapse and lonely:
            ctx.count("collapsed")
            sel = node.selection_set.selections[0]
            key = sel.alias.value if sel.alias else sel.name.value
            a = client.attr_for(cls, key)
            if o is not getattr(g, a) and o != getattr(g, a):
                ctx.fail("a collapsed call does not return the only field of the response", function=fn.__name__, got=repr(o), expected=repr(getattr(g, a)))
                return False
        else:
            ctx.count("uncollapsed")
            if o is not g:
                ctx.fail("a call does not return the parsed response", function=fn.__name__, got=repr(o), expected=repr(g))
                return False
        ret = hints.get("return")
        if ret is not None:
            if stream:
                ret = typing.get_args(ret)[0]
            conditional = collapse and lonely and any(x.name.value in ("skip", "include") for x in node.selection_set.selections[0].directives or ())
            if not conditional:
                ctx.count("return_annotations")
                try:
                    TypeAdapter(ret).validate_python(o)
                except Exception as e:
                    ctx.fail("a result is not of the annotated return type", function=fn.__name__, result=repr(o)[:500], annotation=repr(ret), error=str(e)[:800], code=b.code)
                    return False
    # leaving a required argument out is refused before anything is sent
    if required:
        vt_proxies.CALLS.clear()
        short = {k: v for k, v in call.items() if k != r.choice(required)}
        if len(short) < len(call):
            ctx.count("missing_refused")
            try:
                run(fn, short)
            except TypeError:
                pass
            else:
                ctx.fail("a call without a required argument is accepted", function=fn.__name__, arguments=repr(short))
                return False
            if vt_proxies.CALLS:
                ctx.fail("a refused call was transmitted", function=fn.__name__)
                return False
    if not stream or n_events:
        def boom(operation, wire):
            raise Boom("executor failed")
        vt_proxies.RESPOND = boom
        vt_proxies.CALLS.clear()
        ctx.count("errors_surfaced")
        try:
            run(fn, call)
        except Boom:
            pass
        else:
            ctx.fail("an executor error is swallowed", function=fn.__name__)
            return False
        if len(vt_proxies.CALLS) != 1:
            ctx.fail("a failed call was repeated", function=fn.__name__, transmissions=len(vt_proxies.CALLS))
            return False
    return True


def json_of(wire, cls):
    """What the transport sends: the serialized variables as JSON."""
    from pydantic_core import to_jsonable_python
    return to_jsonable_python(wire, by_alias=True)

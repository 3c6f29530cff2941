"""C08: generated enums have exactly the schema's values, wherever they are used."""
import enum
import json

from graphql import build_schema, get_introspection_query, graphql_sync
from pydantic import ValidationError

from .. import client, gen, pinned

PROP = "C08"
RULE = ("Schemas full of enums (keywords, names python or str reserve, any case, deprecated and described values, one to many values), loaded from SDL "
        "or introspection, under every pruning option and styler; for each generated enum: members in schema order, each reachable under its (escaped) "
        "name, found by its wire value, serialized to it in responses, variables, nested inputs and lists, and anything else refused; the set of "
        "generated enums must be the one the options ask for. Non-trivial: an enum value round trip; distinct by (value, position, options).")
N_QUICK, N_THOROUGH = 1800, 10000
REQUIRE = {"enums": 1000, "values": 5000, "roundtrips": 5000, "refused": 3000, "pruned": 100, "underscored": 100, "introspected": 50}

PLAIN = ["RED", "GREEN", "blue", "LEVEL_1", "Mixed", "mixed", "UPPER_SNAKE", "A", "b", "x1", "trailing_", "DONE2", "North"]
ODD = ["in", "from", "class", "None", "True", "is", "import", "not", "lambda", "async", "in_", "class_", "mro", "mro_", "name", "value", "title", "format",
       "index", "count", "lower", "_x", "_x_", "_ignore_", "_missing_", "self", "cls", "Enum", "str", "match", "type", "values", "encode", "_a_b_", "__",
       "print", "object", "ä"]
ODD = [o for o in ODD if o.isascii() and not o.startswith("__")]
NAMES = ["Color", "color_kind", "HTTPState", "Mood", "_Hidden", "_Under_score", "Status2", "Kind", "level", "Sort_Order", "Axis", "Phase", "A__B", "my__kind__", "x_1_y", "_T__U"]


def make(r):
    """SDL, document and the facts about every enum."""
    names = r.sample(NAMES, r.randint(2, 6))
    facts, sdl = {}, []
    for n in names:
        vals = r.sample(PLAIN, r.randint(1, 6))
        if r.random() < 0.6:
            vals += r.sample(ODD, r.randint(1, 5))
        r.shuffle(vals)
        if len({v.lower() for v in vals}) < len(vals) and r.random() < 0.5:
            vals = list({v.lower(): v for v in vals}.values())
        lines = []
        for v in vals:
            d = '  "' + r.choice(["about it", "with 'quotes'", "x: y"]) + '"\n' if r.random() < 0.25 else ""
            lines.append(f"{d}  {v}" + (' @deprecated(reason: "gone")' if r.random() < 0.2 else ""))
        desc = '"The enum."\n' if r.random() < 0.4 else ""
        sdl.append(f"{desc}enum {n} {{\n" + "\n".join(lines) + "\n}")
        facts[n] = vals
    # every enum is used in one of several ways
    uses, inputs, q, ops = {}, [], [], []
    for i, n in enumerate(names):
        u = r.choice(["result", "result_list", "arg", "arg_list", "input", "deep_input", "nested_result", "unused", "variable_default", "both"])
        uses[n] = u
        if u == "result":
            q.append(f"f{i}: {n}")
            ops.append((f"Op{i}", f"query Op{i} {{ f{i} }}", n, u))
        elif u == "both":
            q.append(f"f{i}(v: {n}!): {n}!")
            ops.append((f"Op{i}", f"query Op{i}($v: {n}!) {{ f{i}(v: $v) }}", n, u))
        elif u == "result_list":
            q.append(f"f{i}: [{n}]!")
            ops.append((f"Op{i}", f"query Op{i} {{ f{i} }}", n, u))
        elif u == "nested_result":
            sdl.append(f"type N{i} {{ v: {n}! }}")
            q.append(f"f{i}: N{i}")
            ops.append((f"Op{i}", f"query Op{i} {{ f{i} {{ v }} }}", n, u))
        elif u == "arg":
            q.append(f"f{i}(v: {n}): Int")
            ops.append((f"Op{i}", f"query Op{i}($v: {n}) {{ f{i}(v: $v) }}", n, u))
        elif u == "variable_default":
            q.append(f"f{i}(v: {n}): Int")
            ops.append((f"Op{i}", f"query Op{i}($v: {n}! = {r.choice(facts[n])}) {{ f{i}(v: $v) }}", n, u))
        elif u == "arg_list":
            q.append(f"f{i}(v: [{n}!]): Int")
            ops.append((f"Op{i}", f"query Op{i}($v: [{n}!]) {{ f{i}(v: $v) }}", n, u))
        elif u == "input":
            d = f" = {r.choice(facts[n])}" if r.random() < 0.3 else ""
            sdl.append(f"input In{i} {{ v: {n}{d} }}")
            q.append(f"f{i}(v: In{i}): Int")
            ops.append((f"Op{i}", f"query Op{i}($v: In{i}) {{ f{i}(v: $v) }}", n, u))
        elif u == "deep_input":
            sdl.append(f"input Deep{i} {{ w: [Inner{i}!] }}\ninput Inner{i} {{ v: {n}! o: Deep{i} }}")
            q.append(f"f{i}(v: Deep{i}): Int")
            ops.append((f"Op{i}", f"query Op{i}($v: Deep{i}) {{ f{i}(v: $v) }}", n, u))
        else:
            q.append(f"f{i}: {n}")
    q.append("ok: Int")
    ops.append(("OpOk", "query OpOk { ok }", None, "ok"))
    r.shuffle(sdl)
    return "\n".join(sdl) + "\ntype Query { " + " ".join(q) + " }", ops, facts, uses


def wrap(u, v):
    """The response or variables which carry v for a use."""
    return {"result": v, "both": v, "result_list": [v, None, v], "nested_result": {"__typename": None, "v": v}, "arg": v, "variable_default": v,
            "arg_list": [v, v], "input": {"v": v}, "deep_input": {"w": [{"v": v, "o": {"w": [{"v": v}]}}]}}[u]


def case(ctx):
    r = ctx.rng
    sdl, ops, facts, uses = make(r)
    skip_un = r.random() < 0.6
    skip_us = r.random() < 0.4
    with_docs = r.random() < 0.85
    plugins = [gen.plug("enums", skip_unreferenced=skip_un, skip_underscore=skip_us)]
    if any(n.startswith("_") and uses[n] != "unused" for n in facts) and with_docs:
        skip_us = plugins[0]["skip_underscore"] = False       # a used enum must be there
    if with_docs:
        plugins += [gen.plug("inputs", skip_unreferenced=True), gen.plug("fragments"), gen.plug("operations")]
    stylers = client.random_stylers(r, 0.4)
    introspected = r.random() < 0.25
    with gen.Scratch() as sc:
        if introspected:
            ctx.count("introspected")
            data = graphql_sync(build_schema(sdl), get_introspection_query()).data
            sp = sc.write("schema.json", json.dumps(data))
        else:
            sp = sc.write("schema.graphql", sdl)
        sc.write("docs/d.graphql", "\n".join(t for _, t, _, _ in ops))
        conf = gen.turms_config(plugins, stylers=stylers, force_plugin_order=r.random() < 0.5)
        try:
            code = gen.generate(sp, sc.join("docs", "*.graphql") if with_docs else None, conf)
            mod = gen.load(code)
        except Exception as e:
            return ctx.fail("no loadable module for a schema with enums", error=repr(e), cause=repr(e.__cause__), sdl=sdl, conf=conf)
    try:
        judge(ctx, r, mod, code, facts, uses, ops, skip_un and with_docs, skip_us, with_docs)
    finally:
        gen.unload(mod)


def judge(ctx, r, mod, code, facts, uses, ops, prune, skip_us, with_docs):
    classes = [v for v in vars(mod).values() if isinstance(v, type) and issubclass(v, enum.Enum) and v.__module__ == mod.__name__]
    by_name = {}
    for n in facts:
        cands = [c for c in classes if c.__name__ in (n, n[:1].upper() + n[1:], n.capitalize()) or c.__name__.lower().replace("_", "") == n.lower().replace("_", "")]
        if len(cands) == 1:
            by_name[n] = cands[0]
    ctx.count("enums", len(classes))
    for n, u in uses.items():
        want = (u != "unused" or not prune) and not (skip_us and n.startswith("_"))
        if prune and u == "unused":
            ctx.count("pruned")
        if n.startswith("_"):
            ctx.count("underscored")
        ctx.check((n in by_name) == want, "the set of generated enums is not the one asked for", enum=n, use=u, expected=want,
                  generated=[c.__name__ for c in classes], skip_unreferenced=prune, skip_underscore=skip_us)
    if len(classes) != len(by_name):
        ctx.fail("enums which are not in the schema", generated=[c.__name__ for c in classes], schema=sorted(facts))
    for n, cls in by_name.items():
        vals = facts[n]
        got = [m.value for m in cls]
        if not ctx.check(got == vals, "an enum does not have exactly the values of the schema", enum=n, expected=vals, got=got, code=code):
            continue
        for v in vals:
            ctx.count("values")
            m = cls(v)
            ok = m.value == v and isinstance(m, str) and m == v and json.dumps(m) == json.dumps(v) and (m.name == v or m.name.rstrip("_") == v.rstrip("_"))
            ok = ok and getattr(cls, m.name) is m and cls[m.name] is m
            ctx.check(ok, "an enum member is not reachable by its wire value and name", enum=n, value=v, member=repr(m), name=m.name)
            import keyword
            if not keyword.iskeyword(v) and v != "mro" and not (v.startswith("_") and v.endswith("_")):
                ctx.check(m.name == v, "a member is not called like its value", enum=n, value=v, name=m.name)
            ctx.observed((v, n, uses[n], prune))
        for bad in bad_values(r, vals):
            try:
                cls(bad)
                ctx.fail("an enum accepts a value which is not in the schema", enum=n, value=bad, values=vals)
            except ValueError:
                pass
    if not with_docs:
        return
    classes_of = gen.operations_of(mod)
    for op, _, n, u in ops:
        if n is None:
            continue
        cls = classes_of[op]
        key = f"f{op[2:]}"
        for v in facts[n]:
            if u in ("result", "result_list", "nested_result", "both"):
                data = {key: json.loads(json.dumps(wrap(u, v)).replace('"__typename": null, ', f'"__typename": "N{op[2:]}", '))}
                try:
                    got = cls(**data).model_dump(by_alias=True, mode="json", exclude_unset=True)
                except ValidationError as e:
                    ctx.fail("an enum value of the schema is refused in a response", enum=n, value=v, error=str(e)[:500], use=u)
                    continue
                ctx.count("roundtrips")
                ctx.check(got == data, "an enum value of a response is changed", enum=n, value=v, got=got, data=data)
                ctx.observed((v, "response", u))
            if u in ("arg", "both", "variable_default", "arg_list", "input", "deep_input"):
                member = enum_of(mod, n)(v)
                for value in (v, member):
                    data = {"v": wrap(u, value)}
                    want = {"v": wrap(u, v)}
                    try:
                        got = cls.Arguments(**data).model_dump(by_alias=True, mode="json", exclude_unset=True)
                    except ValidationError as e:
                        ctx.fail("an enum value of the schema is refused in variables", enum=n, value=v, error=str(e)[:500], use=u)
                        continue
                    ctx.count("roundtrips")
                    plain = cls.Arguments(**data).model_dump(by_alias=True, exclude_unset=True)
                    ctx.check(got == want and json.loads(json.dumps(plain)) == want, "an enum value of variables is changed", enum=n, value=v, got=got, want=want)
                    ctx.observed((v, "variables", u))
        for bad in bad_values(r, facts[n])[:2]:
            try:
                if u in ("result", "result_list", "nested_result", "both"):
                    cls(**{key: json.loads(json.dumps(wrap(u, bad)).replace('"__typename": null, ', f'"__typename": "N{op[2:]}", '))})
                    ctx.fail("an unknown enum value is accepted in a response", enum=n, value=bad, use=u)
            except ValidationError:
                ctx.count("refused")
            try:
                if u in ("arg", "both", "variable_default", "arg_list", "input", "deep_input"):
                    cls.Arguments(**{"v": wrap(u, bad)})
                    ctx.fail("an unknown enum value is accepted in variables", enum=n, value=bad, use=u)
            except ValidationError:
                ctx.count("refused")


def enum_of(mod, n):
    return next(v for v in vars(mod).values() if isinstance(v, type) and issubclass(v, enum.Enum) and v.__module__ == mod.__name__
                and v.__name__.lower().replace("_", "") == n.lower().replace("_", ""))


def bad_values(r, vals):
    out = [v for v in ([x.swapcase() for x in vals] + [x + "_" for x in vals] + ["NOPE", "", "0"]) if v not in vals]
    r.shuffle(out)
    return out[:4]


def prepended():
    mod = pinned.module(pinned.ZOO, "query Q { mood }", [gen.plug("enums", prepend="Gql", append="E"), gen.plug("operations")])
    try:
        names = [k for k, v in vars(mod).items() if isinstance(v, type) and issubclass(v, enum.Enum) and v.__module__ == mod.__name__]
        return None if names == ["GqlMoodE"] else f"not prepended/appended: {names}"
    finally:
        gen.unload(mod)


PROBES = {"enum-prepend-append": prepended}

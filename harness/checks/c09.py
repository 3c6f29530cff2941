"""C09: polymorphic inputs (one-of inputs, tagged input unions) always serialize to the tagged form."""
import typing

from graphql import build_schema, parse
from pydantic import BaseModel, ValidationError

from .. import client, gen, serve

PROP = "C09"
RULE = ("Random schemas with one-of inputs (of input objects, of scalars, mixed, duplicated members, nested) and discriminated input unions "
        "(shared members, declared or undeclared discriminators, one to three members), used as variables, nested and in lists; random values are "
        "built from the generated classes and must serialize to exactly one tag with the member's own wire form (discriminator always included). "
        "Wrong tags, nulls, foreign members and inconsistent schemas must be refused. Non-trivial: value with at least one polymorphic position; "
        "distinct by (mode, wrapping, tag, value).")
N_QUICK, N_THOROUGH = 900, 12000
REQUIRE = {"oneof_direct": 500, "oneof_wrapped": 500, "union_members": 500, "refused": 800, "bad_schemas": 80, "coerced": 300}

LEAVES = ["String", "Int", "Float", "Boolean", "ID", "UUID", "Date", "Colour"]
FIELD_WORDS = ["name", "isOpen", "maxValue", "in", "from", "class", "x", "URL", "created_at", "firstName", "_key", "size2", "return", "label"]


class Gen:
    def __init__(self, r):
        self.r = r
        self.used = set()
        self.plain = {}      # name -> {field: type text}
        self.oneof = {}
        self.unions = {}     # name -> (discriminator, {member: key})
        self.declared = {}   # member -> discriminators declared as ordinary fields
        self.lines = []

    def field(self):
        r = self.r
        for _ in range(500):
            n = r.choice(FIELD_WORDS) + r.choice(["", "", "A", "Extra", "7", "_b"]) + (str(r.randint(0, 99)) if r.random() < 0.4 else "")
            k = n.lower().replace("_", "")
            if k not in self.used:
                self.used.add(k)
                return n
        raise RuntimeError

    def wrap(self, t):
        r = self.r
        t += "!" if r.random() < 0.4 else ""
        if r.random() < 0.3:
            t = f"[{t}]" + ("!" if r.random() < 0.5 else "")
        return t

    def leaf(self):
        return self.r.choice(LEAVES)

    def make(self):
        r = self.r
        names = r.sample(["Cat", "dogItem", "Point", "Range_in", "Leaf", "HTTPThing", "tree"], r.randint(2, 5))
        for n in names:
            self.plain[n] = {self.field(): self.wrap(self.leaf()) for _ in range(r.randint(1, 3))}
        for n in r.sample(["Choice", "pick_one", "FindBy"], r.randint(1, 2)):
            mode = r.choice(["direct", "direct", "scalars", "mixed", "dup"])
            fs = {}
            if mode == "direct":
                for m in r.sample(names, r.randint(1, len(names))):
                    fs[self.field()] = m
            elif mode == "dup":
                m = r.choice(names)
                fs = {self.field(): m for _ in range(r.randint(2, 3))}
                for o in r.sample([x for x in names if x != m], r.randint(0, min(2, len(names) - 1))):
                    fs[self.field()] = o
                fs = dict(r.sample(list(fs.items()), len(fs)))
            else:
                for _ in range(r.randint(1, 4)):
                    t = r.choice(names) if mode == "mixed" and r.random() < 0.5 else self.leaf()
                    fs[self.field()] = r.choice([t, t, f"[{t}!]", f"[{t}]"])
                if self.oneof and r.random() < 0.5:
                    fs[self.field()] = r.choice(list(self.oneof))
                if r.random() < 0.3:
                    fs[self.field()] = f"[{n}!]"
            self.oneof[n] = fs
        for n in r.sample(["Shape", "any_target"], r.randint(0, 2)):
            disc = self.field()
            members = {}
            for _ in range(r.randint(1, 3)):
                m = self.used_name()
                self.plain[m] = {self.field(): self.wrap(self.leaf()) for _ in range(r.randint(1, 2))}
                members[m] = "K_" + m.upper()
            self.unions[n] = (disc, members)
        if len(self.unions) == 2 and r.random() < 0.7:
            (a, (da, ma)), (b, (db, mb)) = self.unions.items()
            shared = r.choice(list(ma))
            mb[shared] = ma[shared] if r.random() < 0.5 else "OTHER_" + shared.upper()
            if mb[shared] == ma[shared] and r.random() < 0.7:
                self.unions[b] = (da, mb)           # one discriminator for both unions
        for n, (disc, members) in self.unions.items():
            for m in members:
                if r.random() < 0.6:
                    self.declared.setdefault(m, {})[disc] = members[m]
        poly = list(self.oneof) + list(self.unions)
        for n in r.sample(["Host", "query_args"], r.randint(1, 2)):
            self.plain[n] = {self.field(): self.wrap(r.choice(poly + poly + names)) for _ in range(r.randint(1, 4))}
            self.plain[n][self.field()] = self.wrap(self.leaf())

    def used_name(self):
        for _ in range(100):
            n = self.r.choice(["Circle", "square", "Line", "Sphere", "path_el", "Group"]) + self.r.choice(["", "2", "Input"])
            if n not in self.plain:
                return n
        raise RuntimeError

    def sdl(self, break_it=None):
        r = self.r
        out = ["directive @oneOf on INPUT_OBJECT",
               "directive @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT",
               "scalar UUID scalar Date enum Colour { RED in }"]
        keys = sorted({k for d, ms in self.unions.values() for k in ms.values()})
        if keys:
            out.append("enum Tag { " + " ".join(keys) + " }")
        defs = []
        for n, fs in self.plain.items():
            dirs, extra = "", ""
            for u, (disc, ms) in self.unions.items():
                if n in ms:
                    d, k = disc, ms[n]
                    given = dict(union=u, discriminator=d, key=k)
                    if break_it and (u, n) == self.broken:
                        if break_it == "mismatch":
                            given["discriminator"] = r.choice([x for x in (d + "Other", d + "_", "_" + d, d.swapcase(), d[:-1] or "q") if x != d])
                        elif break_it == "conflict":
                            given["key"] = r.choice([k.lower(), k + "_", k[:-1], "OTHER"])
                        elif break_it == "twice":
                            given["key"] = next(x for m, x in ms.items() if m != n)
                        elif break_it == "argument":
                            del given[r.choice(list(given))]
                    given = list(given.items())
                    r.shuffle(given)
                    dirs += " @unionElementOf(" + ", ".join(f'{a}: "{v}"' for a, v in given) + ")"
                    if disc in self.declared.get(n, {}) and f" {disc}: Tag!" not in extra:
                        extra += f" {disc}: Tag! = {k}"
            defs.append(f"input {n}{dirs} {{ " + " ".join(f"{f}: {t}" for f, t in fs.items()) + extra + " }")
        for n, fs in self.oneof.items():
            items = [f"{f}: {t}" for f, t in fs.items()]
            if break_it in ("nonnull", "default") and n == self.broken:
                items.append("broken: Int!" if break_it == "nonnull" else "broken: Int = 3")
            defs.append(f"input {n} @oneOf {{ " + " ".join(items) + " }")
        for n in self.unions:
            defs.append(f"input {n} {{ placeholder: Int }}")
        r.shuffle(defs)
        targets = list(self.oneof) + list(self.unions) + [n for n in self.plain if n in ("Host", "query_args")]
        args, self.vars = [], {}
        for i, t in enumerate(targets):
            wt = self.wrap(t)
            self.vars[f"v{i}"] = wt
            args.append(f"a{i}: {wt}")
        out += defs + ["type Query { run(" + ", ".join(args) + "): Int }"]
        return "\n".join(out)

    def document(self):
        return ("query Run(" + ", ".join(f"${v}: {t}" for v, t in self.vars.items()) + ") { run(" +
                ", ".join(f"a{v[1:]}: ${v}" for v in self.vars) + ") }")


def strip(a):
    """Model classes an annotation can hold."""
    o = typing.get_origin(a)
    if o is typing.Annotated:
        return strip(typing.get_args(a)[0])
    if o is not None and o is not typing.Literal:
        out = []
        for x in typing.get_args(a):
            out += strip(x)
        return out
    return [a] if isinstance(a, type) and issubclass(a, BaseModel) else []


def wires(cls):
    return {f.alias or n for n, f in cls.model_fields.items()}


class Lookup:
    """Generated classes by what they carry on the wire."""

    def __init__(self, g, arguments):
        self.g = g
        self.cls = {}        # plain input -> class
        self.wrap = {}       # (oneof, tag) -> wrapper class
        self.problems = []
        for v, t in g.vars.items():
            f = next((f for n, f in arguments.model_fields.items() if (f.alias or n) == v), None)
            if f is None:
                self.problems.append(f"no argument for ${v}")
                continue
            self.enter(f.annotation, t)

    def fields(self, n):
        fs = dict(self.g.plain[n])
        for u, (d, ms) in self.g.unions.items():
            if n in ms:
                fs[d] = None
        return fs

    def plain(self, classes, n):
        fs = self.fields(n)
        c = next((c for c in classes if wires(c) == set(fs)), None)
        if c is None:
            self.problems.append(f"no class with the wire names {sorted(fs)} of {n} among {[(x.__name__, sorted(wires(x))) for x in classes]}")
            return
        if n in self.cls:
            if self.cls[n] is not c:
                self.problems.append(f"two classes for {n}")
            return
        self.cls[n] = c
        for k, t in fs.items():
            if t:
                f = c.model_fields[client.attr_for(c, k)]
                self.enter(f.annotation, t)

    def enter(self, annotation, t):
        base = t.strip("[]!")
        while base != base.strip("[]!"):
            base = base.strip("[]!")
        g = self.g
        if base in LEAVES:
            return
        classes = strip(annotation)
        if base in g.plain:
            self.plain(classes, base)
        elif base in g.unions:
            for m in g.unions[base][1]:
                self.plain(classes, m)
        elif base in g.oneof:
            fs = g.oneof[base]
            if direct(g, base):
                for tag, m in fs.items():
                    self.plain(classes, m)
                return
            for tag, mt in fs.items():
                c = next((c for c in classes if wires(c) == {tag}), None)
                if c is None:
                    self.problems.append(f"no variant for {base}.{tag} among {[(x.__name__, sorted(wires(x))) for x in classes]}")
                elif (base, tag) not in self.wrap:
                    self.wrap[base, tag] = c
                    self.enter(c.model_fields[client.attr_for(c, tag)].annotation, mt)


def direct(g, n):
    ts = list(g.oneof[n].values())
    return all(t in g.plain for t in ts) and len(set(ts)) == len(ts)


class Values:
    def __init__(self, g, lk, schema, ctx):
        self.g, self.lk, self.schema, self.ctx, self.r = g, lk, schema, ctx, ctx.rng
        self.poly = []

    def value(self, t, depth=0):
        """(wire form, python value)"""
        r = self.r
        if not t.endswith("!"):
            if r.random() < 0.12:
                return None, None
        else:
            t = t[:-1]
        if t.startswith("["):
            items = [self.value(t[1:-1], depth + 1) for _ in range(r.randint(0, 2 if depth < 3 else 0))]
            return [w for w, _ in items], [p for _, p in items]
        return self.nn(t, depth)

    def nn(self, t, depth):
        g, lk, r, ctx = self.g, self.lk, self.r, self.ctx
        if t in LEAVES:
            if t == "Colour":
                v = r.choice(["RED", "in"])
                return v, v
            v = serve.leaf_value(self.schema.get_type(t), r)
            return v, v
        if t in g.plain:
            return self.member(t, {}, depth)
        if t in g.unions:
            disc, ms = g.unions[t]
            m = r.choice(list(ms))
            ctx.count("union_members")
            self.poly.append((t, m))
            return self.member(m, {}, depth, r.choice([None, disc]))
        fs = g.oneof[t]
        tags = list(fs)
        if depth > 3:
            tags = [x for x in tags if fs[x].strip("[]!") not in g.oneof] or tags
        tag = r.choice(tags)
        w, p = self.value(fs[tag] + "!", depth + 1)
        self.poly.append((t, tag))
        if direct(g, t):
            ctx.count("oneof_direct")
            return {tag: w}, p
        ctx.count("oneof_wrapped")
        return {tag: w}, lk.wrap[t, tag](**{tag: p})

    def member(self, m, _, depth, explicit=None):
        g, r = self.g, self.r
        w, p = {}, {}
        for k, ft in g.plain[m].items():
            if not ft.endswith("!") and r.random() < 0.35:
                continue
            if depth > 4 and ft.strip("[]!") not in LEAVES and not ft.endswith("!"):
                continue
            w[k], p[k] = self.value(ft, depth + 1)
        for u, (d, ms) in g.unions.items():
            if m in ms:
                w[d] = ms[m]
                if explicit == d:
                    p[d] = ms[m]
        return w, self.lk.cls[m](**p)


def refused(ctx, what, fn, **detail):
    ctx.count("refused")
    try:
        got = fn()
    except (ValidationError, TypeError):
        return True
    ctx.fail(what, accepted=repr(got), **detail)
    return False


def input_models(ctx, g, conf, **inputs):
    """(module, {input type: its generated classes}) of a schema with polymorphic inputs; wrappers stand for their one-of input."""
    with gen.Scratch() as sc:
        sp = sc.write("schema.graphql", g.sdl())
        sc.write("docs/d.graphql", g.document())
        plugins = [gen.plug("enums"), gen.plug("inputs", **inputs), gen.plug("operations")]
        try:
            code = gen.generate(sp, sc.join("docs", "*.graphql"), gen.turms_config(plugins, **conf))
            mod = gen.load(code)
        except Exception as e:
            ctx.fail("generation failed for supported polymorphic inputs", error=repr(e), cause=repr(e.__cause__), sdl=g.sdl(), conf=conf)
            return None, {}
    lk = Lookup(g, gen.operations_of(mod)["Run"].Arguments)
    if lk.problems:
        ctx.fail("the variants of a polymorphic input are not all usable", problems=lk.problems[:4], sdl=g.sdl(), code=code)
        gen.unload(mod)
        return None, {}
    out = {n: [c] for n, c in lk.cls.items()}
    for (n, _tag), c in lk.wrap.items():
        out.setdefault(n, []).append(c)
    ctx.count("wrappers", len(lk.wrap))
    return mod, out


def case(ctx):
    r = ctx.rng
    g = Gen(r)
    g.make()
    sdl = g.sdl()
    doc = g.document()
    conf = dict(stylers=client.random_stylers(r, 0.6))
    if r.random() < 0.25:
        conf["freeze"] = {"enabled": True}
    if r.random() < 0.2:
        conf["options"] = {"enabled": True, "extra": "ignore", "validate_assignment": r.random() < 0.5}
    skip = r.random() < 0.5
    plugins = [gen.plug("enums", skip_unreferenced=skip), gen.plug("inputs", skip_unreferenced=skip), gen.plug("operations")]

    def generate(s, d):
        with gen.Scratch() as sc:
            sp = sc.write("schema.graphql", s)
            sc.write("docs/d.graphql", d)
            return gen.generate(sp, sc.join("docs", "*.graphql"), gen.turms_config(plugins, **conf))
    try:
        code = generate(sdl, doc)
        mod = gen.load(code)
    except Exception as e:
        ctx.fail("generation failed for supported polymorphic inputs", error=repr(e), cause=repr(e.__cause__), sdl=sdl, document=doc)
        return
    try:
        args = gen.operations_of(mod)["Run"].Arguments
        lk = Lookup(g, args)
        if lk.problems:
            ctx.fail("the variants of a polymorphic input are not all usable", problems=lk.problems[:4], sdl=sdl, code=code)
            return
        schema = build_schema(sdl)
        node = parse(doc).definitions[0]
        for _ in range(6):
            vals = Values(g, lk, schema, ctx)
            try:
                pairs = {v: vals.value(t) for v, t in g.vars.items() if t.endswith("!") or r.random() < 0.7}
            except ValidationError as e:
                ctx.fail("a valid polymorphic value cannot be built", error=str(e)[:2000], sdl=sdl, code=code)
                return
            want = {v: w for v, (w, p) in pairs.items()}
            try:
                got = args(**{v: p for v, (w, p) in pairs.items()}).model_dump(by_alias=True, exclude_unset=True, mode="json")
            except Exception as e:
                ctx.fail("valid polymorphic variables were refused", wanted=want, error=str(e)[:2000], sdl=sdl, code=code)
                return
            for p in vals.poly or [None]:
                ctx.observed((p, repr(want)) if p else None)
            if not client.same_json(got, want):
                ctx.fail("a polymorphic input is not serialized in its tagged form", diff=client.json_diff(got, want)[:6], got=got, sdl=sdl, code=code)
                return
            if not g.unions:
                errs, _c = serve.coerce(schema, node, got)
                ctx.count("coerced")
                if not ctx.check(not errs, "the server refuses the serialized variables", errors=[str(e) for e in errs], variables=got, sdl=sdl):
                    return
            ctx.sample({"variables": str(want)[:300]})
        for (t, tag), c in lk.wrap.items():
            if not (refused(ctx, "a one-of variant without its value is accepted", lambda: c(), variant=c.__name__) and
                    refused(ctx, "a one-of variant with null is accepted", lambda: c(**{tag: None}), variant=c.__name__)):
                return
        for v, t in g.vars.items():
            base = t.strip("[]!")
            lists = t.count("[")
            if base in g.unions:
                disc, ms = g.unions[base]
                m = r.choice(list(ms))
                w, p = Values(g, lk, schema, ctx).member(m, {}, 5)
                rest = {k: Values(g, lk, schema, ctx).value(tt)[0] for k, tt in g.vars.items() if tt.endswith("!") and k != v}
                probe_args = {k: Values(g, lk, schema, ctx).value(tt)[1] for k, tt in g.vars.items() if tt.endswith("!") and k != v}
                for bad in ({**w, disc: "NO_SUCH_KEY"}, {**w, disc: None}):
                    x = bad
                    for _ in range(lists):
                        x = [x]
                    if not refused(ctx, "an input union accepts an unknown discriminator", lambda: args(**{**probe_args, v: x}), value=bad, sdl=sdl, code=code):
                        return
                if not refused(ctx, "an input union member accepts another member's key", lambda: lk.cls[m](**{**w, disc: "NO_SUCH_KEY"}), value=w):
                    return
                if len(ms) > 1:
                    x = {k: y for k, y in w.items() if k != disc}
                    bad = x
                    for _ in range(lists):
                        x = [x]
                    if not refused(ctx, "an input union accepts a value without discriminator", lambda: args(**{**probe_args, v: x}), value=bad, sdl=sdl, code=code):
                        return
                good = w
                for _ in range(lists):
                    good = [good]
                try:
                    got = args(**{**probe_args, v: good}).model_dump(by_alias=True, exclude_unset=True, mode="json")[v]
                except ValidationError as e:
                    ctx.fail("an input union refuses a value given as JSON", value=good, error=str(e)[:1500], sdl=sdl, code=code)
                    return
                if not ctx.check(client.same_json(got, good), "an input union given as JSON is serialized differently", got=got, given=good):
                    return
            elif base in g.oneof and direct(g, base):
                members = set(g.oneof[base].values())
                others = [n for n in lk.cls if n not in members]
                if others:
                    n = r.choice(others)
                    w, p = Values(g, lk, schema, ctx).member(n, {}, 5)
                    probe_args = {k: Values(g, lk, schema, ctx).value(tt)[1] for k, tt in g.vars.items() if tt.endswith("!") and k != v}
                    x = p
                    for _ in range(lists):
                        x = [x]
                    if not refused(ctx, "a one-of input accepts a model which is not a member",
                                   lambda: args(**{**probe_args, v: x}).model_dump(by_alias=True, exclude_unset=True), member=n, one_of=base, sdl=sdl):
                        return
    finally:
        gen.unload(mod)
    # schemas which break the rules of polymorphic inputs
    spots = {"nonnull": list(g.oneof), "default": list(g.oneof),
             "argument": [(u, m) for u, (d, ms) in g.unions.items() for m in ms],
             "mismatch": [(u, m) for u, (d, ms) in g.unions.items() for m in ms if len(ms) > 1],
             "twice": [(u, m) for u, (d, ms) in g.unions.items() for m in ms if len(ms) > 1 and not any(m in o for x, (_, o) in g.unions.items() if x != u)],
             "conflict": [(u, m) for u, (d, ms) in g.unions.items() for m in ms if any(m in o and e == d for x, (e, o) in g.unions.items() if x != u)]}
    kinds = r.sample([k for k in spots if spots[k]], min(2, sum(map(bool, spots.values()))))
    for kind in (["conflict"] if spots["conflict"] else []) + [k for k in kinds if k != "conflict"]:
        g.broken = r.choice(spots[kind])
        bad = g.sdl(kind)
        ctx.count("bad_schemas")
        ctx.count("bad_" + kind)
        try:
            gen.unload(gen.load(generate(bad, g.document())))
        except Exception:
            ctx.evals += 1
            continue
        ctx.fail(f"a schema with inconsistent polymorphic inputs ({kind}) is accepted silently", sdl=bad)
        return

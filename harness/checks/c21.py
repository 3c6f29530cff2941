"""C21: exactly what the documents need is generated, and nothing depends on what they do not need."""
from graphql import (
    FragmentDefinitionNode, FragmentSpreadNode, GraphQLEnumType, GraphQLInputObjectType, OperationDefinitionNode, TypeInfo, TypeInfoVisitor, Visitor,
    build_schema, get_named_type, parse, print_ast, type_from_ast, visit,
)

from .. import confs, gen, world
from ..meaning import meaning

PROP = "C21"
RULE = ("Random projects are generated as they are, without pruning, with unrelated types and fields added to the schema, and with some operations removed. "
        "The pruned module must define models for exactly the inputs and enums reachable from variables and selections (computed by graphql-core's type "
        "information), additions must change nothing, and what remains after removing operations must be defined as before. Non-trivial: a compared pair; "
        "distinct by (comparison, plugins, sizes).")
N_QUICK, N_THOROUGH = 260, 6000
REQUIRE = {"pruned": 240, "inputs_needed": 200, "inputs_left_out": 80, "enums_needed": 200, "enums_left_out": 50, "grown": 240, "reduced": 150, "complete": 200, "kept_definitions": 2000, "placed": 3000}


def closure(schema, names):
    out, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.add(n)
        t = schema.get_type(n)
        if isinstance(t, GraphQLInputObjectType):
            todo += [get_named_type(f.type).name for f in t.fields.values()]
    return out


def needed(schema, doc, ops=None):
    """(inputs, enums, fragments) reachable from (some of) the operations."""
    frags = {d.name.value: d for d in doc.definitions if isinstance(d, FragmentDefinitionNode)}
    names, seen = set(), set()
    info = TypeInfo(schema)

    class V(Visitor):
        def enter_field(self, node, *_):
            t = info.get_type()
            if t is not None:
                names.add(get_named_type(t).name)

        def enter_variable_definition(self, node, *_):
            names.add(get_named_type(type_from_ast(schema, node.type)).name)

        def enter_fragment_spread(self, node, *_):
            if node.name.value not in seen:
                seen.add(node.name.value)
                todo.append(frags[node.name.value])
    todo = [d for d in doc.definitions if isinstance(d, OperationDefinitionNode) and (ops is None or d.name.value in ops)]
    while todo:
        visit(todo.pop(), TypeInfoVisitor(info, V()))
    names = closure(schema, names)
    return ({n for n in names if isinstance(schema.get_type(n), GraphQLInputObjectType)},
            {n for n in names if isinstance(schema.get_type(n), GraphQLEnumType) and not n.startswith("__")}, seen)


GROWTH = """
enum ZzEnum { A B }
input ZzInput { a: ZzEnum b: [ZzOther!] = [] }
input ZzOther { c: ZzInput }
type ZzObject implements ZzFace { id: ID! e: ZzEnum rel: QUERY_ROOT }
interface ZzFace { id: ID! }
union ZzUnion = ZzObject
scalar ZzScalar
extend type QUERY_ROOT { zzField(a: ZzInput, s: ZzScalar): ZzUnion zzList: [ZzObject!]! }
"""


def sel(r, *items):
    """A selection set of the items in any order, with __typename anywhere."""
    items = list(items)
    r.shuffle(items)
    if r.random() < 0.5:
        items.insert(r.randint(0, len(items)), "__typename")
    return "{ " + " ".join(items) + " }"


def positions(r):
    """(sdl, document): every enum and input is used in one position, many are not used at all."""
    sdl, q, root, frags, variables = [], [], [], [], []
    for i in range(r.randint(6, 14)):
        E, O, M, N, U, I, In = (x + str(i) for x in ("E", "O", "M", "N", "U", "I", "In"))
        sdl.append(f"enum {E} {{ A B }}\ninput {In} {{ e: {E} = A n: Int }}\n"
                   f"type {O} {{ e: {E} n: Int o: {O} l: [[{E}!]] m(a: {In}, e: {E}): Int }}")
        kind = r.choice(["root", "object", "deep", "list", "union", "union_deep", "union_spread", "union_fragment", "union_inner_spread", "iface", "iface_inline",
                         "iface_inline_deep", "iface_fragment", "iface_inner_spread", "fragment", "fragment_nested", "fragment_mixed", "variable", "variable_list", "input",
                         "input_deep", "input_list", "literal", "unselected", "argument"])
        p, t = f"p{i}", O
        e = r.choice(["e", "e", "l", f"x{i}: e"])
        inner = sel(r, e, "n")
        if kind.startswith("union"):
            sdl.append(f"type {M} {{ e: {E} n{i}: Int l: [[{E}!]] o: {O} }} type {N} {{ k{i}: Int }} union {U} = " + r.choice([f"{M} | {N}", f"{N} | {M}"]))
            t = r.choice([U, f"[{U}!]", f"{U}!"])
            other = f"... on {N} {sel(r, f'k{i}')}"
            if kind == "union":
                s = sel(r, f"... on {M} {sel(r, e, f'n{i}')}", other)
            elif kind == "union_deep":
                s = sel(r, f"... on {M} {sel(r, f'o {inner}', f'n{i}')}", other)
            elif kind == "union_spread":
                frags.append(f"fragment F{i} on {M} {sel(r, e, f'n{i}')}")
                s = sel(r, f"...F{i}", other)
            elif kind == "union_inner_spread":
                frags.append(f"fragment F{i} on {M} {sel(r, e)}")
                s = sel(r, f"... on {M} {sel(r, f'...F{i}', f'n{i}')}", other)
            else:
                frags.append(f"fragment F{i} on {U} {sel(r, f'... on {M} ' + r.choice([sel(r, e, f'n{i}'), sel(r, f'o {inner}')]), other)}")
                s = f"{{ ...F{i} }}"
        elif kind.startswith("iface"):
            sdl.append(f"interface {I} {{ e: {E} i{i}: Int }} type {M} implements {I} {{ e: {E} i{i}: Int mine{i}: {E} o: {O} }} type {N} implements {I} {{ e: {E} i{i}: Int }}")
            t = r.choice([I, f"[{I}]!"])
            if kind == "iface":
                s = sel(r, r.choice(["e", f"y{i}: e"]), f"i{i}")
            elif kind == "iface_inline":
                s = sel(r, f"i{i}", f"... on {M} {sel(r, f'mine{i}')}")
            elif kind == "iface_inline_deep":
                s = sel(r, f"i{i}", f"... on {M} {sel(r, f'o {inner}')}")
            elif kind == "iface_inner_spread":
                frags.append(f"fragment F{i} on {M} {sel(r, f'mine{i}')}")
                s = sel(r, f"i{i}", f"... on {M} {{ ...F{i} }}")
            else:
                frags.append(f"fragment F{i} on {I} {sel(r, f'i{i}', r.choice(['e', f'... on {M} ' + sel(r, f'mine{i}')]))}")
                s = f"{{ ...F{i} }}"
        elif kind.startswith("fragment"):
            t = r.choice([O, f"[{O}]"])
            frags.append(f"fragment F{i} on {O} {inner}")
            s = f"{{ ...F{i} }}"
            if kind == "fragment_nested":
                frags.append(f"fragment G{i} on {O} {{ o {{ ...F{i} }} }}")
                s = f"{{ ...G{i} }}"
            elif kind == "fragment_mixed":
                s = f"{{ q{i}: n ...F{i} }}"
        elif kind in ("variable", "variable_list", "input", "input_deep", "input_list"):
            vt = {"variable": E, "variable_list": f"[{E}!]!", "input": In, "input_deep": f"Deep{i}", "input_list": f"[{In}]"}[kind]
            if kind == "input_deep":
                sdl.append(f"input Deep{i} {{ w: [Mid{i}!] }} input Mid{i} {{ v: {In}! d: Deep{i} }}")
            q.append(f"{p}(a: {vt}): Int")
            variables.append(f"$v{i}: {vt}")
            root.append(f"{p}(a: $v{i})")
            continue
        elif kind == "root":
            q.append(f"{p}: {r.choice([E, f'[{E}]', E + '!'])}")
            root.append(p)
            continue
        elif kind == "literal":
            s = sel(r, f"m(a: {{e: B}}, e: A)", "n")
        elif kind == "argument":
            s = sel(r, "m", "n")
        elif kind == "unselected":
            s = sel(r, "n", f"o {{ n }}")
        else:
            t = {"list": f"[{O}!]!"}.get(kind, O)
            s = sel(r, f"o {inner}", "n") if kind == "deep" else inner
        q.append(f"{p}: {t}")
        root.append(f"{p} {s}")
    r.shuffle(sdl)
    half = len(root) // 2 if not variables and r.random() < 0.5 else 0
    ops = [root[:half], root[half:]] if half else [root]
    docs = [f"query Q{j}" + (f"({', '.join(variables)})" if variables else "") + " { " + " ".join(x) + " }" for j, x in enumerate(ops)]
    return "\n".join(sdl) + "\ntype Query { " + " ".join(q) + " }", "\n".join(docs + frags)


def placed(ctx):
    """Exactly the types used in some position are generated."""
    r = ctx.rng
    sdl, doc = positions(r)
    schema = build_schema(sdl)
    inputs, enums, _ = needed(schema, parse(doc))
    with gen.Scratch() as sc:
        sp, dg = sc.write("s.graphql", sdl), sc.write("d.graphql", doc)
        plugins = [gen.plug(n) for n in ("enums", "inputs", "fragments", "operations")]
        try:
            code = gen.generate(sp, dg, gen.turms_config(plugins, create_catchall=r.random() < 0.5))
            gen.unload(gen.load(code))
        except Exception as e:
            return ctx.fail("generation failed for a supported schema and document", error=repr(e), cause=repr(e.__cause__), sdl=sdl, documents=doc)
    have = classes(code)
    every = {n for n, t in schema.type_map.items() if isinstance(t, (GraphQLInputObjectType, GraphQLEnumType)) and not n.startswith("__")}
    got = {n for n in every if n in have}
    ctx.count("placed", len(every))
    ctx.observed(("placed", doc))
    ctx.check(got == inputs | enums, "not exactly the needed types are generated", missing=sorted((inputs | enums) - got), needless=sorted(got - inputs - enums), sdl=sdl,
              documents=doc)


def classes(code):
    return {k: v for k, v in meaning(code).items() if not k.startswith("<")}


def case(ctx):
    r = ctx.rng
    for _ in range(2):
        placed(ctx)
    w = world.make_world(f"{ctx.seed}", world.Opts(n_frags=(0, 5), n_ops=(2, 4)))
    plugins, _, kw = confs.random_conf(r, w)
    for p in plugins:
        p.pop("skip_unreferenced", None)
    kw.pop("additional_bases", None)
    stylers = []
    conf = gen.turms_config(plugins, stylers=stylers, **kw)
    schema = w.schema
    docs = [d for _, t in sorted(w.files.items()) for d in parse(t).definitions]
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)

        def attempt(schema, docs, conf):
            try:
                return gen.generate(schema, docs, conf)
            except Exception as e:
                ctx.fail("generation failed for a supported schema and document", error=repr(e), cause=repr(e.__cause__), conf=conf, sdl=open(schema).read(), documents=w.doc_text)
        base = attempt(sp, dg, conf)
        if base is None:
            return
        have = classes(base)
        inputs, enums, _ = needed(schema, parse(w.doc_text))
        ctx.count("pruned")
        everything = {"inputs": {n for n, t in schema.type_map.items() if isinstance(t, GraphQLInputObjectType)},
                      "enums": {n for n, t in schema.type_map.items() if isinstance(t, GraphQLEnumType) and not n.startswith("__")}}
        for kind, want in (("inputs", inputs), ("enums", enums)):
            got = {n for n in everything[kind] if n in have or n + "_" in have}
            ctx.count(kind + "_needed", len(want))
            ctx.count(kind + "_left_out", len(everything[kind] - want))
            if got != want:
                ctx.fail("not exactly the needed types are generated", kind=kind, missing=sorted(want - got), needless=sorted(got - want), conf=conf,
                         sdl=w.sdl, documents=w.doc_text)
                return
        ctx.observed(("pruned", len(inputs), len(enums)), 2)
        # without pruning everything is there, and what was there is the same
        full = attempt(sp, dg, gen.turms_config([dict(p, skip_unreferenced=False) if p["type"].split(".")[-1] in ("EnumsPlugin", "InputsPlugin") else p for p in plugins],
                                                stylers=stylers, **kw))
        if full is None:
            return
        fc = classes(full)
        ctx.count("complete")
        ctx.observed(("complete", len(fc) - len(have)), 1)
        left = [n for k in everything.values() for n in k if n not in fc and n + "_" not in fc]
        changed = [n for n in have if have[n] != fc.get(n)]
        if left or changed:
            ctx.fail("without pruning types are missing or others change", missing=left, changed={n: [have[n], fc.get(n)] for n in changed[:3]}, sdl=w.sdl, documents=w.doc_text)
            return
        # unrelated additions change nothing
        growth = GROWTH.replace("QUERY_ROOT", w.root_types["query"])
        grown = attempt(sc.write("grown.graphql", (w.sdl + growth) if r.random() < 0.5 else (growth + w.sdl)), dg, conf)
        if grown is None:
            return
        ctx.count("grown")
        ctx.observed(("grown", tuple(p["type"] for p in plugins)), 1)
        gc = classes(grown)
        if gc != have:
            ctx.fail("unrelated parts of the schema change the code", changed={n: [have.get(n), gc.get(n)] for n in set(have) | set(gc) if have.get(n) != gc.get(n)},
                     conf=conf, sdl=w.sdl, documents=w.doc_text)
            return
        # fewer operations: what remains is as before
        ops = [d for d in docs if isinstance(d, OperationDefinitionNode)]
        if len(ops) < 2:
            return
        keep = {o.name.value for o in r.sample(ops, r.randint(1, len(ops) - 1))}
        i2, e2, f2 = needed(schema, parse(w.doc_text), keep)
        rest = [d for d in docs if d.name.value in (keep if isinstance(d, OperationDefinitionNode) else f2)]
        less = attempt(sp, sc.write("less.graphql", "\n\n".join(print_ast(d) for d in rest)), conf)
        if less is None:
            return
        ctx.count("reduced")
        lc = meaning(less, comments=False)
        before = meaning(base, comments=False)
        new = [n for n in lc if n not in before]
        changed = [n for n in lc if not n.startswith("<") and lc[n] != before.get(n)]
        ctx.count("kept_definitions", len(lc))
        ctx.observed(("reduced", len(lc), len(before) - len(lc)), len(lc))
        if new or changed or not set(lc.get("<import>", [])) <= set(before.get("<import>", [])):
            ctx.fail("removing operations changes the code of others", new=new, changed={n: [before.get(n), lc[n]] for n in changed[:3]},
                     imports=sorted(set(lc.get("<import>", [])) - set(before.get("<import>", []))), kept=sorted(keep), conf=conf, sdl=w.sdl, documents=w.doc_text)
            return
        got = {n for n in everything["inputs"] | everything["enums"] if n in lc or n + "_" in lc}
        if got != i2 | e2:
            ctx.fail("not exactly the needed types are generated", missing=sorted((i2 | e2) - got), needless=sorted(got - (i2 | e2)), conf=conf,
                     sdl=w.sdl, documents="\n\n".join(print_ast(d) for d in rest))
            return

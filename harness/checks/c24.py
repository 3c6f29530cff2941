"""C24: code depends on what schema and documents say, not on how they are laid out."""
import copy
import os

from graphql import (
    EnumTypeDefinitionNode, EnumTypeExtensionNode, InputObjectTypeDefinitionNode, InputObjectTypeExtensionNode, InterfaceTypeDefinitionNode,
    InterfaceTypeExtensionNode, ObjectTypeDefinitionNode, ObjectTypeExtensionNode, UnionTypeDefinitionNode, UnionTypeExtensionNode, build_schema,
    parse, print_ast, validate,
)
from graphql.language import Lexer, Source, TokenKind

from .. import confs, gen, world
from ..meaning import difference

PROP = "C24"
RULE = ("The definitions of random schemas and documents are shuffled, spread over other files and folders, split into extensions, reprinted, "
        "and rewritten with other white space, commas, comments, line ends and byte order marks. The generated code must define the same things with the same "
        "contents and load; documents in another order carry the same operations. Non-trivial: a compared layout; distinct by the change of layout.")
N_QUICK, N_THOROUGH = 130, 5000
REQUIRE = {"compared": 450, "schema_shuffled": 200, "documents_shuffled": 200, "extensions": 150, "respaced": 200, "crlf": 60, "bom": 60, "loaded": 450}

PARTS = {ObjectTypeDefinitionNode: (ObjectTypeExtensionNode, "fields"), InterfaceTypeDefinitionNode: (InterfaceTypeExtensionNode, "fields"),
         InputObjectTypeDefinitionNode: (InputObjectTypeExtensionNode, "fields"), EnumTypeDefinitionNode: (EnumTypeExtensionNode, "values"),
         UnionTypeDefinitionNode: (UnionTypeExtensionNode, "types")}


def respace(r, text):
    """The same tokens with other insignificant characters between them."""
    lx, out = Lexer(Source(text)), []
    last = None
    while True:
        t = lx.advance()
        if t.kind is TokenKind.EOF:
            break
        raw = text[t.start:t.end]
        gap = r.choice([" ", "\n", "  ", "\t", " , ", ",", "\n\n", " # note\n", ' # "tricky" { ...Not }\n', "\n#\n"])
        if last is not None:
            out.append(gap)
        out.append(raw)
        last = t
    return "".join(out) + r.choice(["", "\n", "\n\n", " # end", "\n # end\n"])


def extend(r, defs, ctx):
    """Move the tails of some definitions into extensions."""
    out = []
    for d in defs:
        spec = PARTS.get(type(d))
        items = list(getattr(d, spec[1]) or ()) if spec else []
        if len(items) > 1 and r.random() < 0.6:
            d = copy.deepcopy(d)
            cut = r.randint(1, len(items) - 1)
            setattr(d, spec[1], tuple(items[:cut]))
            out.append(spec[0](name=d.name, directives=(), interfaces=(), **{spec[1]: tuple(items[cut:])}))
            ctx.count("extensions")
        out.append(d)
    return out


def spread(r, defs, ext=".graphql"):
    n = r.randint(1, 4)
    files = {}
    for d in defs:
        i = r.randrange(n)
        files.setdefault(i, []).append(d)
    names = r.sample(["a", "z", "m/a", "m/z", "deep/er/x", "Upper", "0", "ümlaut", "with space"], len(files))
    return {n + ext: v for n, v in zip(names, files.values())}


def case(ctx):
    r = ctx.rng
    w = world.make_world(f"{ctx.seed}", world.Opts(n_frags=(1, 6), n_ops=(1, 4)))
    kind = r.random()
    if kind < 0.8:
        plugins, stylers, kw = confs.random_conf(r, w)
    else:
        plugins, stylers, kw = [gen.plug("enums", skip_unreferenced=False), gen.plug("inputs", skip_unreferenced=False), gen.plug("objects")], [], {"skip_forwards": False}
    conf = gen.turms_config(plugins, stylers=stylers, **kw)
    sdefs, ddefs = list(parse(w.sdl).definitions), [d for _, t in sorted(w.files.items()) for d in parse(t).definitions]
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)
        try:
            base = gen.generate(sp, dg, conf)
        except Exception as e:
            ctx.fail("generation failed for a supported schema and document", error=repr(e), conf=conf, sdl=w.sdl, documents=w.doc_text)
            return
        for v in range(5):
            what = []
            text = {}
            ss, dd = list(sdefs), list(ddefs)
            if r.random() < 0.3:
                ss = extend(r, ss, ctx)
                what.append("extensions")
            if r.random() < 0.5:
                r.shuffle(ss)
                what.append("schema order")
                ctx.count("schema_shuffled")
            if r.random() < 0.6:
                r.shuffle(dd)
                what.append("document order")
                ctx.count("documents_shuffled")
            for root, files in (("s", spread(r, ss) if r.random() < 0.5 else {"one.graphql": ss}), ("d", spread(r, dd) if r.random() < 0.7 else {"one.graphql": dd})):
                for n, ds in files.items():
                    t = "\n\n".join(print_ast(d) for d in ds) + r.choice(["", "\n"])
                    if r.random() < 0.4:
                        t2 = respace(r, t)
                        if [print_ast(x) for x in parse(t2).definitions] == [print_ast(x) for x in ds]:
                            t = t2
                            what.append("spacing")
                            ctx.count("respaced")
                    if r.random() < 0.15:
                        t = t.replace("\n", r.choice(["\r\n", "\r"]))
                        what.append("line ends")
                        ctx.count("crlf")
                    if r.random() < 0.15:
                        t = "\ufeff" + t
                        what.append("bom")
                        ctx.count("bom")
                    p = sc.join(f"v{v}", root, n)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w", encoding="utf-8", newline="") as f:
                        f.write(t)
                    text[f"{root}/{n}"] = t
            ordered = "\n".join(text[k].lstrip("\ufeff") for k in sorted(text) if k.startswith("d/"))
            if validate(w.schema, parse(ordered)):
                ctx.count("skipped_order")      # graphql-core judges merging by order
                continue
            try:
                code = gen.generate(sc.join(f"v{v}", "s", "**", "*.graphql"), sc.join(f"v{v}", "d", "**", "*.graphql"), conf)
            except Exception as e:
                ctx.fail("another layout is refused", layout=what, error=repr(e), cause=repr(e.__cause__), files=text, conf=conf)
                return
            ctx.count("compared")
            ctx.observed((tuple(sorted(set(what))), tuple(p["type"].split(".")[-1] for p in plugins)))
            d = difference(base, code, comments=False)
            if d:
                ctx.fail("the code depends on the layout of its sources", layout=what, difference=d, conf=conf, files=text, sdl=w.sdl, documents=w.doc_text)
                return
            try:
                gen.unload(gen.load(code))
                ctx.count("loaded")
            except Exception as e:
                ctx.fail("the code of another layout does not load", layout=what, error=repr(e), code=code, files=text)
                return

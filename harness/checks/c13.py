"""C13: regenerating through the merge processor keeps hand-written code and brings in the new schema."""
import ast
import os
import textwrap

from .. import evolve, gen, world

PROP = "C13"
RULE = ("A project with the merge processor lives through a random history: generate, edit by hand (bodies, async resolvers, helpers, members, fields, imports, "
        "bases, comments), change the schema, generate again, edit again. After every generation: each hand-written statement, body and comment is still there "
        "exactly once, everything a fresh generation defines is there (imports, bases, fields, members, signatures), nothing is defined twice, the module "
        "loads, and generating once more changes nothing. Non-trivial: a generation after an edit or a change; distinct by (plugins, edits, changes).")
N_QUICK, N_THOROUGH = 180, 4000
REQUIRE = {"merges": 200, "edits": 600, "bodies_kept": 250, "comments_kept": 150, "helpers_kept": 80, "definitions_arrived": 1500, "changes": 200, "loaded": 200, "idempotent": 200,
           "unedited": 8, "enum_values": 25, "new_imports": 4}


def plugins_for(r):
    k = r.choice(["strawberry", "strawberry", "strawberry", "objects", "client"])
    if k == "strawberry":
        return k, [gen.plug("strawberry")]
    if k == "objects":
        return k, [gen.plug("enums", skip_unreferenced=False), gen.plug("inputs", skip_unreferenced=False), gen.plug("objects")]
    return k, [gen.plug("enums", skip_unreferenced=False), gen.plug("inputs", skip_unreferenced=False), gen.plug("input_funcs", skip_unreferenced=False)]


def case(ctx):
    r = ctx.rng
    w = world.make_world(f"{ctx.seed}", world.Opts(conventional=True, keywords=False, oneof=False, union_element=False, deprecated=False, n_ops=(1, 1), n_frags=(0, 0), n_fields=(1, 4)))
    kind, plugins = plugins_for(r)
    stylers = [gen.styler("snake")] if r.random() < 0.5 else []
    before = r.choice([[], ["turms.processors.black.BlackProcessor"], ["turms.processors.disclaimer.DisclaimerProcessor", "turms.processors.black.BlackProcessor", "turms.processors.isort.IsortProcessor"]])
    formatted = [{"type": p} for p in before]
    seq, edits_done = [0], []
    with gen.Scratch() as sc:
        out = sc.join("api", "out.py")
        os.makedirs(os.path.dirname(out))
        base = gen.turms_config(plugins, stylers, skip_forwards=True, always_resolve_interfaces=False, scalar_definitions={**scalars(), "ID": "str"})
        fresh_conf = dict(base, processors=formatted)
        conf = dict(base, processors=formatted + [{"type": "turms.processors.merge.MergeProcessor"}], out_dir=os.path.dirname(out), generated_name="out.py")

        def generate(w, c):
            sp = sc.write("schema.graphql", w.sdl)
            return gen.generate(sp, None, c)
        current, edited = None, []
        for turn in range(r.randint(2, 4)):
            if turn:
                if r.random() < 0.75:
                    n = evolve.evolve(w, r)
                    if n is not None:
                        w = n
                        ctx.count("changes", len(n.changes))
                        edited += [c[0] for c in n.changes]
            try:
                new = generate(w, fresh_conf)
                gen.unload(gen.load(new))
            except Exception as e:
                return                  # judged by other checks
            try:
                got = generate(w, conf)
            except Exception as e:
                ctx.fail("merging fails", error=repr(e), cause=repr(e.__cause__), old=current, new=new)
                return
            info = dict(old=current, new=new, merged=got, edits=edits_done, plugins=kind)
            if current is None:
                if ast.dump(ast.parse(got)) != ast.dump(ast.parse(new)):
                    ctx.fail("the first generation is not the generated code", **info)
                    return
            else:
                ctx.count("merges")
                ctx.observed((kind, tuple(sorted(set(edited))), len(before)))
                if not judge(ctx, current, new, got, info):
                    return
            with open(out, "w", encoding="utf-8") as f:
                f.write(got)
            again = generate(w, conf)
            ctx.count("idempotent")
            if again != got:
                ctx.fail("generating again without a change changes the code", again=again, **info)
                return
            current = got
            for _ in range(r.choice([0, 0, 1, 2, 3, 4, 5, 6])):
                text, what = edit(r, current, seq)
                try:
                    compile(text, "edited", "exec")
                    gen.unload(gen.load(text))
                except Exception:
                    continue
                current = text
                ctx.count("edits")
                edits_done.append(what)
                edited.append(what)
            with open(out, "w", encoding="utf-8") as f:
                f.write(current)


def scalars():
    return dict(world.CUSTOM_SCALARS)


# ---- what a module consists of ------------------------------------------

def name_of(s):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return s.name
    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
        return s.target.id
    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
        return s.targets[0].id
    return None


def names(body):
    return [n for n in map(name_of, body) if n]


def imports(tree):
    out = set()
    for s in tree.body:
        if isinstance(s, ast.Import):
            out |= {("", a.name, a.asname) for a in s.names}
        elif isinstance(s, ast.ImportFrom):
            out |= {(s.module, a.name, a.asname) for a in s.names}
    return out


def d(*nodes):
    return [ast.dump(n) for n in nodes]


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


def judge(ctx, old, new, got, info):
    def fail(what, **kw):
        ctx.fail(what, **kw, **info)
        return False
    o, n = ast.parse(old), ast.parse(new)
    try:
        g = ast.parse(got)
    except SyntaxError as e:
        return fail("the merged module is not valid", error=repr(e))
    if ast.dump(o) == ast.dump(n):
        ctx.count("unedited")
        if ast.dump(g) != ast.dump(o):
            return fail("merging the same code changes it")
    if imports(o) - imports(g):
        return fail("imports got lost", lost=sorted(map(str, imports(o) - imports(g))))
    ctx.count("new_imports", len(imports(n) - imports(o)))
    if imports(n) - imports(g):
        return fail("imports of the generated code are missing", missing=sorted(map(str, imports(n) - imports(g))))
    if not body(ctx, o.body, n.body, g.body, "module", fail):
        return False
    lines = [x.strip() for x in got.split("\n")]
    for x in old.split("\n"):
        if "kept-" in x and "#" in x:           # a comment written by an edit
            note = x[x.index("#"):].strip()
            ctx.count("comments_kept")
            hits = sum(y.endswith(note) for y in lines)
            if hits != 1:
                return fail("a comment is not there once", comment=note, hits=hits)
    try:
        gen.unload(gen.load(got))
    except Exception as e:
        return fail("the merged module does not load", error=repr(e))
    ctx.count("loaded")
    return True


def body(ctx, old, new, got, where, fail):
    """Judge the statements of a module or class."""
    on, nn, gn = names(old), names(new), names(got)
    for x in set(on) | set(nn):
        want = max(on.count(x), 1) if x in on else 1
        if gn.count(x) != want:
            return fail("a definition is not there as often as before", name=x, where=where, count=gn.count(x), expected=want)
    if set(gn) - set(on) - set(nn):
        return fail("something is defined which nobody defined", names=sorted(set(gn) - set(on) - set(nn)), where=where)
    if [x for x in gn if x in on] != on:
        return fail("the order of the existing definitions changed", where=where, before=on, after=gn)
    # statements without a name
    plain = [s for s in old if name_of(s) is None and not isinstance(s, (ast.Import, ast.ImportFrom))]
    left = d(*got)
    for s in plain:
        if ast.dump(s) not in left:
            return fail("a statement got lost", statement=ast.unparse(s), where=where)
        left.remove(ast.dump(s))
    G = {name_of(s): s for s in got if name_of(s)}
    O = {name_of(s): s for s in old if name_of(s)}
    N = {name_of(s): s for s in new if name_of(s)}
    for x, s in O.items():
        m = G[x]
        if type(s) is not type(m) and not (isinstance(s, FUNC) and isinstance(m, FUNC)) and x not in N:
            return fail("a definition changed its kind", name=x, where=where)
        if isinstance(s, FUNC) and isinstance(m, FUNC):
            ctx.count("bodies_kept")
            if d(*s.body) != d(*m.body):
                return fail("the body of a function changed", name=x, where=where)
            if isinstance(s, ast.AsyncFunctionDef) and not isinstance(m, ast.AsyncFunctionDef):
                return fail("a function is no longer async", name=x, where=where)
        if x not in N or (isinstance(s, ast.Assign)):
            ctx.count("helpers_kept")
            if ast.dump(s) != ast.dump(m):
                return fail("hand-written code changed", name=x, where=where, before=ast.unparse(s), after=ast.unparse(m))
        if isinstance(s, ast.ClassDef) and isinstance(m, ast.ClassDef):
            lost = [b for b in d(*s.bases) if b not in d(*m.bases)]
            if lost:
                return fail("a class lost bases", name=x, lost=lost)
            if d(*s.decorator_list) != d(*m.decorator_list):
                return fail("a class changed its decorators", name=x)
    for x, s in N.items():
        m = G[x]
        ctx.count("definitions_arrived")
        if isinstance(s, ast.ClassDef):
            if not isinstance(m, ast.ClassDef):
                continue
            if x not in O:
                if ast.dump(s) != ast.dump(m):
                    return fail("a new class is not the generated one", name=x)
                continue
            if [b for b in d(*s.bases) if b not in d(*m.bases)]:
                return fail("a class lacks generated bases", name=x, merged=ast.unparse(m).split("\n")[:2])
            if any("Enum" in ast.unparse(b) for b in s.bases):
                ctx.count("enum_values", len(set(names(s.body)) - set(names(O[x].body))))
            if not body(ctx, O[x].body, s.body, m.body, f"{where}.{x}", fail):
                return False
        elif isinstance(s, FUNC) and isinstance(m, FUNC):
            same = ast.dump(s.args) == ast.dump(m.args) and ast.unparse(s.returns or ast.Pass()) == ast.unparse(m.returns or ast.Pass()) and d(*s.decorator_list) == d(*m.decorator_list)
            if not same or (x not in O and d(*s.body) != d(*m.body)):
                return fail("a function does not have its generated signature", name=x, where=where, generated=ast.unparse(s), merged=ast.unparse(m))
        elif isinstance(s, ast.AnnAssign) and isinstance(m, ast.AnnAssign):
            if ast.dump(s) != ast.dump(m):
                return fail("a field is not the generated one", name=x, where=where, generated=ast.unparse(s), merged=ast.unparse(m))
        elif x not in O and ast.dump(s) != ast.dump(m):
            return fail("a new definition is not the generated one", name=x, where=where)
    return True


# ---- hand-written edits --------------------------------------------------

BLOCKS = ['if len("{k}") > 1:\n    # kept-{k}\n    {N} = 1\nelse:\n    {N} = 2',
          'try:\n    import _no_such_{k} as {N}\nexcept ImportError:  # kept-{k}\n    {N} = None',
          'for {N} in ({k}, 2):\n    # kept-{k}\n    pass',
          'while False:\n    {N} = {k}  # kept-{k}',
          'with __import__("contextlib").suppress(KeyError):\n    # kept-{k}\n    {N} = {{}}["{k}"]']
CLASS_BLOCKS = ["class _Inner{k}:\n    # kept-{k}\n    value = {k}", "@staticmethod\ndef inner_{k}(x):\n    return x  # kept-{k}",
                "@classmethod\nasync def load_{k}(cls):\n    return cls  # kept-{k}"]
LOOSE = ["left_{k}, right_{k} = {k}, 2  # kept-{k}", "one_{k} = two_{k} = {k}  # kept-{k}", "limit_{k}: int = {k}  # kept-{k}", "sum_{k} = 1; sum_{k} += {k}  # kept-{k}",
         "assert {k} < {k} + 1, 'never'  # kept-{k}", "print  # kept-{k}", "temp_{k} = 3\ndel temp_{k}  # kept-{k}",
         "@__import__('functools').lru_cache(maxsize={k})\ndef cached_{k}(x):\n    # kept-{k}\n    return x\n",
         "async def serve_{k}():\n    # kept-{k}\n    return {k}\n", "lambda_{k} = lambda x, y={k}: (x, y)  # kept-{k}"]
PROPERTY = "@property\ndef extra_{k}(self):\n    # kept-{k}\n    return {k}\n\n@extra_{k}.setter\ndef extra_{k}(self, value):\n    pass\n"

def edit(r, text, seq):
    """(edited text, kind of the edit)."""
    seq[0] += 1
    k = seq[0]
    tree = ast.parse(text)
    lines = text.split("\n")
    classes = [s for s in tree.body if isinstance(s, ast.ClassDef)]
    functions = [(c, f) for c in classes for f in c.body if isinstance(f, FUNC)] + [(None, f) for f in tree.body if isinstance(f, FUNC)]
    what = r.choice(["body", "body", "body", "async", "helper", "method", "field", "constant", "import", "base", "header", "footer", "note", "note", "trailing", "trailing", "helper_class", "branch",
                     "class_constant", "scalar", "branch", "class_block", "class_block", "loose", "property"])

    def insert(at, block, indent=0):
        pad = " " * indent
        lines[at:at] = [pad + x if x else x for x in block.split("\n")]

    def top():
        """A line in front of a top-level statement behind the imports."""
        c = [s for s in tree.body if not isinstance(s, (ast.Import, ast.ImportFrom, ast.Expr))]
        s = r.choice(c) if c else None
        if s is None or r.random() < 0.2:
            return len(lines)
        return min([s.lineno] + [x.lineno for x in getattr(s, "decorator_list", [])]) - 1
    if what in ("body", "async") and functions:
        c, f = r.choice(functions)
        if what == "async" and isinstance(f, ast.AsyncFunctionDef):
            what = "body"
        ind = f.body[0].col_offset
        block = r.choice([
            f'value_{k} = "x{k}"  # kept-{k}\nreturn None',
            f'# kept-{k}\nif True:\n    return [{k}]\nreturn None',
            f'"""kept {k}"""\ntry:\n    # kept-{k}\n    return helper({k})\nfinally:\n    pass',
            f'def inner_{k}(a, *b, **c):\n    return a\n\n# kept-{k}\nreturn inner_{k}({k})'])
        if f.body[0].lineno == f.lineno:
            return text, what
        if what == "async":
            block = f"await sleep({k})\n" + block.replace("return", "yield") if "AsyncGen" in ast.unparse(f.returns or ast.Pass()) else f"# kept-{k}\nreturn await load({k})"
            head = lines[f.lineno - 1]
            lines[f.lineno - 1] = head.replace("def ", "async def ", 1)
        lines[f.body[0].lineno - 1:f.end_lineno] = [(" " * ind + x) if x else x for x in block.split("\n")]
    elif what == "helper":
        insert(top(), f'def helper_{k}(x, *, y={k}):\n    # kept-{k}\n    return [x, y]\n\n')
    elif what == "helper_class":
        insert(top(), f'class Helper{k}:\n    """kept {k}"""\n\n    value = {k}  # kept-{k}\n\n    def act(self):\n        return self.value\n\n')
    elif what == "constant":
        insert(top(), f'CONSTANT_{k} = {{"a": [{k}, 2]}}  # kept-{k}\n')
    elif what == "branch":
        insert(top(), r.choice(BLOCKS).format(k=k, N=f"BRANCH_{k}") + "\n")
    elif what == "loose":
        insert(top(), r.choice(LOOSE).format(k=k))
    elif what == "import":
        first = next((s.lineno - 1 for s in tree.body if isinstance(s, (ast.Import, ast.ImportFrom))), None)
        if first is not None:
            insert(first, r.choice([f"import math as math_{k}", f"from collections import OrderedDict as Ordered{k}", f"from os import (\n    path as path_{k},  # kept-{k}\n    sep as sep_{k},\n)"]))
    elif what in ("method", "field", "class_constant", "class_block", "property") and classes:
        c = r.choice(classes)
        c_enum = any("Enum" in ast.unparse(b) for b in c.bases)
        block = {"method": f'def extra_{k}(self, a=None):\n    # kept-{k}\n    return a\n', "field": f"extra_field_{k}: str = \"{k}\"  # kept-{k}", "class_constant": f"_extra_{k} = {k}  # kept-{k}",
                 "class_block": r.choice(BLOCKS + CLASS_BLOCKS).format(k=k, N=f"_extra_{k}"),
                 "property": PROPERTY.format(k=k)}[what]
        if c_enum and what not in ("method", "property"):
            return text, what
        inner = [s for s in c.body if s.lineno > c.lineno]
        if inner and len(inner) == len(c.body):
            s = r.choice(inner[1:] or inner)
            at = min([s.lineno] + [x.lineno for x in getattr(s, "decorator_list", [])]) - 1 if r.random() < 0.6 else s.end_lineno
            insert(at, block, c.body[0].col_offset)
    elif what == "base" and classes:
        c = r.choice(classes)
        if c.bases and lines[c.lineno - 1].rstrip().endswith(":") and not any("Enum" in ast.unparse(b) for b in c.bases):
            lines[c.lineno - 1] = lines[c.lineno - 1].replace("(", f"(Mixin{k}, ", 1)
            at = min([c.lineno] + [x.lineno for x in c.decorator_list]) - 1
            insert(at, f"class Mixin{k}:\n    pass\n\n")
    elif what == "header":
        insert(0, f"# kept-{k}: licence")
    elif what == "footer":
        if lines and not lines[-1]:
            lines.pop()
        lines += [f"# kept-{k}: the end", ""]
    elif what == "note" and classes:
        c = r.choice(classes)
        s = r.choice([c] + [x for x in c.body if isinstance(x, (ast.AnnAssign, ast.Assign))])
        at = min([s.lineno] + [x.lineno for x in getattr(s, "decorator_list", [])]) - 1
        insert(at, f"# kept-{k}", s.col_offset)
    elif what == "trailing" and classes:
        c = r.choice(classes)
        s = r.choice([x for x in c.body if isinstance(x, (ast.AnnAssign, ast.Assign))] or [None])
        if s is not None and "#" not in lines[s.end_lineno - 1]:
            lines[s.end_lineno - 1] += f"  # kept-{k}"
    elif what == "scalar":
        c = [s for s in tree.body if isinstance(s, ast.Assign) and "strawberry.scalar" in ast.unparse(s)]
        if c:
            s = r.choice(c)
            lines[s.lineno - 1:s.end_lineno] = [f'{s.targets[0].id} = strawberry.scalar(NewType("{s.targets[0].id}", str), serialize=str)  # kept-{k}']
    return "\n".join(lines), what


def nested():
    """The classes nested in an existing operation are not merged: its document stays the old one."""
    with gen.Scratch() as sc:
        out = sc.join("api", "out.py")
        os.makedirs(os.path.dirname(out))
        conf = gen.turms_config([gen.plug("operations")], [], processors=[{"type": "turms.processors.merge.MergeProcessor"}], out_dir=os.path.dirname(out), generated_name="out.py")
        sp = sc.write("schema.graphql", "type Query { a: A } type A { x: Int! y: Int! }")
        for fields in ("x", "x y"):
            dp = sc.write("q.graphql", "query Q { a { %s } }" % fields)
            code = gen.generate(sp, dp, conf)
            with open(out, "w", encoding="utf-8") as f:
                f.write(code)
        mod = gen.load(code)
        try:
            return None if " y\n" in mod.Q.Meta.document else "document of an operation kept: lacks y"
        finally:
            gen.unload(mod)


PROBES = {"merge-nested-classes": nested}

"""Schemas change: a later version of a random world's schema."""
import copy

from graphql import build_schema, validate_schema

from . import world
from .world import A, F, named


def evolve(w, rng, tries=30):
    """(sdl, schema) of a changed world, definitions in the order of w.parts as far as they existed, and what changed."""
    for _ in range(tries):
        n = copy.deepcopy(w)
        n.rng = rng
        log = []
        for _ in range(rng.randint(1, 5)):
            step(n, rng, log)
        old_names = [head(p) for p in w.parts]
        parts = {head(p): p for p in n.sdl_parts()}
        order = [x for x in old_names if x in parts]
        for x in parts:
            if x not in order:
                order.insert(rng.randint(0, len(order)), x)
        n.parts = [parts[x] for x in order]
        n.sdl = "\n".join(n.parts)
        try:
            n.schema = build_schema(n.sdl)
        except Exception:
            continue
        if validate_schema(n.schema) or not log:
            continue
        n.changes = log
        return n
    return None


def head(part):
    """Kind and name of a definition, without its description."""
    import re
    text = re.sub(r'^\s*""".*?"""\s*(?=\w)', "", part, count=1, flags=re.S) if part.lstrip().startswith('"""') else part
    return " ".join(text.split("{")[0].split()[:2])


def iface_fields(n, o):
    return {f.name for i in n.obj_ifaces[o] for f in n.interfaces[i]}


def step(n, r, log):
    kind = r.choice(["field", "field", "field", "drop", "type", "retype", "arg", "arg", "value", "value", "input_field", "input", "root", "root", "describe", "implement", "enum", "scalar"])
    objs = list(n.objects)
    out = objs + list(n.interfaces) + list(n.unions)
    if kind == "field" and objs:
        o = r.choice(objs)
        for x in n.field_names(1, [f.name for f in n.objects[o]]):
            n.objects[o].insert(r.randint(0, len(n.objects[o])), F(x, n.wrap(r.choice(out) if r.random() < 0.5 else n.leaf()), n.args() if r.random() < 0.3 else [], n.description(), None))
            log.append(("field", o, x))
    elif kind == "drop" and objs:
        o = r.choice(objs)
        c = [f for f in n.objects[o] if f.name not in iface_fields(n, o)]
        if len(n.objects[o]) > 1 and c:
            n.objects[o].remove(r.choice(c))
            log.append(("drop", o))
    elif kind == "type":
        t = n.type_name()
        n.objects[t] = [F(x, n.wrap(r.choice(out + [t]) if r.random() < 0.4 else n.leaf()), [], n.description(), None) for x in n.field_names(r.randint(1, 4))]
        n.obj_ifaces[t] = []
        log.append(("type", t))
        k = r.choice(list(n.roots))
        for x in n.field_names(1, [f.name for f in n.roots[k]]):
            n.roots[k].append(F(x, n.wrap(t), [], None, None))
    elif kind == "retype" and objs:
        o = r.choice(objs)
        c = [f for f in n.objects[o] if f.name not in iface_fields(n, o)]
        if c:
            f = r.choice(c)
            f.type = n.wrap(n.leaf())
            log.append(("retype", o, f.name))
    elif kind == "arg":
        k = r.choice(list(n.roots))
        f = r.choice(n.roots[k])
        for x in n.field_names(1, [a.name for a in f.args]):
            f.args.append(A(x, r.choice(["Int", "String!", "[ID!]", "Boolean"]), None, n.description()))
            log.append(("arg", k, f.name, x))
    elif kind == "value" and n.enums:
        e = r.choice(list(n.enums))
        c = [x for x in n.enum_words if x not in n.enums[e]]
        if c:
            v = r.choice(c)
            n.enums[e].insert(r.randint(0, len(n.enums[e])), v)
            n.enum_meta[e][v] = (n.description(), None)
            log.append(("value", e, v))
    elif kind == "input_field" and n.inputs:
        i = r.choice([i for i in n.inputs if not n.input_meta[i].get("oneof")] or [None])
        for x in n.field_names(1, [f.name for f in n.inputs[i]]) if i else ():
            n.inputs[i].append(A(x, r.choice(["Int", "String!", "[ID!]", "Boolean"]), None, n.description()))
            log.append(("input_field", i, x))
    elif kind == "input":
        t = n.type_name("Input")
        n.inputs[t] = [A(x, r.choice(["Int", "String!", "[ID!]", "Boolean"]), None, n.description()) for x in n.field_names(r.randint(1, 3))]
        n.input_meta[t] = {}
        k = r.choice(list(n.roots))
        f = r.choice(n.roots[k])
        for x in n.field_names(1, [a.name for a in f.args]):
            f.args.append(A(x, r.choice([t, t + "!"]), None, None))
            log.append(("input", t))
    elif kind == "root":
        k = r.choice(list(n.roots))
        for x in n.field_names(1, [f.name for f in n.roots[k]]):
            n.roots[k].insert(r.randint(0, len(n.roots[k])), F(x, n.wrap(r.choice(out)), n.args() if r.random() < 0.5 else [], n.description(), None))
            log.append(("root", k, x))
    elif kind == "describe" and objs:
        o = r.choice(objs)
        r.choice(n.objects[o]).desc = "Another description."
        log.append(("describe", o))
    elif kind == "implement" and objs:
        o, t = r.choice(objs), n.type_name("Like")
        f = r.choice(n.objects[o])
        n.interfaces[t] = [F(f.name, f.type, f.args, None, None)]
        n.iface_parents[t] = []
        n.obj_ifaces[o] = n.obj_ifaces[o] + [t]
        log.append(("implement", o, t))
    elif kind == "enum" and objs:
        e = n.type_name("Kind")
        n.enums[e] = r.sample(n.enum_words, 2)
        n.enum_meta[e] = {v: (n.description(), None) for v in n.enums[e]}
        o = r.choice(objs)
        for x in n.field_names(1, [f.name for f in n.objects[o]]):
            n.objects[o].append(F(x, n.wrap(e), [], None, None))
            log.append(("enum", e))
    elif kind == "scalar" and objs:
        c = [s for s in world.CUSTOM_SCALARS if s not in n.scalars]
        if c:
            s = r.choice(c)
            n.scalars.append(s)
            o = r.choice(objs)
            for x in n.field_names(1, [f.name for f in n.objects[o]]):
                n.objects[o].append(F(x, n.wrap(s), [], None, None))
                log.append(("scalar", s))

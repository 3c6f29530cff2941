"""Seeded random GraphQL "worlds": a schema plus client documents for it.

Everything is derived from one random.Random, so a case is replayed from its
seed.  The generator walks a plain-Python model of the schema; graphql-core is
used only as the reference (build_schema / validate / execute), never turms.
"""
from __future__ import annotations

import random
import re
from dataclasses import dataclass, field as dc_field
from typing import Dict, List, Optional, Tuple

from graphql import (
    GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList,
    GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType,
    build_schema, get_named_type, parse, validate,
)

KEYWORD_FIELDS = ["in", "from", "class", "import", "is", "not", "or", "and", "lambda",
                  "def", "pass", "global", "return", "async", "await", "None", "True", "yield", "with"]
WORDS = ["URL", "Name", "name", "title", "firstName", "lastName", "createdAt", "count", "size", "total_count",
         "isActive", "kind", "label", "owner", "parent", "children", "items", "URLValue", "htmlBody",
         "x", "y2", "rating", "score", "tags", "note", "state", "version", "ref", "data2",
         "longFieldName", "snake_case_name", "mixedCase_name", "ABTest", "zipCode", "street",
         "_id", "_internalState", "city", "amount", "price", "currency", "email", "phone", "status", "level", "depth"]
TYPE_WORDS = ["Cat", "Dog", "user", "Image", "Video", "Post", "order_item", "Account", "Beast", "Layer",
              "Node", "HTTPServer", "Country", "City", "capsule", "Rocket", "Mission", "Ship", "Review",
              "Product", "cart_line", "Shelf", "Book", "Author", "Tag", "Event", "Robot", "Sensor",
              "Track", "Album", "Artist", "Reading"]
ENUM_WORDS = ["RED", "GREEN", "BLUE", "asc", "desc", "Ascending", "LEVEL_1", "UP", "DOWN", "North", "SOUTH",
              "open", "closed", "PENDING", "DONE2", "A", "b", "mixedCase", "UPPER_SNAKE", "trailing_"]
FRAG_WORDS = ["Core", "detail", "listing", "Mini", "full", "Card", "row", "Summary", "Preview", "Item"]
# names which need care: python keywords, underscores in odd places, unusual cases
# (other keywords than fields are called: a class may not be called like a field of its type)
ODD_NAMES = ["del", "raise", "try", "while", "else", "except", "for", "if", "False", "break", "continue",
             "A__B", "x__y", "Kind_", "T_1", "aB", "XMLHttp2Node", "ABC", "z", "snake_type_2", "Very_Odd__Name_"]
OP_VERBS = ["get", "List", "fetch", "Load", "search", "Watch", "update", "Create", "remove", "sync"]

CUSTOM_SCALARS = {
    # name -> (python mapping, generator of canonical wire values)
    "UUID": "uuid.UUID",
    "DateTime": "datetime.datetime",
    "Date": "datetime.date",
    "JSON": "typing.Any",
    "Slug": "str",
    "BigInt": "int",
}


@dataclass
class Opts:
    """Which features the generator may use.  Checks narrow these."""
    custom_scalars: bool = True
    keywords: bool = True
    interfaces: bool = True
    unions: bool = True
    inputs: bool = True
    input_recursion: bool = True
    enums: bool = True
    mutations: bool = True
    subscriptions: bool = True
    fragments: bool = True
    aliases: bool = True
    descriptions: bool = True
    deprecated: bool = True
    defaults: bool = True
    variables: bool = True
    interface_inheritance: bool = True
    underscore_fragment_names: bool = True
    comments: bool = True
    odd_names: bool = True         # types, fragments and operations called like keywords and the like
    n_objects: Tuple[int, int] = (2, 5)
    n_fields: Tuple[int, int] = (1, 6)
    n_root: Tuple[int, int] = (2, 5)
    n_ops: Tuple[int, int] = (1, 4)
    n_frags: Tuple[int, int] = (0, 5)
    max_depth: int = 3
    list_depth: int = 2
    directives: bool = True        # @include / @skip on nullable selections
    multi_file: bool = True
    oneof: bool = True
    union_element: bool = True
    mixed_case_collide: bool = False
    duplicates: bool = True        # the same leaf selected directly and through fragments
    union_fragments: bool = True
    nested_inline: bool = True     # inline fragments within selections on objects and within inline fragments
    fragment_variables: bool = True
    custom_roots: bool = True      # root types called otherwise
    extra_types: bool = True       # unreferenced types
    words: Tuple[str, ...] = ()    # further names of fields, arguments and variables
    conventional: object = False   # True: PascalCase types, camelCase fields, UPPER_CASE values; "types": only the first


@dataclass
class F:
    name: str
    type: str                     # SDL type text
    args: List["A"] = dc_field(default_factory=list)
    desc: Optional[str] = None
    deprecated: Optional[str] = None


@dataclass
class A:
    name: str
    type: str
    default: Optional[str] = None  # SDL literal
    desc: Optional[str] = None
    deprecated: Optional[str] = None


def named(t: str) -> str:
    return t.replace("[", "").replace("]", "").replace("!", "")


class World:
    def __init__(self, rng: random.Random, opts: Optional[Opts] = None):
        self.rng = rng
        self.o = opts or Opts()
        self.words, self.type_words, self.enum_words = WORDS, TYPE_WORDS, ENUM_WORDS
        if self.o.words:
            self.words = self.words + list(self.o.words) * 3
        if self.o.conventional is True:
            self.words = [x for x in self.words if x[0].islower() and x.isalnum() and not any(a.isupper() and b.isupper() for a, b in zip(x, x[1:]))]
        if self.o.conventional:
            self.type_words = [x for x in TYPE_WORDS if x[0].isupper() and x[1:].islower() and x.isalpha()]
        if self.o.conventional is True:
            self.enum_words = [x for x in ENUM_WORDS if x.isupper() and len(x) > 1]
        self.scalars: List[str] = []
        self.enums: Dict[str, List[str]] = {}
        self.enum_meta: Dict[str, dict] = {}
        self.inputs: Dict[str, List[A]] = {}
        self.input_meta: Dict[str, dict] = {}
        self.interfaces: Dict[str, List[F]] = {}
        self.iface_parents: Dict[str, List[str]] = {}
        self.objects: Dict[str, List[F]] = {}
        self.obj_ifaces: Dict[str, List[str]] = {}
        self.unions: Dict[str, List[str]] = {}
        self.roots: Dict[str, List[F]] = {}
        self.desc: Dict[str, str] = {}
        self.used_types = set()
        self._type_seq = 0
        self.sdl = ""
        self.schema = None
        self.fragments: Dict[str, Tuple[str, str]] = {}   # name -> (type, text)
        self.operations: Dict[str, Tuple[str, str]] = {}  # name -> (kind, text)
        self.files: Dict[str, str] = {}
        self.features = set()
        self.member_scopes = {}     # (scope of the union, member) -> scope of the member's selection

    # ---- naming ----------------------------------------------------------
    def odd_name(self, taken, p=0.08) -> Optional[str]:
        if self.o.odd_names and not self.o.conventional and self.rng.random() < p:
            n = self.rng.choice(ODD_NAMES)
            key = n.lower().replace("_", "")
            if key not in taken:
                taken.add(key)
                self.features.add("odd_name")
                return n
        return None

    def type_name(self, suffix="") -> str:
        odd = self.odd_name(self.used_types)
        if odd:
            return odd
        for _ in range(200):
            n = self.rng.choice(self.type_words)
            if self.rng.random() < 0.3:
                n = n + self.rng.choice(self.type_words).capitalize()
            n += suffix
            # distinct even when case and underscores are ignored
            key = n.lower().replace("_", "")
            if key not in self.used_types:
                self.used_types.add(key)
                return n
        self._type_seq += 1
        n = f"T{self._type_seq}{suffix}"
        self.used_types.add(n.lower())
        return n

    def field_names(self, k: int, taken=()) -> List[str]:
        out, seen = [], {t.lower().replace("_", "") for t in taken}
        tries = 0
        while len(out) < k and tries < 300:
            tries += 1
            if self.o.keywords and self.rng.random() < 0.08:
                n = self.rng.choice(KEYWORD_FIELDS)
            else:
                n = self.rng.choice(self.words)
                if self.rng.random() < 0.15:
                    n = n + str(self.rng.randint(0, 9))
            key = n.lower().replace("_", "")
            if key in seen:
                continue
            seen.add(key)
            out.append(n)
        return out

    def description(self) -> Optional[str]:
        if not self.o.descriptions or self.rng.random() > 0.35:
            return None
        return self.rng.choice([
            "The thing.", "A longer description, with punctuation: 'quotes' and \\\\ backslash",
            "multi\nline description\nhere", "unicode \u00e4\u00f6\u00fc \u2713 \U0001F600", "ends with quote \"",
            "# looks like a comment", "tripple ''' single", "100% {braces} %s", "  between blanks ",
        ])

    def depr(self) -> Optional[str]:
        if not self.o.deprecated or self.rng.random() > 0.1:
            return None
        return self.rng.choice(["old", "use \\\"other\\\" instead", "No longer supported"])

    # ---- types -----------------------------------------------------------
    def wrap(self, base: str, allow_list=True) -> str:
        r = self.rng
        t = base + ("!" if r.random() < 0.5 else "")
        if allow_list and self.o.list_depth:
            for _ in range(self.o.list_depth):
                if r.random() < 0.22:
                    t = f"[{t}]" + ("!" if r.random() < 0.5 else "")
                else:
                    break
        return t

    def leaf(self) -> str:
        pool = ["String", "Int", "Float", "Boolean", "ID"] + self.scalars * 2 + list(self.enums) * 2
        return self.rng.choice(pool)

    def make_enums(self):
        for _ in range(self.rng.randint(1, 3) if self.o.enums else 0):
            n = self.type_name(self.rng.choice(["Kind", "Enum", "State", ""]))
            vals = self.rng.sample(self.enum_words, self.rng.randint(1, 6))
            if self.o.keywords and self.rng.random() < 0.3:
                vals.append(self.rng.choice(["in", "from", "class", "None", "is", "import", "not"]))
                self.features.add("enum_keyword")
            self.enums[n] = vals
            self.enum_meta[n] = {v: (self.description(), self.depr()) for v in vals}
            d = self.description()
            if d:
                self.desc[n] = d

    def make_scalars(self):
        if self.o.custom_scalars:
            self.scalars = self.rng.sample(sorted(CUSTOM_SCALARS), self.rng.randint(0, 4))

    def literal(self, t: str, depth=0) -> str:
        """A valid SDL/document literal for input type text t."""
        r = self.rng
        if t.endswith("!"):
            return self._literal_nn(t[:-1], depth)
        if r.random() < 0.12:
            return "null"
        return self._literal_nn(t, depth)

    def _literal_nn(self, t: str, depth) -> str:
        r = self.rng
        if t.startswith("["):
            inner = t[1:-1]
            if depth > 2:
                return "[]"
            return "[" + ", ".join(self.literal(inner, depth + 1) for _ in range(r.randint(0, 2))) + "]"
        if t in self.enums:
            return r.choice(self.enums[t])
        if t in self.inputs:
            fs = self.inputs[t]
            if self.input_meta[t].get("oneof"):
                f = r.choice(fs)
                return "{" + f"{f.name}: {self._literal_nn(f.type, depth + 1)}" + "}"
            parts = []
            for f in fs:
                req = f.type.endswith("!") and f.default is None
                if req or (r.random() < 0.4 and depth < 3):
                    parts.append(f"{f.name}: {self.literal(f.type, depth + 1)}")
            return "{" + ", ".join(parts) + "}"
        return {
            "String": lambda: r.choice(['"abc"', '"with \\"quotes\\""', '""', '"two  blanks   three"', '"""block\n  text  here"""', '"...Spread"', '"# no comment"']),
            "ID": lambda: r.choice(['"id1"', '"2"']),
            "Int": lambda: str(r.randint(-5, 50)),
            "Float": lambda: r.choice(["1.5", "-2.25", "3.0"]),
            "Boolean": lambda: r.choice(["true", "false"]),
            "UUID": lambda: '"12345678-1234-5678-1234-567812345678"',
            "DateTime": lambda: '"2021-02-03T04:05:06Z"',
            "Date": lambda: '"2021-02-03"',
            "JSON": lambda: '"raw"',
            "Slug": lambda: '"a-slug"',
            "BigInt": lambda: "123456789",
        }[t]()

    def make_inputs(self):
        r = self.rng
        if not self.o.inputs:
            return
        names = [self.type_name(r.choice(["Input", "Filter", "Args"])) for _ in range(r.randint(1, 4))]
        for i, n in enumerate(names):
            fs = []
            for fn in self.field_names(r.randint(1, 5)):
                k = r.random()
                if k < 0.25 and i > 0:
                    t = self.wrap(r.choice(names[:i]))
                elif k < 0.35 and self.o.input_recursion:
                    base = r.choice(names[i:])
                    # recursion only through nullable or list positions
                    t = r.choice([base, f"[{base}!]", f"[{base}]!", f"[{base}!]!"])
                    self.features.add("input_forward")
                else:
                    t = self.wrap(self.leaf())
                fs.append(A(fn, t, None, self.description(), None))
            self.inputs[n] = fs
            self.input_meta[n] = {}
            d = self.description()
            if d:
                self.desc[n] = d
        if self.o.defaults:
            for n in names:
                for f in self.inputs[n]:
                    if named(f.type) in self.inputs and r.random() < 0.8:
                        continue
                    if named(f.type) in self.inputs:
                        # only defaults which cannot recurse
                        if not f.type.startswith("["):
                            continue
                        f.default = "[]"
                        continue
                    if r.random() < 0.25:
                        f.default = self.literal(f.type)
        for n in names:
            for f in self.inputs[n]:
                if not (f.type.endswith("!") and f.default is None):
                    f.deprecated = self.depr()
        if self.o.oneof and r.random() < 0.5:
            self.features.add("oneof")
            n = self.type_name("Choice")
            fs = []
            mode = r.choice(["members", "mixed", "scalars", "dup"])
            fnames = self.field_names(r.randint(2, 4))
            cands = [x for x in names]
            if mode == "members" and len(cands) >= 2:
                ms = r.sample(cands, min(len(cands), len(fnames)))
                fs = [A(fn, m) for fn, m in zip(fnames, ms)]
            elif mode == "dup":
                m = r.choice(cands)
                fs = [A(fn, m) for fn in fnames]
            else:
                for fn in fnames:
                    if mode == "mixed" and r.random() < 0.4:
                        fs.append(A(fn, r.choice(cands)))
                    else:
                        fs.append(A(fn, r.choice([self.leaf(), f"[{self.leaf()}!]"])))
            self.inputs[n] = fs
            self.input_meta[n] = {"oneof": True}
            # let something use it
            if r.random() < 0.6:
                host = r.choice(names)
                used = [f.name for f in self.inputs[host]]
                fn = self.field_names(1, used)
                if fn:
                    self.inputs[host].append(A(fn[0], r.choice([n, f"[{n}!]"])))

    def out_fields(self, k, composite_pool, taken=()) -> List[F]:
        r = self.rng
        fs = []
        for fn in self.field_names(k, taken):
            if composite_pool and r.random() < 0.4:
                t = self.wrap(r.choice(composite_pool))
            else:
                t = self.wrap(self.leaf())
            fs.append(F(fn, t, self.args() if r.random() < 0.25 else [], self.description(), self.depr()))
        return fs

    def args(self) -> List[A]:
        r = self.rng
        out = []
        for an in self.field_names(r.randint(1, 3)):
            if self.inputs and r.random() < 0.35:
                t = self.wrap(r.choice(list(self.inputs)))
            else:
                t = self.wrap(self.leaf())
            d = None
            if self.o.defaults and r.random() < 0.25 and named(t) not in self.inputs:
                d = self.literal(t)
            out.append(A(an, t, d, self.description()))
        return out

    def make_composites(self):
        r, o = self.rng, self.o
        nobj = r.randint(*o.n_objects)
        onames = [self.type_name() for _ in range(nobj)]
        inames = [self.type_name(r.choice(["Like", "Iface", "able"])) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))] if o.interfaces else []
        unames = [self.type_name(r.choice(["Union", "Result", "OrOther"])) for _ in range(r.randint(0, 2))] if o.unions else []
        pool = onames + inames + unames
        for i, n in enumerate(inames):
            self.iface_parents[n] = []
            fs = self.out_fields(r.randint(1, 3), pool)
            if i and o.interface_inheritance and r.random() < 0.5:
                p = r.choice(inames[:i])
                self.iface_parents[n] = self.iface_parents[p] + [p]
                names = {f.name.lower().replace("_", "") for f in self.interfaces[p]}
                fs = list(self.interfaces[p]) + [f for f in fs if f.name.lower().replace("_", "") not in names]
                self.features.add("iface_inherit")
            elif i and o.interface_inheritance and r.random() < 0.3:
                # the fields of another interface, which it does not implement
                like = self.interfaces[inames[i - 1]]
                names = {f.name.lower().replace("_", "") for f in like}
                fs = list(like) + [f for f in fs if f.name.lower().replace("_", "") not in names][:r.randint(0, 1)]
                self.features.add("iface_like")
            self.interfaces[n] = fs
        for n in onames:
            ifs: List[str] = []
            for i in inames:
                if r.random() < 0.5:
                    for q in self.iface_parents[i] + [i]:
                        if q not in ifs:
                            ifs.append(q)
            self._make_object(n, ifs, pool)
        # every interface needs >= 1 implementation
        for i in inames:
            if not any(i in v for v in self.obj_ifaces.values()):
                n = r.choice(onames)
                ifs = list(self.obj_ifaces[n])
                for q in self.iface_parents[i] + [i]:
                    if q not in ifs:
                        ifs.append(q)
                self._make_object(n, ifs, pool)
        for u in unames:
            self.unions[u] = r.sample(onames, r.randint(1 if r.random() < 0.2 else min(2, nobj), min(4, nobj)))
        for n in onames + inames + unames:
            d = self.description()
            if d:
                self.desc[n] = d

    def _make_object(self, n, ifs, pool):
        fs: List[F] = []
        seen: Dict[str, str] = {}
        ok: List[str] = []
        for i in ifs:
            # skip interfaces whose fields clash with ones already taken
            if any(seen.get(f.name.lower().replace("_", ""), f.type) != f.type
                   or (f.name.lower().replace("_", "") in seen and not any(g.name == f.name for g in fs))
                   for f in self.interfaces[i]):
                continue
            if any(p not in ok for p in self.iface_parents[i]):
                continue
            clash = False
            for f in self.interfaces[i]:
                for g in fs:
                    if g.name == f.name and [(a.name, a.type) for a in g.args] != [(a.name, a.type) for a in f.args]:
                        clash = True
            if clash:
                continue
            ok.append(i)
            for f in self.interfaces[i]:
                k = f.name.lower().replace("_", "")
                if k not in seen:
                    seen[k] = f.type
                    fs.append(F(f.name, f.type, f.args, self.description(), f.deprecated))
        own = self.out_fields(self.rng.randint(*self.o.n_fields), pool, [f.name for f in fs])
        fs += own
        if not any(named(f.type) not in pool for f in fs):
            fs.append(F("plainLeaf", "String"))
        self.objects[n] = fs
        self.obj_ifaces[n] = ok

    def make_roots(self):
        r, o = self.rng, self.o
        pool = list(self.objects) + list(self.interfaces) + list(self.unions)
        kinds = ["query"] + (["mutation"] if o.mutations and r.random() < 0.6 else []) + \
            (["subscription"] if o.subscriptions and r.random() < 0.4 else [])
        for k in kinds:
            fs = []
            for fn in self.field_names(r.randint(*o.n_root)):
                t = self.wrap(r.choice(pool)) if r.random() < 0.75 else self.wrap(self.leaf())
                fs.append(F(fn, t, self.args() if r.random() < 0.6 else [], self.description(), self.depr()))
            self.roots[k] = fs
        if o.custom_roots and r.random() < 0.12:
            names = {"query": ["QueryRoot", "Root", "query_root"], "mutation": ["Mutations", "MutationRoot"], "subscription": ["Events", "SubscriptionRoot"]}
            self.root_types = {k: r.choice(v) for k, v in names.items()}
            if not {v.lower().replace("_", "") for v in self.root_types.values()} & self.used_types:
                self.features.add("custom_roots")
            else:
                self.root_types = World.root_types

    # ---- SDL -------------------------------------------------------------
    @staticmethod
    def _d(desc, ind=""):
        if desc is None:
            return ""
        body = desc.replace("\\\\", "\\").replace('"""', '\\"""')
        if body.endswith('"'):
            return f'{ind}"""\n{ind}{body}\n{ind}"""\n'
        return f'{ind}"""{body}"""\n' if "\n" not in body else f'{ind}"""\n{ind}{body}\n{ind}"""\n'

    def _dep(self, reason):
        if reason is None:
            return ""
        if reason == "No longer supported":
            return " @deprecated"
        return f' @deprecated(reason: "{reason}")'

    def _arg(self, a: A):
        s = f"{a.name}: {a.type}"
        if a.default is not None:
            s += f" = {a.default}"
        return s + self._dep(a.deprecated)

    def _field(self, f: F):
        s = self._d(f.desc, "  ")
        if f.args:
            if any(a.desc for a in f.args):
                inner = "".join(self._d(a.desc, "    ") + "    " + self._arg(a) + "\n" for a in f.args)
                s += f"  {f.name}(\n{inner}  ): {f.type}"
            else:
                s += f"  {f.name}({', '.join(self._arg(a) for a in f.args)}): {f.type}"
        else:
            s += f"  {f.name}: {f.type}"
        return s + self._dep(f.deprecated) + "\n"

    root_types = {"query": "Query", "mutation": "Mutation", "subscription": "Subscription"}

    def sdl_parts(self) -> List[str]:
        out = []
        if any(m.get("oneof") for m in self.input_meta.values()):
            out.append("directive @oneOf on INPUT_OBJECT\n")
        for s in self.scalars:
            out.append(f"scalar {s}\n")
        for n, vals in self.enums.items():
            body = "".join(self._d(self.enum_meta[n][v][0], "  ") + f"  {v}{self._dep(self.enum_meta[n][v][1])}\n" for v in vals)
            out.append(self._d(self.desc.get(n)) + f"enum {n} {{\n{body}}}\n")
        for n, fs in self.inputs.items():
            body = "".join(self._d(f.desc, "  ") + "  " + self._arg(f) + "\n" for f in fs)
            dirs = " @oneOf" if self.input_meta[n].get("oneof") else ""
            out.append(self._d(self.desc.get(n)) + f"input {n}{dirs} {{\n{body}}}\n")
        for n, fs in self.interfaces.items():
            imp = f" implements {' & '.join(self.iface_parents[n])}" if self.iface_parents[n] else ""
            out.append(self._d(self.desc.get(n)) + f"interface {n}{imp} {{\n" + "".join(map(self._field, fs)) + "}\n")
        for n, fs in self.objects.items():
            imp = f" implements {' & '.join(self.obj_ifaces[n])}" if self.obj_ifaces[n] else ""
            out.append(self._d(self.desc.get(n)) + f"type {n}{imp} {{\n" + "".join(map(self._field, fs)) + "}\n")
        for n, ms in self.unions.items():
            out.append(self._d(self.desc.get(n)) + f"union {n} = {' | '.join(ms)}\n")
        for k, fs in self.roots.items():
            out.append(f"type {self.root_types[k]} {{\n" + "".join(map(self._field, fs)) + "}\n")
        if self.root_types != World.root_types:
            out.append("schema {\n" + "".join(f"  {k}: {self.root_types[k]}\n" for k in self.roots) + "}\n")
        return out

    def build_schema(self):
        self.make_scalars()
        self.make_enums()
        self.make_inputs()
        self.make_composites()
        self.make_roots()
        parts = self.sdl_parts()
        self.rng.shuffle(parts)
        self.parts = parts
        self.sdl = "\n".join(parts)
        self.schema = build_schema(self.sdl)
        return self

    # ---- documents -------------------------------------------------------
    def fields_of(self, t: str) -> List[F]:
        return self.objects.get(t) or self.interfaces.get(t) or []

    def is_composite(self, t: str) -> bool:
        return t in self.objects or t in self.interfaces or t in self.unions

    def possible(self, t: str) -> List[str]:
        if t in self.objects:
            return [t]
        if t in self.unions:
            return list(self.unions[t])
        return [o for o, v in self.obj_ifaces.items() if t in v]

    def frag_name(self, t: str) -> str:
        odd = self.odd_name(self._dnames)
        if odd:
            return odd
        base = t[0].upper() + t[1:]
        for i in range(100):
            n = base + self.rng.choice(FRAG_WORDS).capitalize()
            if self.o.underscore_fragment_names and self.rng.random() < 0.3:
                n = self.rng.choice([f"{t}_frag", f"frag{t}2", f"{t}V{self.rng.randint(1, 9)}", f"_{n}"[1:] + "_x", f"part_{t}"])
            key = n.lower().replace("_", "")
            if key not in self._dnames:
                self._dnames.add(key)
                return n
        n = f"{base}F{len(self.fragments)}"
        self._dnames.add(n.lower())
        return n

    def render_args(self, f: F, ctx) -> str:
        """ctx: dict(vars=...) for operations, None inside fragments."""
        r = self.rng
        parts = []
        for a in f.args:
            req = a.type.endswith("!") and a.default is None
            if not req and r.random() < 0.3:
                continue
            if ctx is not None and self.o.variables and r.random() < 0.7:
                parts.append(f"{a.name}: ${self.new_var(a, ctx)}")
            else:
                parts.append(f"{a.name}: {self.literal(a.type)}")
        return f"({', '.join(parts)})" if parts else ""

    def new_var(self, a: A, ctx) -> str:
        r = self.rng
        if ctx.get("fragment"):
            # defined by every operation using the fragment, so no other variable may be called like it
            n, t = self.fragment_var(a.name), a.type
            if not t.endswith("!") and r.random() < 0.2:
                t += "!"
            ctx["vars"][n] = (t, None)
            self.features.add("fragment_variable")
            return n
        # reuse a variable of the same type
        for n, (t, d) in ctx["vars"].items():
            if t == a.type and d is None and r.random() < 0.15:
                return n
        taken = {v.lower().replace("_", "") for v in ctx["vars"]} | self.fragment_vars
        n = a.name
        if n.lower().replace("_", "") in taken or r.random() < 0.15:
            fn = self.field_names(1, ctx["vars"])
            n = fn[0] if fn and fn[0].lower().replace("_", "") not in taken else f"v{len(ctx['vars'])}"
            while n.lower().replace("_", "") in taken:
                n += "v"
        t = a.type
        d = None
        if not t.endswith("!") and r.random() < 0.2:
            t = t + "!"
        elif t.endswith("!") and a.default is not None and r.random() < 0.4:
            t = t[:-1]          # allowed: location has a default
        if self.o.defaults and r.random() < 0.25:
            d = self._literal_nn(t[:-1] if t.endswith("!") else t, 0)
            if not t.endswith("!") and r.random() < 0.05:
                d = "null"
        ctx["vars"][n] = (t, d)
        return n

    def fragment_var(self, name) -> str:
        n, k = name, 0
        while n.lower().replace("_", "") in self.fragment_vars:
            k += 1
            n = f"{name}x{k}"
        self.fragment_vars.add(n.lower().replace("_", ""))
        return n

    def cond(self, f: F, ctx) -> str:
        if not self.o.directives or ctx is None or self.rng.random() > 0.06:
            return ""
        self.features.add("directive")
        return self.condition(ctx)

    def condition(self, ctx) -> str:
        n = None
        for v, (t, d) in ctx["vars"].items():
            if t == "Boolean!" and d is None:
                n = v
        if n is None:
            n = self.fragment_var("when") if ctx.get("fragment") else "cond" + str(len(ctx["vars"]))
            ctx["vars"][n] = ("Boolean!", None)
        return f" @{self.rng.choice(['include', 'skip'])}(if: ${n})"

    def select(self, t: str, depth: int, ctx, scope: "Scope") -> str:
        """Selection-set text ("{ ... }") for composite type t."""
        r = self.rng
        lines: List[str] = []
        if r.random() < 0.03:
            self.features.add("only_typename")
            return "{ __typename }"
        if t in self.unions:
            ufr = [n for n, (ft, _) in self.fragments.items() if ft == t]
            if ufr and r.random() < 0.5:
                self.features.add("union_fragment")
                tn, n = r.choice(["", "__typename "]), r.choice(ufr)
                self.frag_take(n, scope)
                return "{ " + tn + self.spread(n, scope, ctx) + " }"
            if self.o.fragments and r.random() < 0.2:
                # a fragment on an abstract type next to selections on members
                mixed = [n for n, (ft, _) in self.fragments.items() if ft not in self.objects and
                         set(self.possible(ft)) & set(self.unions[t]) and self.frag_ok(n, scope)]
                if mixed:
                    n = r.choice(mixed)
                    self.frag_take(n, scope)
                    lines.append(self.spread(n, scope, ctx))
                    self.features.add("union_mixed")
            for m in self.unions[t]:
                if r.random() < (0.5 if lines else 0.12):
                    self.features.add("member_unselected")
                    continue
                lines.append(self.select_member(m, depth, ctx, scope, t))
            if not lines:
                lines.append(self.select_member(r.choice(self.unions[t]), depth, ctx, scope, t))
            r.shuffle(lines)
            if r.random() < 0.2:
                # a member selected again, with response keys of its own
                m = r.choice(self.unions[t])
                taken = self.member_scopes.get((id(scope), m))
                if taken is not None:
                    got = self.select_fields(m, depth, ctx, taken, 0, 2, inline=True)
                    if got:
                        lines.append(f"... on {m} {{ {' '.join(got)} }}")
                        self.features.add("member_repeated")
            self.ask_typename(lines, 0.3)
            return "{ " + " ".join(lines) + " }"
        if t in self.interfaces:
            lines += self.select_fields(t, depth, ctx, scope, minimum=1, maximum=4)
            if self.o.fragments and r.random() < 0.35:
                lines += self.spread_into(t, scope, ctx, limit=1)
            lines = self.nest(lines, t, ctx, scope)
            if r.random() < 0.5:
                for m in self.possible(t):
                    if r.random() < 0.5:
                        sub = Scope(scope)
                        got = []
                        if self.o.fragments and r.random() < 0.3:
                            got += self.spread_into(m, sub, ctx, limit=1)
                            if got:
                                self.features.add("iface_inline_spread")
                        got += self.select_fields(m, depth, ctx, sub, minimum=0 if got else 1, maximum=2, inline=True)
                        if got and r.random() < 0.2:
                            more = self.select_fields(m, depth, ctx, sub, 0, 1, inline=True)
                            if more:
                                lines.append(f"... on {m} {{ {' '.join(more)} }}")
                                self.features.add("member_repeated")
                        if got:
                            if r.random() < 0.25:
                                got.insert(r.randint(0, len(got)), "__typename")
                            lines.append(f"... on {m} {{ {' '.join(self.nest(got, m, ctx, sub))} }}")
                            self.features.add("iface_inline")
            self.ask_typename(lines, 0.3)
            return "{ " + " ".join(lines) + " }"
        # object
        if self.o.fragments and r.random() < 0.3:
            lines += self.spread_into(t, scope, ctx, limit=r.choice([1, 1, 2]))
            if lines and r.random() < 0.5:
                return "{ " + " ".join(self.nest(lines, t, ctx, scope)) + " }"   # lone spread
        lines += self.select_fields(t, depth, ctx, scope, minimum=0 if lines else 1, maximum=5)
        if not lines:
            lines = ["__typename"]
        self.ask_typename(lines, 0.2)
        r.shuffle(lines)
        return "{ " + " ".join(self.nest(lines, t, ctx, scope)) + " }"

    def ask_typename(self, lines, p):
        r = self.rng
        if r.random() < p:
            lines.insert(r.randint(0, len(lines)), r.choice(["__typename", "__typename", "gqlType: __typename"]))

    def nest(self, lines, t, ctx, scope, p=0.12) -> List[str]:
        """Moves some selections on the object or interface t into inline fragments which always apply, or (in
        operations) depend on a variable."""
        r = self.rng
        if not self.o.nested_inline or not lines or r.random() > p:
            return lines
        some = r.sample(lines, r.randint(1, len(lines)))
        supers = self.obj_ifaces.get(t, []) if t in self.objects else self.iface_parents.get(t, [])
        forms = ["... {{ {} }}", f"... on {t} {{{{ {{}} }}}}"]
        for i in supers:
            names = {f.name for f in self.interfaces[i]} | {"__typename"}
            if all(not x.startswith("...") and field_name(x) in names for x in some):
                forms += [f"... on {i} {{{{ {{}} }}}}"] * 3
        forms += [f"... on {u} {{{{ ... on {t} {{{{ {{}} }}}} }}}}" for u, ms in self.unions.items() if t in ms]
        form = r.choice(forms)
        keys = [self.keys_of(x) for x in some]
        if self.o.directives and ctx is not None and all(k and not k & self.dup_keys for k in keys) and r.random() < 0.4:
            # what depends on a condition must not be selected again without it
            scope.keys.update((k, None) for ks in keys for k in ks)
            form = form.replace(" {{", self.condition(ctx) + " {{", 1)
            self.features.add("inline_condition")
        self.features.add("nested_inline")
        rest = [x for x in lines if not any(x is y for y in some)]
        rest.insert(r.randint(0, len(rest)), form.format(" ".join(self.nest(some, t, ctx, scope, 0.2))))
        return rest

    def keys_of(self, selection: str) -> set:
        """The response keys a field or spread selects, none for other selections."""
        if selection.startswith("..."):
            n = selection[3:].split(" ")[0]
            return set(self.frag_keys.get(n, ()))
        return set() if "__typename" in selection.split("{")[0] else {response_key(selection)}

    def select_member(self, m, depth, ctx, scope, union) -> str:
        r = self.rng
        frs = [n for n, (ft, _) in self.fragments.items()
               if (ft == m or ft in self.obj_ifaces[m] or m in self.unions.get(ft, ())) and self.frag_ok(n, Scope(scope))]
        if self.o.fragments and frs and r.random() < 0.4:
            n = r.choice(frs)
            if r.random() < 0.5 and self.fragments[n][0] == m:
                sub = Scope(scope)
                self.frag_take(n, sub)
                return self.spread(n, sub, ctx)
            sub = Scope(scope)
            self.member_scopes[(id(scope), m)] = sub
            self.frag_take(n, sub)
            once = self.spread(n, sub, ctx)
            extra = self.select_fields(m, depth, ctx, sub, 0, 2, inline=True)
            return f"... on {m} {{ {once} {' '.join(extra)} }}"
        sub = Scope(scope)
        self.member_scopes[(id(scope), m)] = sub
        got = self.select_fields(m, depth, ctx, sub, 1, 3, inline=True)
        if not got or r.random() < 0.25:
            got.insert(r.randint(0, len(got)), "__typename")
        return f"... on {m} {{ {' '.join(self.nest(got, m, ctx, sub))} }}"

    def spread(self, n: str, scope: "Scope", ctx, p=0.15) -> str:
        """A spread of a fragment which was taken, under a condition at times."""
        keys = set(self.frag_keys[n])
        if not self.o.directives or ctx is None or keys & self.dup_keys or self.rng.random() > p:
            return f"...{n}"
        scope.keys.update((k, None) for k in keys)      # must not be selected again without the condition
        self.features.add("spread_condition")
        return f"...{n}{self.condition(ctx)}"

    def frag_ok(self, n: str, scope: "Scope") -> bool:
        have = scope.deep_keys() if scope.parent is None else {**scope.all_keys(), **scope.deep_keys()}
        over = set(self.frag_keys[n]) & set(have)
        if not over:
            return True
        if not self.o.duplicates:
            return False
        ok = all(have[k] is not None and have[k] == self.frag_keys[n][k] for k in over)
        if ok:
            self.features.add("dup_leaf")
            self.dup_keys |= over
        return ok

    def frag_take(self, n, scope):
        scope.keys.update(self.frag_keys[n])

    def spread_into(self, t: str, scope, ctx, limit=1) -> List[str]:
        """Spread fragments declared on t itself, or (for objects) on an interface of it."""
        r = self.rng
        ok = []
        for n, (ft, _) in self.fragments.items():
            if ft == t or (t in self.objects and ft in self.obj_ifaces[t]) or \
                    (ft in self.unions and set(self.unions[ft]) & set(self.possible(t))) or \
                    (t in self.interfaces and (ft in self.iface_parents[t] or (ft in self.objects and t in self.obj_ifaces[ft]))):
                ok.append(n)
        r.shuffle(ok)
        out = []
        for n in ok:
            if len(out) >= limit:
                break
            if self.frag_ok(n, scope):
                self.frag_take(n, scope)
                out.append(self.spread(n, scope, ctx))
                self.features.add("spread")
        return out

    def select_fields(self, t, depth, ctx, scope, minimum, maximum, inline=False) -> List[str]:
        r = self.rng
        fs = list(self.fields_of(t))
        r.shuffle(fs)
        want = r.randint(max(minimum, 0), max(maximum, minimum))
        out = []
        for f in fs:
            if len(out) >= want:
                break
            base = named(f.type)
            if self.is_composite(base) and depth <= 0:
                continue
            key = f.name
            alias = None
            if self.o.aliases and r.random() < 0.15:
                nm = self.field_names(1, list(scope.all_raw()))
                if nm:
                    alias = nm[0]
                    key = alias
            norm = key.lower().replace("_", "")
            have = scope.all_keys()
            if norm in have and not (self.o.duplicates and have[norm] == key == f.name and not f.args and r.random() < 0.5):
                continue
            # sub-selections of list/args
            cond = self.cond(f, ctx) if norm not in have else ""
            args = self.render_args(f, ctx)
            if norm in have:
                self.features.add("dup_leaf")
                self.dup_keys.add(norm)
            plain = not self.is_composite(base) and not alias and not f.args and not cond
            scope.keys[norm] = f.name if plain else None
            scope.raw.add(key)
            txt = (f"{alias}: " if alias else "") + f.name + args + cond
            if self.is_composite(base):
                txt += " " + self.select(base, depth - 1, ctx, Scope(None))
            out.append(txt)
        if len(out) < minimum:
            for f in fs:
                norm = f.name.lower().replace("_", "")
                if not self.is_composite(named(f.type)) and norm not in scope.all_keys():
                    scope.keys[norm] = None
                    scope.raw.add(f.name)
                    out.append(f.name + self.render_args(f, ctx))
                    if len(out) >= minimum:
                        break
        if not out and minimum:
            out = ["__typename"]
        return out

    def make_documents(self):
        r, o = self.rng, self.o
        self._dnames = set(x.lower().replace("_", "") for x in self.used_types)
        self.frag_keys: Dict[str, set] = {}
        self.dup_keys: set = set()     # response keys selected twice somewhere
        self.fragment_vars: set = set()
        vars_of: Dict[str, dict] = {}  # fragment -> variables it and the fragments it uses need
        if o.fragments:
            pool = list(self.objects) * 3 + list(self.interfaces) * 2 + (list(self.unions) if o.union_fragments else [])
            for _ in range(r.randint(*o.n_frags)):
                t = r.choice(pool)
                n = self.frag_name(t)
                scope = Scope(None)
                fctx = {"vars": {}, "fragment": True} if o.fragment_variables and r.random() < 0.3 else None
                body = self.select(t, r.randint(0, 2), fctx, scope)
                vars_of[n] = dict(fctx["vars"]) if fctx else {}
                for used in spreads_in(body):
                    vars_of[n].update(vars_of.get(used, {}))
                self.fragments[n] = (t, f"fragment {n} on {t} {body}")
                self.frag_keys[n] = scope.deep_keys()
        for _ in range(r.randint(*o.n_ops)):
            kind = r.choice(sorted(self.roots))
            ctx = {"vars": {}}
            root_fs = self.roots[kind]
            k = 1 if kind == "subscription" or r.random() < 0.5 else r.randint(1, min(3, len(root_fs)))
            scope = Scope(None)
            sels = []
            picks = r.sample(root_fs, k)
            for f in picks:
                key, alias = f.name, None
                if o.aliases and r.random() < 0.12:
                    nm = self.field_names(1, list(scope.all_raw()) + [p.name for p in picks])
                    if nm:
                        alias = key = nm[0]
                norm = key.lower().replace("_", "")
                if norm in scope.all_keys():
                    continue
                scope.keys[norm] = None
                scope.raw.add(key)
                cond = self.cond(f, ctx) if kind != "subscription" else ""
                txt = (f"{alias}: " if alias else "") + f.name + self.render_args(f, ctx) + cond
                if self.is_composite(named(f.type)):
                    txt += " " + self.select(named(f.type), r.randint(1, o.max_depth), ctx, Scope(None))
                sels.append(txt)
            n = self.op_name(kind)
            for used in spreads_in(" ".join(sels)):
                ctx["vars"].update(vars_of.get(used, {}))
            vs = ""
            if ctx["vars"]:
                vs = "(" + ", ".join(f"${v}: {t}" + (f" = {d}" if d is not None else "") for v, (t, d) in ctx["vars"].items()) + ")"
            comment = ""
            if o.comments and r.random() < 0.3:
                comment = "\n  # " + r.choice(["documents the operation", "uses ...Nothing really", "x\n  # y"]) + "\n "
            self.operations[n] = (kind, f"{kind} {n}{vs} {{{comment}\n  " + "\n  ".join(sels) + "\n}")
        # drop unused fragments (transitively)
        used = set()
        frontier = [t for _, t in self.operations.values()]
        while frontier:
            txt = frontier.pop()
            for n in spreads_in(txt):
                if n in self.fragments and n not in used:
                    used.add(n)
                    frontier.append(self.fragments[n][1])
        self.fragments = {n: v for n, v in self.fragments.items() if n in used}
        # distribute over files
        defs = [t for _, t in self.fragments.values()] + [t for _, t in self.operations.values()]
        r.shuffle(defs)
        nf = r.randint(1, 3) if o.multi_file else 1
        files: Dict[str, List[str]] = {}
        for d in defs:
            files.setdefault(f"doc{r.randrange(nf)}.graphql", []).append(d)
        self.files = {k: "\n\n".join(v) + "\n" for k, v in files.items()}
        self.doc_text = "\n\n".join(defs)
        doc = parse(self.doc_text)
        # graphql-core's overlapping-fields rule is sensitive to definition order:
        # keep worlds which are valid in both orders used by the monitors
        by_file = parse("\n".join(t for _, t in sorted(self.files.items())))
        return validate(self.schema, doc) or validate(self.schema, by_file)

    def op_name(self, kind) -> str:
        r = self.rng
        odd = self.odd_name(self._dnames, 0.12)
        if odd:
            return odd
        for _ in range(100):
            n = r.choice(OP_VERBS) + r.choice(["", "_"]) + r.choice(TYPE_WORDS) + r.choice(["", "s", "ById", "2"])
            key = n.lower().replace("_", "")
            if key not in self._dnames:
                self._dnames.add(key)
                return n
        n = f"op{len(self.operations)}"
        self._dnames.add(n)
        return n


def spreads_in(text: str) -> List[str]:
    return re.findall(r"\.\.\.\s*([_A-Za-z][_0-9A-Za-z]*)", text)


def field_name(selection: str) -> str:
    names = re.match(r"(\w+)(?:\s*:\s*(\w+))?", selection)
    return names[2] or names[1]


def response_key(selection: str) -> str:
    return re.match(r"\w+", selection)[0].lower().replace("_", "")


class Scope:
    """Response keys taken in one selection set: normalised key -> signature of a
    leaf selection (None for anything which may not be selected twice)."""

    def __init__(self, parent):
        self.parent = parent
        self.keys = {}
        self.raw = set()
        self.children = []
        if parent is not None:
            parent.children.append(self)

    def all_keys(self):
        out = dict(self.parent.all_keys()) if self.parent else {}
        out.update(self.keys)
        return out

    def all_raw(self):
        return self.raw | (self.parent.all_raw() if self.parent else set())

    def deep_keys(self):
        out = dict(self.keys)
        for c in self.children:
            for k, v in c.deep_keys().items():
                out[k] = v if k not in out or out[k] == v else None
        return out


def make_world(seed, opts: Optional[Opts] = None, attempts: int = 40) -> World:
    """A world whose schema builds and whose documents validate; deterministic in seed."""
    last = None
    for k in range(attempts):
        rng = random.Random(f"{seed}/{k}")
        w = World(rng, opts)
        try:
            w.build_schema()
            from graphql import validate_schema
            if validate_schema(w.schema):
                last = validate_schema(w.schema)
                continue
            errs = w.make_documents()
        except Exception as e:  # generator slip: try again with the next sub-seed
            last = e
            continue
        if errs or not w.operations:
            last = errs
            continue
        w.seed = seed
        w.attempt = k
        return w
    raise RuntimeError(f"generator could not build a world for {seed}: {last}")

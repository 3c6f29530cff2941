"""Pinned scenarios: probes of recorded findings and of repaired defects.

Every scenario generates a client from a literal schema and document through the
public interface and judges what the generated module does.
"""
from __future__ import annotations

import ast

from . import gen

ZOO = """
scalar Date
enum Mood { CALM WILD }
interface Animal { name: String! friend: Animal }
type Cat implements Animal { name: String! friend: Animal lives: Int! }
type Dog implements Animal { name: String! friend: Animal barks: Boolean! owner: Person }
type Person { name: String! pet: Pet age: Int _id: ID! }
union Pet = Cat | Dog
input Where { name: String age: Int! }
type Query { animal: Animal pet: Pet person(where: Where, mood: Mood): Person! cat: Cat! dog: Dog mood(m: Mood, flag: Boolean): Mood }
"""


def module(sdl, docs, plugins=None, **conf):
    files = docs if isinstance(docs, dict) else {"d.graphql": docs}
    with gen.Scratch() as sc:
        s = sc.write("schema.graphql", sdl)
        for n, t in files.items():
            sc.write(f"docs/{n}", t)
        code = gen.generate(s, sc.join("docs", "*.graphql") if docs else None, gen.turms_config(plugins, **conf))
    mod = gen.load(code)
    mod.SOURCE = code
    return mod


def wire(value):
    return value.model_dump(by_alias=True, mode="json", exclude_unset=True)


def roundtrip(sdl, docs, op, data, plugins=None, **conf):
    """None when the response survives, otherwise what happened."""
    try:
        mod = module(sdl, docs, plugins, **conf)
    except RecursionError:
        return "loading failed: RecursionError"
    except Exception as e:
        return f"loading failed: {type(e).__name__}: {e}"
    try:
        cls = gen.operations_of(mod)[op]
        try:
            got = wire(cls(**data))
        except Exception as e:
            return f"rejected: {str(e)[:300]}"
        return None if got == data else f"changed: {got!r} instead of {data!r}"
    finally:
        gen.unload(mod)


# ---- recorded findings ------------------------------------------------------

def union_unselected():
    return roundtrip(ZOO, "query Q { pet { ... on Cat { lives } } }", "Q", {"pet": {"__typename": "Dog"}})


def union_selected():
    return roundtrip(ZOO, "query Q { pet { ... on Cat { lives } ... on Dog { barks } } }", "Q",
                     {"pet": {"__typename": "Dog", "barks": True}})


def composite_twice():
    return roundtrip(ZOO, "query Q { cat { friend { name } ...C } } fragment C on Cat { friend { friend { name } } }", "Q",
                     {"cat": {"__typename": "Cat", "friend": {"__typename": "Dog", "name": "a", "friend": {"__typename": "Cat", "name": "b"}}}})


def conditional_spreads():
    """Fragments spread under a condition, directly and through inline fragments and other fragments."""
    docs = ("query Q($x: Boolean!) { cat { name ...C @include(if: $x) friend { ...A @skip(if: $x) } } } "
            "query P($x: Boolean!) { cat { name ... @include(if: $x) { ...C } friend { ... @skip(if: $x) { ...A } } } } "
            "fragment C on Cat { lives } fragment A on Animal { name ...C }")
    for op in ("Q", "P"):
        for lives in ({}, {"lives": 3}):
            for friend in ({}, {"name": "b"}):
                data = {"cat": {"__typename": "Cat", "name": "a", **lives, "friend": {"__typename": "Cat", **friend, **(lives if friend else {})}}}
                got = roundtrip(ZOO, docs, op, data)
                if got:
                    return f"{op} {data}: {got}"
    return None


def aliased_typename():
    return roundtrip(ZOO, "query Q { cat { name gqlType: __typename } }", "Q",
                     {"cat": {"__typename": "Cat", "name": "a", "gqlType": "Cat"}})


def field_like_its_type():
    return roundtrip("scalar Date type Query { e: E! } type E { Date: Date int: Int }", "query Q { e { int } }", "Q",
                     {"e": {"__typename": "E", "int": 3}})


def reserved_field_names():
    bad = []
    for n in ("model_config", "model_fields", "typename"):
        got = roundtrip("type Query { e: E! } type E { x: Int! %s: String! }" % n, "query Q { e { x %s } }" % n, "Q",
                        {"e": {"__typename": "E", "x": 3, n: "v"}})
        if got:
            bad.append(n)
    return f"reserved names fail: {','.join(bad)}" if bad else None


def nested_name_clash():
    return roundtrip(ZOO, "query A { cat { lives } person { ...ACat } } fragment ACat on Person { age }", "A",
                     {"cat": {"__typename": "Cat", "lives": 3}, "person": {"__typename": "Person", "age": 3}})


def type_named_like_import():
    return roundtrip("enum Field { A } type Query { e: E! } type E { class: Field }", "query Q { e { class } }", "Q",
                     {"e": {"__typename": "E", "class": "A"}})


FINDINGS_C01 = {"composite-selected-twice": composite_twice,
                "aliased-typename": aliased_typename, "reserved-field-names": reserved_field_names}


TOWN = ("interface N { id: Int } type Query { u: U n: N c: City } union U = City | Dog "
        "type City implements N { id: Int x: Int name: Int } type Dog implements N { id: Int x: Int }")
UF = "fragment F on U { ... on City { name } ... on Dog { x } } "


def abstract_spreads():
    """Fragments on unions and interfaces, spread next to other selections and elsewhere than on their own type."""
    city = {"__typename": "City", "id": 1, "x": 2, "name": 3}

    def only(*keys):
        return {k: v for k, v in city.items() if k in ("__typename",) + keys}

    for docs, data in [
        (UF + "query Q { u { ...F ... on City { x } } }", {"u": only("name", "x")}),
        (UF + "query Q { c { ...F x } }", {"c": only("name", "x")}),
        (UF + "query Q { n { id ...F } }", {"n": only("id", "name")}),
        ("fragment F on N { id } query Q { u { ...F } }", {"u": only("id")}),
        (UF + "fragment G on U { ...F ... on City { x } } query Q { u { ...G } }", {"u": only("name", "x")}),
    ]:
        got = roundtrip(TOWN, docs, "Q", data)
        if got:
            return f"{docs}: {got}"
    return None


def same_name():
    return roundtrip(ZOO, "query Cat { cat { ...Cat } } fragment Cat on Cat { lives }", "Cat", {"cat": {"__typename": "Cat", "lives": 3}})


def nested_inline_fragments():
    cat = {"__typename": "Cat", "name": "a", "lives": 9}
    for docs, data in [
        ("query Q { animal { ... on Cat { ... on Animal { name } lives } } }", {"animal": cat}),
        ("query Q { animal { ...A } } fragment A on Animal { ... on Cat { ... on Cat { lives } ... { name } } }", {"animal": cat}),
        ("query Q { cat { ...A } } fragment A on Cat { ... on Animal { name } lives }", {"cat": cat}),
        ("query Q { pet { ... on Animal { name } ... on Cat { lives } } }", {"pet": cat}),
        ("query Q { pet { ...A } } fragment A on Pet { ... on Animal { name ... on Cat { lives } } }", {"pet": cat}),
        ("query Q($c: Boolean!) { cat { ... @include(if: $c) { lives } name } }", {"cat": {"__typename": "Cat", "name": "a"}}),
    ]:
        bad = roundtrip(ZOO, docs, "Q", data)
        if bad:
            return f"{docs}: {bad}"
    return None


REPAIRED_C01 = {"union-unselected-member": union_unselected, "union-selected": union_selected, "nested-inline-fragments": nested_inline_fragments,
                "conditional-spread": conditional_spreads}
FINDINGS_C05 = {"fragment-named-like-an-operation": same_name, "field-named-like-its-python-type": field_like_its_type,
                "type-named-like-an-import": type_named_like_import}


def nested_in_union_fragment():
    return roundtrip("type Query { a: U } union U = City | Dog type City { city: Dog name: Int } type Dog { x: Int }",
                     "fragment F on U { ... on City { city { x } name } ... on Dog { x } } query Q { a { ...F } }", "Q",
                     {"a": {"__typename": "City", "city": {"__typename": "Dog", "x": 1}, "name": 2}})


def imports_of_one_name():
    """Different things with the same name are told apart or refused."""
    try:
        mod = module("scalar A scalar B type Query { a: A! b: B! }", "query Q { a b }", scalar_definitions={"A": "vt_traits.Same", "B": "vt_markers.Same"})
    except Exception as e:
        return None if "vt_traits.Same" in str(e) + str(e.__cause__) else f"loading failed: {e!r}"
    try:
        import vt_markers
        import vt_traits
        f = gen.operations_of(mod)["Q"].model_fields
        if (f["a"].annotation, f["b"].annotation) != (vt_traits.Same, vt_markers.Same):
            return "one import replaces the other"
    finally:
        gen.unload(mod)


def only_typename():
    """Nothing but the typename of the only field is selected, by a collapsed function."""
    plugins = gen.CLIENT_PLUGINS + [gen.plug("funcs", definitions=[{"type": "query", "use": "vt_proxies.execute", "is_async": False}], collapse_lonely=True)]
    for field in ("cat", "animal", "pet", "dog"):
        got = roundtrip(ZOO, f"query Q {{ {field} {{ __typename }} }}", "Q", {field: {"__typename": "Dog" if field != "cat" else "Cat"}}, plugins)
        if got:
            return f"{field}: {got}"


def definitions_of_one_name():
    """Operations and fields whose python names meet are told apart or refused, never lost."""
    sdl = "type Query { a: Int b: Int t: T } type T { fooBar: Int foo_bar: Int }"
    use = {"query": [("vt_proxies.execute", False), ("vt_proxies.aexecute", True)]}
    funcs = [{"type": k, "use": u, "is_async": x} for k, uses in use.items() for u, x in uses]
    snake = [{"type": "turms.stylers.capitalize.CapitalizeStyler"}, {"type": "turms.stylers.snake_case.SnakeCaseStyler"}]
    for docs in ("query get { a } query aget { b }", "query getIt { a } query get_it { b }", "query getIt { a } query GetIt { b }",
                 "query get { t { fooBar foo_bar } }", "query get { t { fooBar ...F } } fragment F on T { foo_bar }"):
        for stylers in ([], snake[1:], snake):
            try:
                mod = module(sdl, docs, gen.CLIENT_PLUGINS + [gen.plug("funcs", definitions=funcs)], stylers=stylers)
            except Exception as e:
                if "would" in f"{e}{e.__cause__}":
                    continue
                return f"{docs}: loading failed: {e!r}"
            try:
                names = [n.name for n in ast.parse(mod.SOURCE).body if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef))]
                count = docs.count("query")
                if len(set(names)) != len(names) or sum(n[0].islower() for n in names) < 2 * count:
                    return f"{docs}: {names}"
                data = {"t": {"__typename": "T", "fooBar": 1, "foo_bar": 2}}
                if "foo_bar" in docs and wire(next(iter(gen.operations_of(mod).values()))(**data)) != data:
                    return f"{docs}: a field was lost"
            finally:
                gen.unload(mod)


REPAIRED_C05 = {"definitions-of-one-name": definitions_of_one_name, "imports-of-one-name": imports_of_one_name, "only-typename": only_typename, "abstract-spreads": abstract_spreads, "nested-class-name-clash": nested_name_clash, "nested-in-union-fragment": nested_in_union_fragment}

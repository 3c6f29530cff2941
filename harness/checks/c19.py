"""C19: documents are refused exactly when a validation rule in force is violated."""
import copy
import re

from graphql import (
    ArgumentNode, BooleanValueNode, DirectiveNode, DocumentNode, EnumValueNode, FieldNode, FragmentDefinitionNode, FragmentSpreadNode,
    InlineFragmentNode, IntValueNode, ListValueNode, NamedTypeNode, NameNode, Node, ObjectFieldNode, ObjectValueNode,
    OperationDefinitionNode, SelectionSetNode, StringValueNode, VariableDefinitionNode, VariableNode, parse, print_ast, validate,
)
from graphql.language import Lexer, Source, TokenKind
from graphql.validation import specified_rules

from .. import gen, world

PROP = "C19"
RULE = ("Valid random documents over several files receive defects aimed at every validation rule, or lose, repeat or swap tokens. graphql-core judges the "
        "defective documents file by file, without the code under test; generation must fail naming every violation exactly when a rule in force is "
        "violated. Each defect is repeated with the violated rules omitted (it must then not be refused for them, and harmless defects must generate) and "
        "with other rules omitted. Valid documents generate the same code under every omission. Non-trivial: a judged generation; distinct by violated "
        "rules and omissions.")
N_QUICK, N_THOROUGH = 150, 6000

RULES = {re.sub(r"(?<!^)(?=[A-Z])", "_", c.__name__[:-len("Rule")]).lower(): c for c in specified_rules}
REQUIRE = {"refused": 500, "accepted": 250, "omitted": 500, "others_omitted": 500, "harmless_generated": 25, "syntax_refused": 150, "token_edits": 250,
           **{"rule_" + k: 3 for k in RULES}}


def name(s):
    return NameNode(value=s)


def nodes(docs, *kinds):
    out = []

    def walk(n):
        if isinstance(n, kinds):
            out.append(n)
        for k in n.keys:
            v = getattr(n, k, None)
            if isinstance(v, Node):
                if k != "loc":
                    walk(v)
            elif isinstance(v, (list, tuple)):
                for i in v:
                    if isinstance(i, Node):
                        walk(i)
    for d in docs.values():
        walk(d)
    return out


def pick(r, docs, *kinds, where=lambda n: True):
    c = [n for n in nodes(docs, *kinds) if where(n)]
    return r.choice(c) if c else None


def add(node, attr, value, r=None):
    v = list(getattr(node, attr) or ())
    v.insert(r.randint(0, len(v)) if r else len(v), value)
    setattr(node, attr, tuple(v))


def drop(node, attr, r):
    v = list(getattr(node, attr) or ())
    if not v:
        return False
    v.pop(r.randrange(len(v)))
    setattr(node, attr, tuple(v))
    return True


def add_def(r, docs, text):
    d = r.choice(sorted(docs))
    for x in parse(text).definitions:
        add(docs[d], "definitions", x, r)
    return True


def sel(text):
    return parse("{ " + text + " }").definitions[0].selection_set.selections[0]


def some_set(r, docs, where=lambda n: True):
    return pick(r, docs, SelectionSetNode, where=where)


def leafs(w):
    return [e for e in list(w.enums) + ["String", "Int"]]


def mutate(r, w, docs, rule):
    """Aim a defect at a rule; the oracle decides what really became of it."""
    S = r.choice
    comp = list(w.objects)
    op = lambda **k: pick(r, docs, OperationDefinitionNode, **k)
    if rule == "executable_definitions":
        return add_def(r, docs, S(["type Zz { a: Int }", "enum Zz { A }", "extend type %s { zz: Int }" % w.root_types["query"], "scalar Zz", "directive @zz on FIELD"]))
    if rule == "unique_operation_names":
        o = op()
        return add_def(r, docs, S([print_ast(o), f"query {o.name.value} {{ __typename }}"]))
    if rule == "lone_anonymous_operation":
        if r.random() < 0.5:
            return add_def(r, docs, "{ __typename }")
        op().name = None
        return True
    if rule == "single_field_subscriptions":
        o = op(where=lambda n: n.operation.value == "subscription")
        if o is None:
            roots = w.roots.get("subscription")
            if not roots:
                return False
            o = op()
            if o.operation.value != "query":
                return False
        s = copy.deepcopy(o.selection_set.selections[0])
        if isinstance(s, FieldNode) and r.random() < 0.5:
            s.alias = name("zzother")
        else:
            s = sel("__typename")
        add(o.selection_set, "selections", s, r)
        return True
    if rule == "known_type_names":
        k = r.random()
        if k < 0.4:
            add(op(), "variable_definitions", parse(f"query A($zz: {S(['Nope', '[Nope!]', 'string'])}) {{ a }}").definitions[0].variable_definitions[0], r)
        elif k < 0.7:
            add(some_set(r, docs), "selections", sel("... on Nope { __typename }"), r)
        else:
            f = pick(r, docs, FragmentDefinitionNode)
            return f is not None and (setattr(f.type_condition.name, "value", "Nope") or True)
        return True
    if rule == "fragments_on_composite_types":
        t = S(leafs(w) + list(w.inputs))
        if r.random() < 0.5:
            add(some_set(r, docs), "selections", sel(f"... on {t} {{ __typename }}"), r)
            return True
        return add_def(r, docs, f"fragment Zz on {t} {{ __typename }}")
    if rule == "variables_are_input_types":
        t = S(comp + list(w.interfaces) + list(w.unions))
        add(op(), "variable_definitions", parse(f"query A($zz: {S([t, t + '!', '[' + t + ']'])}) {{ a }}").definitions[0].variable_definitions[0], r)
        return True
    if rule == "scalar_leafs":
        f = pick(r, docs, FieldNode)
        if f.selection_set:
            f.selection_set = None
        else:
            f.selection_set = SelectionSetNode(selections=(sel("__typename"),))
        return True
    if rule == "fields_on_correct_type":
        f = pick(r, docs, FieldNode)
        f.name.value = S(["neverAField", f.name.value + "x", f.name.value.swapcase(), f.name.value[:-1] or "q"])
        return True
    if rule == "unique_fragment_names":
        f = pick(r, docs, FragmentDefinitionNode)
        if f is None:
            return add_def(r, docs, "fragment Zz on Query { __typename } fragment Zz on Query { a: __typename } query Zq { ...Zz }")
        return add_def(r, docs, S([print_ast(f), f"fragment {f.name.value} on {f.type_condition.name.value} {{ __typename }}"]))
    if rule == "known_fragment_names":
        f = pick(r, docs, FragmentSpreadNode) if r.random() < 0.5 else None
        if f:
            f.name.value += "x"
        else:
            add(some_set(r, docs), "selections", sel("...Nope"), r)
        return True
    if rule == "possible_fragment_spreads":
        add(some_set(r, docs), "selections", sel(f"... on {S(comp)} {{ __typename }}"), r)
        return True
    if rule == "no_fragment_cycles":
        f = pick(r, docs, FragmentDefinitionNode)
        if f is None:
            return add_def(r, docs, "fragment Za on Query { ...Zb } fragment Zb on Query { ...Za } query Zq { ...Za }".replace("Query", w.root_types["query"]))
        add(f.selection_set, "selections", sel("..." + f.name.value), r)
        return True
    if rule == "no_unused_fragments":
        t = S(comp + [w.root_types["query"]])
        return add_def(r, docs, f"fragment {S(['Zz', 'zUnused', 'Zz_1'])} on {t} {{ __typename }}")
    if rule == "unique_variable_names":
        o = op(where=lambda n: n.variable_definitions)
        if o is None:
            return False
        add(o, "variable_definitions", copy.deepcopy(S(o.variable_definitions)), r)
        return True
    if rule == "no_undefined_variables":
        if r.random() < 0.5:
            o = op(where=lambda n: n.variable_definitions)
            return o is not None and drop(o, "variable_definitions", r)
        f = pick(r, docs, FieldNode)
        add(f, "directives", sel("a @include(if: $zznope)").directives[0])
        return True
    if rule == "no_unused_variables":
        t = S(["Int", "[String!]"] + list(w.inputs) + list(w.enums))
        add(op(), "variable_definitions", parse(f"query A($zz: {t}) {{ a }}").definitions[0].variable_definitions[0], r)
        return True
    if rule == "known_directives":
        n = pick(r, docs, FieldNode, FragmentSpreadNode, InlineFragmentNode, OperationDefinitionNode)
        text = "a @nope" if not isinstance(n, OperationDefinitionNode) else S(["a @nope", "a @include(if: true)", "a @skip(if: false)"])
        add(n, "directives", sel(text).directives[0])
        return True
    if rule == "unique_directives_per_location":
        f = pick(r, docs, FieldNode, FragmentSpreadNode)
        d = sel(S(["a @include(if: true)", "a @skip(if: false)"])).directives[0]
        add(f, "directives", d)
        add(f, "directives", copy.deepcopy(d))
        return True
    if rule == "known_argument_names":
        f = pick(r, docs, FieldNode, where=lambda n: n.arguments or r.random() < 0.2) or pick(r, docs, FieldNode)
        add(f, "arguments", sel("a(zz: 1)").arguments[0], r)
        return True
    if rule == "unique_argument_names":
        f = pick(r, docs, FieldNode, where=lambda n: n.arguments)
        if f is None:
            f = pick(r, docs, FieldNode)
            for _ in range(2):
                add(f, "directives", sel("a @skip(if: false, if: true)").directives[0]) if not f.directives else None
            return True
        add(f, "arguments", copy.deepcopy(S(f.arguments)), r)
        return True
    if rule == "values_of_correct_type":
        a = pick(r, docs, ArgumentNode, ObjectFieldNode, where=lambda n: not isinstance(n.value, VariableNode))
        bad = S(['"zz"', "99999999999999", "1.5", "NOPE_VALUE", "{zz: 1}", "[[[[1]]]]", "null", "true"])
        value = sel(f"a(a: {bad})").arguments[0].value
        if a is None or r.random() < 0.2:
            v = pick(r, docs, VariableDefinitionNode)
            if v is None:
                f = pick(r, docs, FieldNode)
                add(f, "directives", sel(f"a @skip(if: {bad})").directives[0])
                return True
            v.default_value = value
        else:
            a.value = value
        return True
    if rule == "provided_required_arguments":
        f = pick(r, docs, FieldNode, where=lambda n: n.arguments)
        if f is None or r.random() < 0.3:
            f = pick(r, docs, FieldNode)
            add(f, "directives", DirectiveNode(name=name(S(["skip", "include"])), arguments=()))
            return True
        return drop(f, "arguments", r)
    if rule == "variables_in_allowed_position":
        v = pick(r, docs, VariableDefinitionNode)
        if v is None or r.random() < 0.3:
            o = op()
            add(o, "variable_definitions", parse("query A($zz: Boolean) { a }").definitions[0].variable_definitions[0], r)
            add(o.selection_set.selections[0], "directives", sel("a @include(if: $zz)").directives[0])
            return True
        t = v.type
        v.type = S([NamedTypeNode(name=name(S(["Int", "String", "Boolean"]))), getattr(t, "type", t), parse("query A($zz: [Int]) { a }").definitions[0].variable_definitions[0].type])
        return True
    if rule == "overlapping_fields_can_be_merged":
        s = some_set(r, docs, where=lambda n: sum(isinstance(x, FieldNode) for x in n.selections) >= 2)
        if s is None:
            s = some_set(r, docs)
            f = next((x for x in s.selections if isinstance(x, FieldNode)), None)
            if f is None:
                return False
            add(s, "selections", sel(f"{(f.alias or f.name).value}: __typename"), r)
            return True
        a, b = r.sample([x for x in s.selections if isinstance(x, FieldNode)], 2)
        b.alias = name((a.alias or a.name).value)
        return True
    if rule == "unique_input_field_names":
        o = pick(r, docs, ObjectValueNode, where=lambda n: n.fields)
        if o is None:
            f = pick(r, docs, FieldNode)
            add(f, "directives", sel("a @skip(if: {a: 1, a: 2})").directives[0])
            return True
        add(o, "fields", copy.deepcopy(S(o.fields)), r)
        return True
    raise KeyError(rule)


def token_edit(r, text):
    """Remove, repeat, swap or replace one token of a document."""
    lx, toks = Lexer(Source(text)), []
    while True:
        t = lx.advance()
        if t.kind is TokenKind.EOF:
            break
        toks.append((t.start, t.end))
    i = r.randrange(len(toks))
    a, b = toks[i]
    k = r.random()
    if k < 0.4:
        return text[:a] + " " + text[b:]
    if k < 0.6:
        return text[:b] + " " + text[a:b] + text[b:]
    if k < 0.8:
        c, d = toks[r.randrange(len(toks))]
        return text[:a] + text[c:d] + text[b:]
    return text[:a] + r.choice(["zz", "$zz", "@zz", "...", "{", "}", "(", ")", "!", ":", "=", "1", "-", '"', "null", "#", "on", "|", "ä", "\\", '"""']) + " " + text[b:]


def judge(schema, files, omit=()):
    """(violations by rule, syntax error?) of files in order, each parsed on its own; None if only the joined text parses."""
    defs = []
    try:
        for f in sorted(files):
            if re.sub(r"#[^\n]*|[\s,\ufeff]", "", files[f]):
                defs.extend(parse(files[f]).definitions)
    except Exception:
        try:
            parse("\n".join(files[f] for f in sorted(files)))
        except Exception:
            return None, True
        return None, None
    if not defs:
        return None, None
    doc, out = DocumentNode(definitions=tuple(defs)), {}
    for k, rule in RULES.items():
        if k not in omit:
            try:
                errs = validate(schema, doc, [rule])
            except Exception:       # the reference itself gives up on some defects
                return None, None
            if errs:
                out[k] = [e.message for e in errs]
    return out, False


HARMLESS = {"no_unused_fragments", "no_unused_variables"}


def case(ctx):
    r = ctx.rng
    w = world.make_world(f"{ctx.seed}", world.Opts(n_frags=(0, 5), n_ops=(2, 4)))
    omit_conf = lambda o: {"omited_document_rules": sorted(o, key=lambda x: r.random())} if o or r.random() < 0.5 else {}

    def attempt(files, omit, sc):
        d = sc.join("docs")
        for n, t in files.items():
            sc.write("docs/" + n, t)
        try:
            return gen.generate(sp, sc.join("docs", "*.graphql"), gen.turms_config(plugins, **omit_conf(omit))), None
        except Exception as e:
            return None, e

    plugins = gen.CLIENT_PLUGINS
    with gen.Scratch() as sc:
        sp = sc.write("schema.graphql", w.sdl)
        clean, e = attempt(w.files, (), sc)
        if clean is None:
            ctx.fail("generation failed for a valid document", error=repr(e), sdl=w.sdl, documents=w.doc_text)
            return
        ctx.count("accepted")
        omit = r.sample(sorted(RULES), r.choice([1, 3, len(RULES)]))
        code, e = attempt(w.files, omit, sc)
        if code != clean:
            ctx.fail("omitting rules changed the code of a valid document", omitted=omit, error=repr(e), documents=w.doc_text)
            return
        ctx.count("accepted")
        ctx.observed(("clean", tuple(sorted(omit))[:3]), 2)

        aims = r.sample(sorted(RULES), 5) + ["token"] * 3
        for aim in aims:
            files = dict(w.files)
            if aim == "token":
                f = r.choice(sorted(files))
                files[f] = token_edit(r, files[f])
                ctx.count("token_edits")
            else:
                docs = {k: copy.deepcopy(parse(v, no_location=True)) for k, v in files.items()}
                n = 1 if r.random() < 0.8 else 2
                for a in [aim] + r.sample(sorted(RULES), n - 1):
                    try:
                        mutate(r, w, docs, a)
                    except (IndexError, AttributeError):
                        continue        # no place for this defect
                files = {k: print_ast(v) + "\n" for k, v in docs.items()}
                for k, v in files.items():
                    try:
                        parse(v)
                    except Exception:
                        break           # the printer cannot express the defect
                else:
                    k = None
                if k:
                    continue
            violated, syntax = judge(w.schema, files)
            if syntax is None:
                continue
            if syntax:
                code, e = attempt(files, (), sc)
                ctx.count("syntax_refused")
                ctx.observed(("syntax", None), 1)
                if code is not None or not re.search("syntax", repr(e) + repr(e.__cause__), re.I):
                    ctx.fail("a document with a syntax error was not refused as such", files=files, error=repr(e))
                    return
                continue
            for k in violated:
                ctx.count("rule_" + k)
            code, e = attempt(files, (), sc)
            told = repr(e) + str(e) + str(e.__cause__ if e is not None else "")
            if violated:
                ctx.count("refused")
                ctx.observed((tuple(sorted(violated)), ()), 1)
                if code is not None:
                    ctx.fail("an invalid document was accepted", violated=violated, files=files, sdl=w.sdl)
                    return
                for k, ms in violated.items():
                    for m in ms:
                        if m not in told:
                            ctx.fail("the refusal does not name a violation", violation=m, rule=k, error=told, files=files)
                            return
                # only the violated rules omitted
                rest = set(RULES) - set(violated)
                omit = set(violated) | set(r.sample(sorted(rest), r.choice([0, 0, 4])))
                code, e = attempt(files, omit, sc)
                ctx.count("omitted")
                ctx.observed((tuple(sorted(violated)), tuple(sorted(omit))), 1)
                if code is None:
                    text = str(e) + str(e.__cause__)
                    if type(e).__name__ == "InvalidDocuments" or any(m in text for ms in violated.values() for m in ms):
                        ctx.fail("an omitted rule still refuses documents", omitted=sorted(omit), violated=violated, error=text, files=files)
                        return
                    if set(violated) <= HARMLESS:
                        ctx.fail("generation failed for documents violating only omitted harmless rules", violated=violated, error=repr(e), files=files, sdl=w.sdl)
                        return
                elif set(violated) <= HARMLESS:
                    ctx.count("harmless_generated")
                    mod = gen.load(code)
                    ops = gen.operations_of(mod)
                    want = {d.name.value: d for f in files.values() for d in parse(f).definitions if isinstance(d, OperationDefinitionNode)}
                    for o, d in want.items():
                        if o not in ops:
                            ctx.fail("an operation was lost with rules omitted", operation=o, files=files)
                            return
                        sent = parse(ops[o].Meta.document).definitions
                        main = [x for x in sent if isinstance(x, OperationDefinitionNode)][0]
                        if [print_ast(v) for v in main.variable_definitions] != [print_ast(v) for v in d.variable_definitions]:
                            ctx.fail("variables of an operation changed", operation=o, sent=print_ast(main), files=files)
                            return
                    gen.unload(mod)
                # other rules omitted: still refused for what is left
                keep = r.choice(sorted(violated))
                omit = set(RULES) - {keep} if r.random() < 0.5 else set(r.sample(sorted(set(RULES) - {keep}), 4))
                code, e = attempt(files, omit, sc)
                ctx.count("others_omitted")
                ctx.observed((tuple(sorted(violated)), tuple(sorted(omit))), 1)
                text = str(e) + str(e.__cause__ if e is not None else "")
                left = [m for k, ms in violated.items() if k not in omit for m in ms]
                if code is not None or not all(m in text for m in left):
                    ctx.fail("a violation was not refused when other rules are omitted", omitted=sorted(omit), violated=violated, error=text, files=files)
                    return
            else:
                ctx.count("accepted")
                ctx.observed(("accepted", aim), 1)
                if code is None and (type(e).__name__ == "InvalidDocuments"):
                    ctx.fail("a valid document was refused", error=str(e), files=files, sdl=w.sdl)
                    return

"""Writes properties.jsonl and MANIFEST.json from one table (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note))


T = "turms/"
G = "for the schemas, documents and options the generator of the monitor can produce; graphql-core and pydantic are trusted"

prop("C01", "Every valid response is parsed without loss",
     "For every operation, every response a conforming server can return is accepted by the class generated for the operation. The parsed object carries every selected value under its response key, as the python counterpart of its schema type, and serializing it again gives back the response.",
     ["programs", "inputs", "configurations"], "all schemas, documents, naming styles and conforming responses (nulls, lists of any length, any concrete type at abstract positions)",
     "Tests parse a handful of fixed responses for fixed schemas; fidelity must hold for every response of every operation of every schema.",
     [T + "recurse.py", T + "plugins/operations.py", T + "plugins/fragments.py", T + "registry.py", T + "utils.py"],
     [("selection sets become nested classes", "turms/recurse.py recurse_annotation/type_field_node"), ("fragments become base classes", "turms/plugins/fragments.py"), ("aliases keep wire names", "turms/registry.py generate_node_name")],
     ["generated operation class: construction and by-alias dump"],
     "runtime monitor: reference GraphQL server executes the generated documents; every parsed value is compared with the wire value",
     "Exploration: thousands of random responses per run compared value by value, " + G)

prop("C02", "Responses breaking the schema's promises are rejected",
     "A response in which a selected non-null value is null or missing, a value has the wrong kind, an enum value is unknown, a list is no list, or a concrete object reports a foreign typename raises a validation error instead of producing an object.",
     ["programs", "inputs", "fault_sequences"], "all operations, conforming responses and single conformance faults at any position and depth",
     "Tests check acceptance almost exclusively; strictness at every position of every selection cannot be sampled by hand.",
     [T + "recurse.py", T + "plugins/operations.py", T + "plugins/fragments.py", T + "plugins/enums.py"],
     [("nullability mapped to Optional", "turms/recurse.py recurse_annotation"), ("literal typenames", "turms/utils.py generate_typename_field")],
     ["generated operation class: construction"], "runtime monitor with fault injection into conforming responses",
     "Exploration: thousands of injected faults per run, each must be refused; below interface selections only without catch-all classes; " + G)

prop("C03", "Polymorphic selections resolve to the class of the concrete type",
     "At every interface or union position a value is parsed into a class carrying exactly the fields selected for its concrete type, distinct from the classes of other concrete types, and for interfaces sharing a base with the commonly selected fields. A type unknown to the schema at an interface position is parsed by the catch-all with the common fields when that option is on, and rejected when it is off.",
     ["programs", "inputs", "configurations"], "all interface and union selections (inline fragments, spreads, nested, in lists), every concrete type, catch-all on and off",
     "Tests cover a few fixed selections with one or two concrete types.",
     [T + "recurse.py", T + "plugins/fragments.py", T + "registry.py"],
     [("discriminated unions on the typename", "turms/recurse.py recurse_annotation"), ("catch-all classes", "turms/recurse.py"), ("interface fragments per implementation", "turms/plugins/fragments.py")],
     ["classes of parsed values"], "runtime monitor: every concrete type is forced at every abstract position and the chosen class is judged",
     "Exploration: over ten thousand positions per run; " + G)

prop("C04", "The document sent to the server is the user's operation",
     "The document carried by each generated operation is valid for the schema, contains exactly the user's operation and the fragments it needs once, and differs from the user's text only by added typename selections. Executing it returns the user's response plus typenames.",
     ["programs"], "all operations with any fragment graph, comments, strings, directives, variables and file layout",
     "Tests compare a few documents by substring; fragment closure must be right for every fragment graph and text.",
     [T + "plugins/operations.py", T + "plugins/fragments.py", T + "utils.py", T + "registry.py"],
     [("typenames are added recursively", "turms/utils.py add_typename_recursively"), ("fragment closure", "turms/utils.py replace_iteratively")],
     ["document string of the generated operation class"], "runtime monitor: emitted documents are parsed, diffed against the user's AST and executed on the reference server",
     "Exploration: thousands of documents compared structurally and by execution; " + G)

prop("C05", "Generated modules are self-contained and load",
     "For every supported schema, document and configuration the generated source compiles and imports in a fresh module, every name used in annotations and function bodies resolves to the intended definition, every import exists and is used consistently, and no definition silently replaces another.",
     ["programs", "configurations"], "all combinations of plugins, stylers and options over random schemas and documents",
     "Tests import generated code for fixed schemas and mostly one configuration each.",
     [T + "registry.py", T + "run.py", T + "plugins/funcs.py", T + "plugins/inputs.py", T + "plugins/enums.py", T + "plugins/fragments.py", T + "plugins/operations.py", T + "recurse.py"],
     [("import registration", "turms/registry.py register_import/generate_imports"), ("forward references are rebuilt", "turms/registry.py generate_forward_refs"), ("fragment ordering", "turms/plugins/fragments.py")],
     ["source text and imported module"], "runtime monitor: import spy, annotation resolution and global-load audit on every generated module",
     "Exploration: tens of thousands of names and annotations resolved per run; " + G)

prop("C06", "Variables are serialized exactly as given",
     "Any variables acceptable to the schema are accepted by the generated argument model, as JSON or built from the generated input classes, and serialize to exactly the given values under their GraphQL names: explicit nulls are kept and omitted values stay absent. Missing or null required values, wrong kinds and unknown enum values are refused.",
     ["programs", "inputs", "fault_sequences", "configurations"], "all input types (nested, recursive, lists, defaults, keyword and camel-case names), all variable assignments and single faults",
     "Tests check a few literal inputs; omission, null and alias handling must be right for each field of every input type.",
     [T + "plugins/inputs.py", T + "plugins/operations.py", T + "registry.py", T + "utils.py"],
     [("argument models", "turms/plugins/operations.py generate_query"), ("input models with aliases and omitted defaults", "turms/plugins/inputs.py")],
     ["argument model: construction and by-alias, exclude-unset dump"], "runtime monitor: round trip of random variables against graphql-core's coercion, plus fault injection",
     "Exploration: ten thousands of assignments per run; " + G)

prop("C07", "Call functions transmit exactly the caller's arguments once",
     "Calling a generated function sends one request to the configured executor, with the operation's class, the caller's extra arguments and exactly the given variables, and returns the parsed response, its only field when collapsing is on, or every event of a stream in order. Required arguments cannot be left out, optional ones can, and executor errors reach the caller.",
     ["programs", "inputs", "configurations", "fault_sequences"], "all operations of every kind, sync and async, with extra parameters, expanded inputs, styled names, collapsed or not; any arguments; executor failures",
     "Tests inspect the text of generated functions or call a few with mocks.",
     [T + "plugins/funcs.py", T + "recurse.py", T + "utils.py"],
     [("signature and variable assembly", "turms/plugins/funcs.py generate_parameters/generate_variable_assignments"), ("executor calls", "turms/plugins/funcs.py genereate_sync_call and siblings")],
     ["recording executors at the configured import path"], "runtime monitor: recording executors log every transmission; an offline oracle checks exactly-once and content",
     "Exploration: ten thousands of recorded calls per run; " + G)

prop("C09", "Polymorphic inputs always reach the wire in tagged form",
     "A one-of input built from the generated classes always serializes to exactly one non-null tag with the member's wire form, and a member of a discriminated input union always carries its discriminator, at any nesting and naming style. Values with a null or missing tag, a foreign member or a wrong discriminator are refused, as are schemas whose polymorphic inputs contradict themselves.",
     ["programs", "inputs", "fault_sequences"], "all one-of inputs (object members, scalars, mixed, duplicate, nested) and discriminated unions (shared members, several unions), all values",
     "Tests use one schema per mode with literal values and unstyled names.",
     [T + "plugins/inputs.py", T + "referencer.py", T + "registry.py"],
     [("direct unions with a serializer", "turms/plugins/inputs.py generate_oneof_direct_union"), ("wrapper classes", "turms/plugins/inputs.py generate_oneof_wrapper_input"), ("literal discriminators", "turms/plugins/inputs.py generate_input_type")],
     ["argument model dump"], "runtime monitor: random polymorphic values against an independent wire-form model, plus fault injection",
     "Exploration: thousands of polymorphic values per run; " + G)

prop("C11", "Generation is deterministic",
     "Generating the same project always produces byte-identical code, whatever the hash seed, the working directory, the location of the project, and what else was generated before in the same process.",
     ["programs", "configurations", "histories"], "all projects and plugin combinations; all interpreter hash seeds; all histories of generations in one process",
     "Tests generate once per process; divergence shows only between processes or after particular histories.",
     [T + "run.py", T + "registry.py", T + "referencer.py", T + "utils.py", T + "plugins/fragments.py"],
     [("sorted imports and builtins", "turms/registry.py generate_imports"), ("fresh registry per run", "turms/run.py generate_ast"), ("sorted globs", "turms/utils.py parse_documents")],
     ["generated source bytes"], "runtime monitor: differential histories over several interpreters, hash seeds, orders and directories",
     "Exploration: hundreds of projects times several interpreters per run; " + G)

NOT_APPLICABLE = []


def main():
    exec(open(os.path.join(HERE, "tools", "props_more.py")).read(), globals()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [
        {"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
         "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
        "not_applicable": NOT_APPLICABLE}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

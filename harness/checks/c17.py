"""C17: every form of configuration means the same, mistakes are refused, the environment only speaks through TURMS_."""
import contextlib
import copy
import json
import os

import yaml

from .. import confs, gen, world

PROP = "C17"
RULE = ("Random configurations are written as YAML, JSON and TOML, single and multi project, under every discoverable name, or moved into TURMS_ "
        "environment variables; the generated code must be the same byte for byte, file values must win, unprefixed variables must have no effect. "
        "The same configurations with one mistake (unknown key, wrong type, bad import, half a pair, unknown rule, broken file, missing part, ambiguous "
        "folder) must be refused before any code is produced. Non-trivial: a generation compared or a mistake refused; distinct by (form, option).")
N_QUICK, N_THOROUGH = 220, 4500
REQUIRE = {"same_form": 1000, "env_option": 400, "env_file_wins": 250, "env_unrelated": 200, "mistakes": 1200, "scans": 250}

NOISE = {"ENABLED": "true", "TYPES": '["input","object","fragment","query"]', "INCLUDE": '["Nothing"]', "EXCLUDE": '["Nothing"]', "EXTRA": "allow",
         "VALIDATE_ASSIGNMENT": "true", "USE_ENUM_VALUES": "true", "ORM_MODE": "true", "ALLOW_MUTATION": "false", "CONVERT_LIST_TO_TUPLE": "false",
         "APPEND_QUERY": "Zz", "APPEND_FRAGMENT": "Zz", "APPEND_ENUM": "Zz", "CAPITALIZE_QUERY": "false", "CAPITALIZE_INPUT": "false",
         "SKIP_UNREFERENCED": "false", "SKIP_UNDERSCORE": "true", "PREPEND_SYNC": "zz_", "PREPEND_ASYNC": "zz_", "COLLAPSE_LONELY": "false",
         "DOCUMENTS": "/nonexistent/*.graphql", "SCHEMA": "/nonexistent.graphql", "PROJECTS": "/home/someone/projects", "EXTENSIONS": "{}",
         "OUT_DIR": "/nonexistent", "FREEZE": '{"enabled": true}', "OPTIONS": '{"enabled": true, "extra": "allow"}', "DOMAIN": "noise",
         "SCALAR_DEFINITIONS": "{}", "PLUGINS": "[]", "STYLERS": "[]", "PROCESSORS": "[]", "PYDANTIC_VERSION": "v1", "SKIP_FORWARDS": "true",
         "EXCLUDE_TYPENAMES": "true", "CREATE_CATCHALL": "false", "OBJECT_BASES": '["os.PathLike"]', "FIX": "true", "FORMAT": "false", "COMMAND": "false",
         "DISCLAIMER": "noise", "PYTHON_VERSION": "3.7", "GENERATE_META_CLASS": "false", "ARGUMENTS_ALLOW_POPULATION_BY_FIELD_NAME": "true", "TYPE": "noise"}


@contextlib.contextmanager
def environ(**env):
    old = {k: os.environ.get(k) for k in env}
    os.environ.update(env)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                del os.environ[k]
            else:
                os.environ[k] = v


def run_file(path, select=None):
    """{project name: code} of a configuration file."""
    from turms.run import generate, load_projects_from_configpath
    out = {}
    with gen.quiet():
        for n, p in load_projects_from_configpath(path, select).items():
            out[n] = generate(p, log=lambda *a, **k: None)[0]
    return out


def toml_text(data):
    import toml
    try:
        text = toml.dumps(data)
        return text if toml.loads(text) == data else None
    except Exception:
        return None


def yaml_text(r, data):
    return yaml.safe_dump(data, default_flow_style=r.random() < 0.3, sort_keys=r.random() < 0.5, allow_unicode=True)


def env_options(r, w):
    """[(environment variable, setter on the turms section, section)]; values which change the code."""
    def top(key, value):
        return (f"TURMS_{key.upper()}", value if isinstance(value, str) else json.dumps(value), lambda t: t.__setitem__(key, value), lambda t: t.pop(key, None))
    out = [top("exclude_typenames", True), top("create_catchall", False), top("skip_forwards", r.random() < 0.5), top("document_field_metadata", False),
           top("domain", "somewhere"), top("object_bases", ["vt_traits.ObjectBase"]), top("graphql_default_class", "vt_markers.MyDefault"),
           top("deprecated_class", "vt_markers.MyDeprecated"), top("freeze", {"enabled": True, "convert_list_to_tuple": False}),
           top("options", {"enabled": True, "extra": "forbid"}), top("scalar_definitions", {**gen.SCALAR_DEFS, "Slug": "typing.Any", "Date": "str"}),
           top("stylers", [gen.styler("appender", append_query="Asked")]), top("additional_bases", {n: ["vt_traits.TypeTrait"] for n in list(w.objects)[:2]}),
           top("omited_document_rules", ["NoUnusedFragments"]), top("processors", [])]
    for short, key, value in (("enums", "skip_unreferenced", False), ("inputs", "skip_unreferenced", False), ("fragments", "generate_meta_class", False),
                              ("operations", "arguments_allow_population_by_field_name", True), ("inputs", "inputtype_bases", ["vt_traits.InputBase"])):
        def setter(t, short=short, key=key, value=value):
            for p in t["plugins"]:
                if f".{short}." in p["type"]:
                    p[key] = value

        def popper(t, short=short, key=key):
            for p in t["plugins"]:
                if f".{short}." in p["type"]:
                    p.pop(key, None)
        out.append((f"TURMS_PLUGINS_{short.upper()}_{key.upper()}", json.dumps(value), setter, popper))
    return out


def mistakes(r, base):
    """[(description, configuration)] with one mistake each."""
    out = []

    def mutated(what, fn):
        c = copy.deepcopy(base)
        try:
            fn(c, c["extensions"]["turms"])
        except (KeyError, IndexError):
            return
        out.append((what, c))
    junk = r.choice(["unknown_option", "Plugins", "out-dir", "frozen", "scalar_definition"])
    mutated("unknown option", lambda c, t: t.__setitem__(junk, r.choice([True, "x", {}, []])))
    mutated("unknown freeze option", lambda c, t: t.__setitem__("freeze", {"enabled": True, "kinds": ["object"]}))
    mutated("unknown model option", lambda c, t: t.__setitem__("options", {"enabled": True, "validate": True}))
    for i, p in enumerate(base["extensions"]["turms"]["plugins"]):
        mutated("unknown option of " + p["type"], lambda c, t: t["plugins"][i].__setitem__("no_such_option", 1))
        mutated("wrong option of " + p["type"], lambda c, t: t["plugins"][i].__setitem__({"enums": "skip_underscore", "inputs": "skip_unreferenced", "fragments": "generate_meta_class",
                "operations": "arguments_allow_population_by_field_name", "funcs": "collapse_lonely", "input_funcs": "skip_unreferenced"}[p["type"].split(".")[2]], r.choice(["perhaps", [1], {"a": 1}])))
    for s in ("default", "capitalize", "snake", "appender"):
        mutated("unknown option of styler " + s, lambda c, t: t["stylers"].append(gen.styler(s, no_such_option="x")))
    for pr, m in (("black", "BlackProcessor"), ("isort", "IsortProcessor"), ("ruff", "RuffProcessor"), ("disclaimer", "DisclaimerProcessor"), ("merge", "MergeProcessor")):
        mutated("unknown option of processor " + pr, lambda c, t: t["processors"].append({"type": f"turms.processors.{pr}.{m}", "no_such_option": 1}))
    mutated("command processor without command", lambda c, t: t["processors"].append({"type": "turms.processors.command.CommandProcessor"}))
    mutated("unknown option of parser", lambda c, t: t["parsers"].append({"type": "turms.parsers.polyfill.PolyfillParser", "no_such_option": 1}))
    mutated("unknown python version", lambda c, t: t["parsers"].append({"type": "turms.parsers.polyfill.PolyfillParser", "python_version": r.choice(["2.7", "4", "abc"])}))
    for k, bad in (("create_catchall", ["perhaps", 7, [], None]), ("freeze", ["yes", 3, []]), ("options", ["yes", []]), ("plugins", ["x", {"a": 1}, [5], ["turms.plugins.enums.EnumsPlugin"]]),
                   ("stylers", [{"a": 1}, ["x"]]), ("object_bases", ["pydantic.BaseModel", 3]), ("scalar_definitions", [["a"], {"Date": 5}, {"Date": "nodots"}, {"Date": "Str"}, {"Date": "INT"}, {"Date": "Bool"}]),
                   ("pydantic_version", ["v3", "2", 2, "1"]), ("omited_document_rules", [["NoSuchRule"], ["noUnusedFragments"], "NoUnusedFragments"]),
                   ("additional_bases", [{"A": ["nodots"]}, {"A": "a.b"}, {"A": [1]}, ["a.b"]]), ("graphql_default_class", ["nodots", 5]),
                   ("coercible_scalars", [{"ID": "nodots"}]), ("out_dir", [5, None, []]), ("generated_name", [[], 1.5]), ("additional_config", [{"A": 5}, "x"]),
                   ("skip_forwards", ["x"]), ("exclude_typenames", [{"a": 1}])):
        mutated(f"wrong {k}", lambda c, t: t.__setitem__(k, r.choice(bad)))
    mutated("wrong kind to freeze", lambda c, t: t.__setitem__("freeze", {"enabled": True, "types": ["operations"]}))
    mutated("wrong extra option", lambda c, t: t.__setitem__("options", {"enabled": True, "extra": "sometimes"}))
    for k in ("plugins", "stylers", "processors", "parsers"):
        mutated(f"{k} which cannot be imported", lambda c, t: t[k].append({"type": r.choice(["turms.nope.Nope", "turms.plugins.enums.NoSuchPlugin", "nodots", ""])}))
        mutated(f"{k} without a type", lambda c, t: t[k].append({"config": {}}))

    def half(c, t):
        t.pop("unset_type_class", None)
        t.pop("unset_instance", None)
        t[r.choice(["unset_type_class", "unset_instance"])] = "vt_markers.MISSING"
    mutated("half an unset pair", half)
    mutated("no schema", lambda c, t: c.pop("schema"))
    mutated("no extensions", lambda c, t: c.pop("extensions"))
    mutated("no turms section", lambda c, t: c["extensions"].pop("turms"))
    mutated("wrong schema", lambda c, t: c.__setitem__("schema", r.choice([5, None, True])))
    mutated("wrong documents", lambda c, t: c.__setitem__("documents", r.choice([5, {"a": 1}])))
    mutated("missing schema file", lambda c, t: c.__setitem__("schema", c["schema"] + ".nope"))
    mutated("missing documents", lambda c, t: (c.__setitem__("documents", c["documents"].replace(".graphql", ".nope")), t.pop("documents", None)))
    return out


NAMES = ["graphql.config", ".graphqlrc"]


def case(ctx):
    r = ctx.rng
    w = world.make_world(ctx.seed, world.Opts(oneof=False, n_objects=(1, 3), n_ops=(1, 3), n_root=(2, 4), max_depth=2))
    plugins, stylers, kw = confs.random_conf(r, w)
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)
        turms = json.loads(json.dumps(gen.turms_config(plugins, stylers=stylers, **kw)))
        base = {"schema": sp, "documents": dg, "extensions": {"turms": turms}}
        if r.random() < 0.3:
            base["extensions"]["endpoints"] = {"dev": {"url": "http://localhost"}}
        ref = sc.write("ref/config.json", json.dumps(base))
        try:
            want = run_file(ref)["default"]
        except Exception as e:
            return ctx.fail("a valid configuration is refused", error=repr(e), cause=repr(e.__cause__), conf=base)
        same_forms(ctx, r, sc, base, want)
        environment(ctx, r, sc, base, want, w)
        refusals(ctx, r, sc, base)


def decoys(name):
    """Files which are no configurations of their folder, though named much like one."""
    return ["config.yaml", name + ".bak", "graphql.yaml", "graphqlrc.json", "package.json", "old." + name, "my-" + name, "x" + name, name + "~", name + "c",
            "sub/" + name, name.replace(".", "_"), name.rsplit(".", 1)[0] + ".ini", name.rsplit(".", 1)[0]]


def same_forms(ctx, r, sc, base, want):
    from turms.run import scan_folder_for_single_config
    forms = []
    for ext, dump in (("json", lambda d: json.dumps(d, indent=r.choice([None, 2]))), ("yaml", lambda d: yaml_text(r, d)), ("yml", lambda d: yaml_text(r, d)), ("toml", toml_text)):
        for shape in ("single", "multi"):
            forms.append((ext, dump, shape))
    for i, (ext, dump, shape) in enumerate(forms):
        data = base if shape == "single" else {"projects": {"one": base, "two": base}}
        text = dump(data)
        if text is None:
            ctx.count("toml_skipped")
            continue
        folder = f"form{i}"
        name = f"{r.choice(NAMES)}.{ext}"
        p = sc.write(f"{folder}/{name}", text)
        for decoy in r.sample(decoys(name), 2):
            sc.write(f"{folder}/{decoy}", "nonsense: [")
        ctx.count("scans")
        try:
            found = scan_folder_for_single_config(sc.join(folder))
            if not ctx.check(os.path.realpath(found) == os.path.realpath(p), "the configuration of a folder is not the one found", found=found, expected=p):
                return
            got = run_file(found)
        except Exception as e:
            ctx.fail("a configuration is refused in another form", form=(name, shape), error=repr(e), cause=repr(e.__cause__), text=text[:3000])
            return
        ctx.count("same_form")
        ctx.observed((ext, shape, i, text[:200]))
        if not ctx.check(set(got) == ({"default"} if shape == "single" else {"one", "two"}) and all(c == want for c in got.values()),
                         "the form of a configuration changes the generated code", form=(name, shape), projects=sorted(got),
                         diff=first_diff(want, next(iter(got.values())))):
            return
        if shape == "multi" and not ctx.check(set(run_file(found, "two")) == {"two"}, "selecting a project does not select it", form=name):
            return
    # ambiguous and empty folders
    sc.write("both/graphql.config.yaml", "a: 1")
    sc.write("both/.graphqlrc.json", "{}")
    os.makedirs(sc.join("none"), exist_ok=True)
    for decoy in r.sample(decoys(f"{r.choice(NAMES)}.{r.choice(['json', 'yaml', 'yml', 'toml'])}"), 3):
        sc.write(f"none/{decoy}", json.dumps(base))
    for d in ("both", "none"):
        ctx.count("scans")
        try:
            found = scan_folder_for_single_config(sc.join(d))
            ctx.fail("a folder without exactly one configuration is accepted", folder=d, found=found)
        except Exception:
            pass


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a.splitlines(), b.splitlines())):
        if x != y:
            return f"line {i}: {x!r} != {y!r}"
    return f"lengths {len(a)} {len(b)}"


def environment(ctx, r, sc, base, want, w):
    for var, text, put, drop in r.sample(env_options(r, w), 3):
        explicit, bare = copy.deepcopy(base), copy.deepcopy(base)
        put(explicit["extensions"]["turms"])
        drop(bare["extensions"]["turms"])
        if var.endswith(("_BASES", "_CONFIG")) and var.startswith("TURMS_ADD") and not w.objects:
            continue
        pe, pb = sc.write("env/explicit.json", json.dumps(explicit)), sc.write("env/bare.json", json.dumps(bare))
        try:
            expected = outcome(pe)
            with environ(**{var: text}):
                got = outcome(pb)
                forced = outcome(pe)
                kept = outcome(sc.write("env/base.json", json.dumps(base))) if var.split("_", 1)[1].lower() in base["extensions"]["turms"] and not text.startswith("{") else None
        except Exception as e:
            ctx.fail("an option is refused in the environment", variable=var, value=text, error=repr(e), cause=repr(e.__cause__))
            return
        ctx.count("env_option")
        ctx.observed((var, text))
        if not ctx.check(got == expected, "an option in the environment does not mean the same as in the file", variable=var, value=text,
                         diff=first_diff(str(expected[1]), str(got[1]))):
            return
        ctx.count("env_file_wins")
        if not ctx.check(forced == expected and kept in (None, ("code", want)), "an option in the environment replaces the one of the file", variable=var, value=text):
            return
    names = r.sample(sorted(NOISE), r.randint(5, len(NOISE)))
    ctx.count("env_unrelated")
    p = sc.write("env/multi.json", json.dumps({"projects": {"only": base}}))
    with environ(**{n: NOISE[n] for n in names}):
        try:
            got = {**run_file(sc.join("ref", "config.json")), **run_file(p)}
        except Exception as e:
            ctx.fail("an unrelated environment variable breaks the generation", error=repr(e), cause=repr(e.__cause__), variables=names)
            return
    ctx.observed(("noise", tuple(names)))
    ctx.check(set(got) == {"default", "only"} and all(c == want for c in got.values()), "an unrelated environment variable changes the generated code",
              variables=names, diff=first_diff(want, got["default"]))


def outcome(path):
    try:
        return ("code", run_file(path)["default"])
    except Exception as e:
        return ("refused", type(e).__name__)


def refusals(ctx, r, sc, base):
    bad = mistakes(r, base)
    for what, conf in r.sample(bad, min(len(bad), 6)):
        form = r.choice(["json", "yaml"])
        if r.random() < 0.3:
            conf = {"projects": {"fine": base, "broken": conf}}
        p = sc.write(f"bad/config.{form}", json.dumps(conf) if form == "json" else yaml.safe_dump(conf))
        ctx.count("mistakes")
        ctx.observed(what)
        try:
            got = run_file(p)
        except Exception:
            continue
        ctx.fail("a mistaken configuration is accepted", mistake=what, conf=conf, code=next(iter(got.values()))[:500])
        return
    text = json.dumps(base, indent=1)
    name, broken = r.choice([("c.json", text[:-2]), ("c.yaml", "schema: [\n" + text), ("c.toml", text), ("c.json", ""), ("c.yaml", "- 1\n- 2"), ("c.ini", text), ("config", text),
                             ("c.yaml", "just text"), ("c.json", "[]")])
    ctx.count("mistakes")
    try:
        got = run_file(sc.write("bad/" + name, broken))
    except Exception:
        return
    ctx.fail("a broken configuration file is accepted", name=name, text=broken[:300])

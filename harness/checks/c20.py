"""C20: the generated code depends on the schema, not on where it is read from."""
import http.server
import json
import threading

from graphql import build_schema, get_introspection_query, graphql_sync, introspection_from_schema, parse, print_ast

from .. import confs, gen, world
from ..meaning import difference

PROP = "C20"
RULE = ("Random schemas are offered as one file, several files behind globs, URLs answering with SDL, GraphQL endpoints answering introspection, "
        "introspection files, and lists and mappings of those, with headers the server insists on; a local server records every request. The code must say "
        "the same for every source. Sources which lack a part, answer with errors, garbage, other status codes, refuse the headers, or are several for "
        "introspection must be refused. Non-trivial: a generation judged; distinct by (source, plugins).")
N_QUICK, N_THOROUGH = 130, 4000
REQUIRE = {"same": 600, "refused": 400, "requests": 600, "with_headers": 120, "introspected": 150, "mixed": 60}


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def _answer(self, body, status=200, kind="text/plain; charset=utf-8"):
        if isinstance(body, str):
            body = body.encode("utf-8")
        self.send_response(status)
        self.send_header("Content-Type", kind)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def handle_any(self, method):
        site = self.server.site
        n = int(self.headers.get("Content-Length") or 0)
        body = self.rfile.read(n)
        spec = site.get(self.path)
        self.server.seen.append((method, self.path, dict(self.headers)))
        if spec is None:
            return self._answer("nothing here", 404)
        for k, v in spec.get("headers", {}).items():
            if self.headers.get(k) != v:
                return self._answer('{"errors": [{"message": "who are you"}]}', 401, "application/json")
        kind = spec["kind"]
        if kind == "sdl":
            return self._answer(spec["text"], kind=spec.get("type", "text/plain; charset=utf-8")) if method == "GET" else self._answer("no", 405)
        if kind == "api":
            if method == "GET":
                how = spec.get("get", "405")
                return self._answer({"405": "GET not allowed", "html": "<!DOCTYPE html><html><body>Play {ground}</body></html>",
                                     "json": '{"errors": [{"message": "Must provide query string."}]}', "empty": ""}[how],
                                    {"405": 405, "html": 200, "json": 400, "empty": 200}[how])
            try:
                query = json.loads(body)["query"]
            except Exception:
                return self._answer("bad request", 400)
            res = graphql_sync(spec["schema"], query).formatted
            if spec.get("errors"):
                # errors are refused whatever is answered next to them
                res = {**(res if spec["errors"] == "data" else {}), "errors": [{"message": "introspection is disabled"}]}
            if spec.get("nodata"):
                res = {"message": "hello"}
            if spec.get("partial"):
                res = {"data": {"__schema": {"queryType": None}}}
            return self._answer(json.dumps(res), 200, "application/json")
        return self._answer(spec["text"], spec.get("status", 200))

    def do_GET(self):
        self.handle_any("GET")

    def do_POST(self):
        self.handle_any("POST")


def serve(site):
    s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    s.daemon_threads = True
    s.site, s.seen = site, []
    threading.Thread(target=s.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True).start()
    return s


def case(ctx):
    r = ctx.rng
    # introspection transports neither applied directives nor deprecations of inputs
    w = world.make_world(f"{ctx.seed}", world.Opts(oneof=False, union_element=False, deprecated=r.random() < 0.5, n_ops=(1, 3)))
    schema = build_schema(w.sdl)
    introspectable = introspectable_schema(w)
    plugins, stylers, conf = confs.random_conf(r, w)
    conf = gen.turms_config(plugins, stylers=stylers, **conf)
    token = "Bearer " + "".join(r.choice("abcdef0123456789") for _ in range(12))
    headers = {r.choice(["Authorization", "X-Api-Key"]): token}
    with gen.Scratch() as sc:
        sp, dg = gen.write_world(sc, w)
        parts = list(parse(w.sdl).definitions)
        r.shuffle(parts)
        k = r.randint(2, 4)
        split = [p for p in (parts[i::k] for i in range(k)) if p]
        texts = ["\n\n".join(print_ast(x) for x in p) for p in split]
        k = len(texts)
        for i, t in enumerate(texts):
            sc.write(f"split/{'abcd'[i]}/part{i}.graphql" if r.random() < 0.5 else f"split/part{i}.graphql", t + r.choice(["", "\n", "\n# the end"]))
            sc.write(f"one/{i}.graphql", t)
        intro = introspection_from_schema(schema, descriptions=True)
        sc.write("introspection.json", json.dumps(intro, indent=r.choice([None, 2]), ensure_ascii=r.random() < 0.5))
        get = r.choice(["405", "html", "json", "empty"])
        site = {"/schema.graphql": {"kind": "sdl", "text": w.sdl}, "/secret.graphql": {"kind": "sdl", "text": w.sdl, "headers": headers},
                "/graphql": {"kind": "api", "schema": schema, "get": get},
                "/secret": {"kind": "api", "schema": schema, "headers": headers, "get": get},
                "/errors": {"kind": "api", "schema": schema, "errors": r.choice([True, "data"]), "get": get},
                "/nodata": {"kind": "api", "schema": schema, "nodata": True, "get": get},
                "/partial": {"kind": "api", "schema": schema, "partial": True, "get": get},
                "/garbage": {"kind": "text", "text": "}{ <garbage> \u0000"},
                "/broken": {"kind": "text", "text": w.sdl, "status": 500},
                "/truncated": {"kind": "text", "text": w.sdl[: w.sdl.rstrip().rfind("}")] + "\n type {"}}
        for i, t in enumerate(texts):
            site[f"/part{i}"] = {"kind": "sdl", "text": t}
            site[f"/secret{i}"] = {"kind": "sdl", "text": t, "headers": headers}
        for spec in site.values():
            # GraphQL is utf-8, however it is labelled
            spec["type"] = r.choice(["text/plain; charset=utf-8", "text/plain", "text/html", "application/graphql", "application/octet-stream"])
        srv = serve(site)
        url = f"http://127.0.0.1:{srv.server_address[1]}"
        try:
            def attempt(source, **over):
                try:
                    return gen.generate(source, dg, {**conf, **over}), None
                except Exception as e:
                    return None, e

            base, e = attempt(sp)
            if base is None:
                ctx.fail("generation failed for a supported schema and document", error=repr(e), conf=conf, sdl=w.sdl, documents=w.doc_text)
                return
            head = {"headers": headers}
            pool = lambda i: r.choice([sc.join("one", f"{i}.graphql"), f"{url}/part{i}", {f"{url}/part{i}": {"headers": {}}}, {f"{url}/secret{i}": head}])
            mixed = [pool(i) for i in range(k)]
            same = {
                "glob": sc.join("split", "**", "*.graphql"), "list of one": [sp], "files": [sc.join("one", f"{i}.graphql") for i in range(k)],
                "glob list": [sc.join("one", "[01].graphql")] + [sc.join("one", f"{i}.graphql") for i in range(2, k)],
                "url": f"{url}/schema.graphql", "url list": [f"{url}/schema.graphql"], "headers": {f"{url}/secret.graphql": head},
                "headers list": [{f"{url}/secret.graphql": head}], "urls": [f"{url}/part{i}" for i in range(k)],
                "url mapping": {f"{url}/secret{i}": head for i in range(k)}, "mixed": mixed,
            }
            if introspectable:
                same.update({"introspection file": sc.join("introspection.json"), "introspection list": [sc.join("intro*.json")], "endpoint": f"{url}/graphql",
                             "endpoint list": [f"{url}/graphql"], "endpoint headers": {f"{url}/secret": head}, "endpoint headers list": [{f"{url}/secret": head}]})
            for how in r.sample(sorted(same), min(7, len(same))):
                source = same[how]
                code, e = attempt(source)
                ctx.count("same")
                ctx.count("introspected", int("introspection" in how or "endpoint" in how))
                ctx.count("with_headers", int("headers" in how or "mapping" in how))
                ctx.count("mixed", int(how in ("mixed", "files", "urls", "url mapping")))
                ctx.observed(("same", how, len(conf["plugins"]), bool(stylers)))
                if code is None:
                    ctx.fail("a schema source was refused", source=how, value=source, error=repr(e), cause=repr(e.__cause__), sdl=w.sdl)
                    return
                whole = how in ("list of one", "url", "url list", "headers", "headers list")     # the very same text
                d = difference(base, code) or ("other order" if whole and code != base else None)
                if d:
                    ctx.fail("the code depends on where the schema is read from", source=how, value=source, difference=d, conf=conf, sdl=w.sdl, documents=w.doc_text)
                    return
                try:
                    gen.unload(gen.load(code))
                except Exception as e:
                    ctx.fail("the code from another source does not load", source=how, error=repr(e), code=code)
                    return
            wrong = {"Authorization": "Bearer nobody"}
            bad = {
                "missing file": sc.join("nothing.graphql"), "empty glob": sc.join("nothing", "*.graphql"), "unreachable": "http://127.0.0.1:9/schema.graphql",
                "not found": f"{url}/nothing", "errors": f"{url}/errors", "no data": f"{url}/nodata", "partial": f"{url}/partial", "garbage": f"{url}/garbage",
                "status": f"{url}/broken", "truncated": f"{url}/truncated", "no headers": f"{url}/secret", "wrong headers": {f"{url}/secret.graphql": {"headers": wrong}},
                "wrong endpoint headers": {f"{url}/secret": {"headers": wrong}}, "errors mapping": {f"{url}/errors": {"headers": {}}},
                "missing part": [sc.join("one", "0.graphql"), sc.join("one", "nothing.graphql")], "part status": [sc.join("one", "0.graphql"), f"{url}/broken"],
                "part not found": {f"{url}/part0": {"headers": {}}, f"{url}/nothing": {"headers": {}}},
                "twice": [sp, sp], "empty": sc.write("empty.graphql", r.choice(["", "\n", "# nothing\n"])),
                "two introspections": [sc.join("introspection.json"), sc.join("introspection.json")], "no source": [], "no mapping": {},
                "directory": sc.path,
            }
            off = {"introspection forbidden": sc.join("introspection.json"), "endpoint forbidden": f"{url}/graphql", "endpoint mapping forbidden": {f"{url}/secret": head}}
            for how in r.sample(sorted(bad) + sorted(off), 5):
                code, e = attempt(bad[how]) if how in bad else attempt(off[how], allow_introspection=False)
                ctx.count("refused")
                ctx.observed(("refused", how))
                if code is not None:
                    ctx.fail("an unusable schema source was accepted", source=how, value=bad.get(how, off.get(how)), code=code[:500])
                    return
            ctx.count("requests", len(srv.seen))
        finally:
            srv.shutdown()
            srv.server_close()


def introspectable_schema(w):
    """Whether introspection tells everything the generated code depends on."""
    from graphql import DirectiveNode, InputValueDefinitionNode, Visitor, visit
    found = []

    class V(Visitor):
        def enter_input_value_definition(self, node, *_):
            found.extend(d for d in node.directives if d.name.value == "deprecated")
    visit(parse(w.sdl), V())
    return not found

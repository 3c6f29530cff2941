"""Random turms configurations shared by several monitors."""
from __future__ import annotations

from graphql import OperationType

from . import gen
from .client import random_stylers


def funcs_plugin(rng, kinds=("query", "mutation", "subscription"), modes=(True, False), extras=True, **kw):
    """A FuncsPlugin with sync and/or async definitions of the given kinds."""
    defs = []
    for k in kinds:
        for is_async in modes:
            use = "vt_proxies." + ("a" if is_async else "") + ("subscribe" if k == "subscription" else "execute")
            d = {"type": k, "is_async": is_async, "use": use}
            if extras and rng.random() < 0.25:
                d["extra_args"] = [{"key": "channel", "type": "str"}]
            if extras and rng.random() < 0.25:
                d["extra_kwargs"] = [{"key": "attempts", "type": "int", "default": rng.choice([None, 3])}]
            defs.append(d)
    conf = {"definitions": defs, **kw}
    if extras and rng.random() < 0.3:
        conf["global_args"] = [{"key": "client", "type": "vt_proxies.Client"}]
    if extras and rng.random() < 0.3:
        conf["global_kwargs"] = [{"key": "session", "type": rng.choice(["vt_proxies.Client", "str"]), "default": None}]
    if "collapse_lonely" not in conf and rng.random() < 0.4:
        conf["collapse_lonely"] = rng.random() < 0.5
    return gen.plug("funcs", **conf)


def random_conf(rng, w, **over):
    """(plugins, stylers, config keywords) over the supported options."""
    plugins = [gen.plug("enums", **({"skip_unreferenced": False} if rng.random() < 0.3 else {})),
               gen.plug("inputs", **({"skip_unreferenced": False} if rng.random() < 0.3 else {})),
               gen.plug("fragments", **({"generate_meta_class": False} if rng.random() < 0.15 else {})),
               gen.plug("operations", **({"arguments_allow_population_by_field_name": True} if rng.random() < 0.3 else {}))]
    if plugins[1].get("skip_unreferenced") is False:
        plugins[0]["skip_unreferenced"] = False
    if rng.random() < 0.6:
        plugins.append(funcs_plugin(rng))
    if rng.random() < 0.4:
        plugins.append(gen.plug("input_funcs", **{k: v for k, v in plugins[1].items() if k == "skip_unreferenced"}))
    conf = {}
    if rng.random() < 0.4:
        conf["create_catchall"] = False
    if rng.random() < 0.3:
        conf["freeze"] = {"enabled": True}
    if rng.random() < 0.3:
        conf["options"] = {"enabled": True, "extra": rng.choice(["ignore", "allow"]), "validate_assignment": rng.random() < 0.5}
    if rng.random() < 0.2:
        conf["exclude_typenames"] = True
    if rng.random() < 0.3:
        conf["document_field_metadata"] = False
    if rng.random() < 0.2:
        conf["domain"] = "example"
    if rng.random() < 0.2:
        conf["object_bases"] = ["vt_traits.ObjectBase"]
    if rng.random() < 0.2:
        conf["graphql_default_class"] = "vt_markers.MyDefault"
    if rng.random() < 0.2:
        conf["deprecated_class"] = "vt_markers.MyDeprecated"
    if rng.random() < 0.2:
        conf["unset_type_class"] = "vt_markers.MyUnset"
        conf["unset_instance"] = "vt_markers.MISSING"
    if rng.random() < 0.2:
        conf["skip_forwards"] = False
    objects = sorted(set(w.objects) | set(w.interfaces))
    if objects and rng.random() < 0.3:
        conf["additional_bases"] = {n: ["vt_traits.TypeTrait"] for n in rng.sample(objects, min(2, len(objects)))}
    if w.inputs and rng.random() < 0.2:
        conf.setdefault("additional_bases", {})[rng.choice([n for n in w.inputs if not w.input_meta[n].get("oneof")])] = ["vt_traits.InputTrait"]
    conf.update(over)
    return plugins, random_stylers(rng, 0.6), conf

"""C11: the same project always generates the same code."""
import json
import os
import shutil
import subprocess
import sys

from .. import confs, gen, world

PROP = "C11"
RULE = ("Batches of random projects (all plugins and options) are generated in separate interpreters with different hash seeds, processing orders, "
        "working directories, project locations and repetitions in one process; all outputs of one project must be byte-identical. "
        "Non-trivial: a project which generates; distinct by source text.")
N_QUICK, N_THOROUGH = 40, 400
CASE_CPU_S = 300
TASKS_PER_CHILD = 20
REQUIRE = {"projects": 100, "compared_outputs": 500, "interpreters": 80, "repeats": 60}


def project_conf(r, w):
    kind = r.random()
    if kind < 0.6:
        plugins, stylers, kw = confs.random_conf(r, w)
    elif kind < 0.8:
        plugins, stylers, kw = [gen.plug("enums", skip_unreferenced=False), gen.plug("inputs", skip_unreferenced=False), gen.plug("objects")], [], {"skip_forwards": False}
    else:
        plugins, stylers, kw = [gen.plug("strawberry")], [], {}
    return gen.turms_config(plugins, stylers=stylers, **kw)


def case(ctx):
    r = ctx.rng
    n = 6
    with gen.Scratch() as sc, gen.Scratch("vt-elsewhere-") as sc2:
        projects, other = {}, {}
        for i in range(n):
            w = world.make_world(f"{ctx.seed}/{i}", world.Opts(n_frags=(1, 6), n_ops=(2, 4), n_objects=(2, 6)))
            conf = project_conf(r, w)
            for s, target in ((sc, projects), (sc2, other)):
                sp = s.write(f"p{i}/schema.graphql", w.sdl)
                names = list(w.files)
                if s is sc2:
                    names.reverse()
                for k in names:
                    s.write(f"p{i}/docs/{k}", w.files[k])
                target[f"p{i}"] = {"schema": sp, "documents": s.join(f"p{i}", "docs", "*.graphql"), "conf": conf}
        keys = sorted(projects)
        runs = []
        for j in range(3):
            order = list(keys)
            if j:
                r.shuffle(order)
            if j == 1:
                order = order + order[:3]       # repeated in the same interpreter
            src = other if j == 2 else projects
            job = {"projects": src, "order": order, "out": sc.join(f"out{j}.json"), "cwd": sc2.path if j == 2 else None}
            jp = sc.write(f"job{j}.json", json.dumps(job))
            env = dict(os.environ, PYTHONHASHSEED=str(r.randrange(1, 2 ** 31)), PYTHONDONTWRITEBYTECODE="1",
                       PYTHONPATH=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
            p = subprocess.run([sys.executable, "-B", "-m", "harness.worker", jp], env=env, cwd=sc.path,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=240)
            ctx.count("interpreters")
            if p.returncode:
                ctx.fail("the generating interpreter crashed", stderr=p.stderr.decode()[-2000:])
                return
            with open(job["out"]) as f:
                runs.append((j, env["PYTHONHASHSEED"], json.load(f)))
        for k in keys:
            outs = [(j, seed, o) for j, seed, res in runs for o in res[k]]
            ctx.count("projects")
            ctx.count("compared_outputs", len(outs))
            ctx.count("repeats", len(outs) - len(runs))
            first = outs[0][2]
            if first.startswith("ERROR"):
                ctx.count("failed_projects")
            ctx.observed(first if not first.startswith("ERROR") else None, len(outs))
            for j, seed, o in outs[1:]:
                if o != first and not (o.startswith("ERROR") and first.startswith("ERROR")):
                    import difflib
                    d = "\n".join(list(difflib.unified_diff(first.splitlines(), o.splitlines(), lineterm="", n=1))[:40])
                    ctx.fail("one project generated different code in another run", project=k, run=j, hash_seeds=[outs[0][1], seed],
                             conf=projects[k]["conf"], diff=d)
                    return
            ctx.sample({"project": k, "bytes": len(first), "runs": len(outs)})

"""Generates a batch of projects in one process: job file (JSON) in, results (JSON) out.

A result is the generated source or "ERROR ..." text.  The parent compares runs of
the same batch under other hash seeds, orders, working directories and histories."""
import json
import logging
import os
import sys
import warnings

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


def main(path):
    from harness import gen
    with open(path) as f:
        job = json.load(f)
    if job.get("cwd"):
        os.chdir(job["cwd"])
    results = {}
    for key in job["order"]:
        p = job["projects"][key]
        try:
            out = gen.generate(p["schema"], p["documents"], json.loads(json.dumps(p["conf"])))
        except Exception as e:
            out = f"ERROR {type(e).__name__}: {e}"
        results.setdefault(key, []).append(out)
    with open(job["out"], "w") as f:
        json.dump(results, f)


if __name__ == "__main__":
    main(sys.argv[1])

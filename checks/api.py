"""Properties decided (also) by APITrace: histories of calls of the Python module."""
import os
import vp, build

PY = "/opt/vp/venv/bin/python"
# property -> (clause groups, [(scenario profile, behaviours quick, thorough)])
API = {
    "P15": ({"file"}, [("file", 300, 3000)]),
    "P16": ({"store"}, [("store", 300, 3000)]),
    "P17": ({"json"}, [("json", 300, 3000)]),
    "P18": ({"par"}, [("par", 500, 4000)]),
    "P19": ({"rep"}, [("rep", 600, 5000)]),
    "P20": ({"fit"}, [("fit", 300, 3000)]),
    "P21": ({"cb"}, [("cb", 600, 5000)]),
    "P22": ({"pure"}, [("pure", 300, 3000)]),
    "P24": ({"data"}, [("data", 600, 5000)]),
}


def run_api(res, d, groups, plan, more=None):
    env = {"PYTHONPATH": build.pymodule(), "PYTHONDONTWRITEBYTECODE": "1"}
    env.update(more or {})
    scns = []
    for k, (prof, q, t) in enumerate(plan):
        n = q if vp.TIER == "quick" else t
        scns += vp.generate("APIScenario", {"Profile": '"%s"' % prof, "MaxOps": 20}, n, 22, vp.SEED * 1000 + 77 + 31 * k, d)
    exe = [PY, os.path.join(vp.VERIF, "harness", "pydrive.py")]
    vp.conform(res, "APITrace", exe, scns, {"Active": vp.cfgset(groups)}, d, env=env, label="a")


def check(prop):
    groups, plan = API[prop]
    return lambda res, d: run_api(res, d, groups, plan)

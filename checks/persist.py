"""Properties decided by PersistTrace: saving, loading, storing, retrieving,
exporting and inserting, interleaved with training and prediction."""
import vp, build

PERSIST = {
    "P15": ({"file"}, [("file", 320, 3000), ("store", 40, 400)]),
    "P16": ({"store"}, [("store", 320, 3000)]),
    "P17": ({"json"}, [("json", 320, 3000)]),
}


def run_persist(res, d, groups, plan, env=None):
    exe = build.harness("mdrive", ["mdrive.c", "xtrace.c"], wrap=[])
    scns = []
    for k, (prof, q, t) in enumerate(plan):
        n = q if vp.TIER == "quick" else t
        scns += vp.generate("PersistScenario", {"Profile": '"%s"' % prof, "MaxOps": 18}, n, 20, vp.SEED * 1000 + 31 * k, d)
    vp.conform(res, "PersistTrace", exe, scns, {"Active": vp.cfgset(groups)}, d, env=env, label="p")


def check(prop):
    groups, plan = PERSIST[prop]
    return lambda res, d: run_persist(res, d, groups, plan)

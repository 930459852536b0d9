"""Parameters by setter, JSON and file, decided by ParamTrace."""
import vp, build

PARAM = {"P18": (250, 4000, "par"), "P15": (60, 600, "file"), "P23": (60, 600, "loss")}


def run(res, d, q, t, group, env=None):
    exe = build.harness("pmdrive", ["pmdrive.c", "xtrace.c"], wrap=[])
    scns = vp.generate("ParamScenario", {"MaxOps": 40}, q if vp.TIER == "quick" else t, 42, vp.SEED * 1000 + 7, d)
    vp.conform(res, "ParamTrace", exe, scns, {"Active": vp.cfgset({group})}, d, env=env, label="m")


def check(prop):
    q, t, group = PARAM[prop]
    return lambda res, d: run(res, d, q, t, group)

"""Built-in problems, decided by EnvTrace."""
import vp, build

ENV = {"P14": (400, 4000)}


def run(res, d, q, t, group, env=None):
    exe = build.harness("envdrive", ["envdrive.c", "xtrace.c"], wrap=[])
    scns = vp.generate("EnvScenario", {"MaxOps": 30}, q if vp.TIER == "quick" else t, 32, vp.SEED * 1000 + 14, d)
    vp.conform(res, "EnvTrace", exe, scns, {"Active": vp.cfgset({group})}, d, env=env, label="e")


def check(prop):
    q, t = ENV[prop]
    return lambda res, d: run(res, d, q, t, "env")

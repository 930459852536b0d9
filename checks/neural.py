"""Networks of all kinds of layers, decided by NeuralTrace."""
import vp, build, persist

NEURAL = {"P12": (700, 8000)}


def run(res, d, q, t, group, env=None):
    exe = build.harness("ndrive", ["ndrive.c", "xtrace.c"], wrap=[])
    scns = vp.generate("NeuralScenario", {"MaxOps": 25}, q if vp.TIER == "quick" else t, 27, vp.SEED * 1000 + 12, d)
    vp.conform(res, "NeuralTrace", exe, scns, {"Active": vp.cfgset({group})}, d, env=env, label="n")


def check(prop):
    q, t = NEURAL[prop]

    def go(res, d):
        run(res, d, q, t, "net")
        persist.run_persist(res, d, {"net"}, [("net", 60, 800)])
    return go

"""Properties decided by XCSFTrace on recorded executions of the core system."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, build

# property -> (clause groups, [(scenario profile, behaviours quick, thorough)])
CORE = {
    "P01": ({"acc"}, [("any", 60, 600), ("rl", 40, 400), ("sub", 40, 400), ("big", 3, 30), ("bigrl", 3, 30)]),
    "P02": ({"match"}, [("sup", 40, 500), ("edge", 40, 400), ("any", 30, 300), ("rlany", 20, 300), ("nn", 20, 200), ("big", 3, 30), ("bigrl", 3, 30)]),
    "P03": ({"cover"}, [("any", 50, 500), ("rlany", 60, 500), ("big", 3, 30), ("bigrl", 3, 30)]),
    "P04": ({"pa", "act"}, [("any", 50, 400), ("rl", 40, 400), ("act", 24, 200), ("self", 16, 200), ("big", 3, 30), ("bigrl", 3, 30)]),
    "P05": ({"upd"}, [("any", 50, 500), ("rl", 40, 300), ("sub", 30, 300), ("edge", 20, 200), ("big", 3, 30), ("bigrl", 3, 30)]),
    "P06": ({"del"}, [("stat", 40, 300), ("comp", 30, 300), ("sub", 40, 400), ("rl", 30, 300), ("big", 3, 30)]),
    "P07": ({"ea"}, [("any", 60, 500), ("stat", 30, 200), ("rl", 40, 300), ("big", 3, 30), ("bigrl", 3, 30)]),
    "P08": ({"sub"}, [("sub", 80, 800), ("subrl", 50, 500), ("edge", 40, 400), ("sup", 20, 300), ("big", 3, 30), ("bigrl", 3, 30)]),
    "P09": ({"op"}, [("op", 50, 500), ("sup", 40, 500), ("sub", 40, 400), ("any", 30, 300), ("big", 3, 30), ("bigrl", 3, 30)]),
    "P10": ({"gp"}, [("prog", 80, 800), ("self", 16, 200)]),
    "P11": ({"predcalc", "predlearn", "prog"}, [("pred", 80, 800), ("rl", 30, 300), ("big", 3, 30)]),
    "P13": ({"rl"}, [("rl", 60, 600), ("act", 20, 150), ("rlany", 30, 300), ("env", 20, 150), ("bigrl", 3, 30)]),
    "P20": ({"fit"}, [("any", 60, 500), ("sup", 40, 400), ("big", 3, 30)]),
    "P22": ({"pure"}, [("any", 50, 500), ("pred", 30, 400), ("sup", 30, 400), ("purerl", 40, 400), ("big", 3, 30), ("bigrl", 3, 30)]),
    "P23": ({"loss"}, [("any", 40, 400), ("loss", 60, 600)]),
}


def run_groups(res, d, groups, plan, seed_off=0, env=None):
    exe = build.harness("xdrive", ["xdrive.c", "xtrace.c"])
    consts = {"Active": vp.cfgset(groups)}
    from concurrent.futures import ThreadPoolExecutor
    todo = []
    for k, (prof, q, t) in enumerate(plan):
        todo.append((prof, q if vp.TIER == "quick" else t, vp.SEED * 1000 + 17 * k + seed_off))
    ops = {"env": 2, "stat": 6, "sub": 6, "edge": 8}
    with ThreadPoolExecutor(4) as ex:
        gen = list(ex.map(lambda a: vp.generate("Scenario", {"Profile": '"%s"' % a[0], "MaxOps": ops.get(a[0], 5)}, a[1], ops.get(a[0], 5) + 2, a[2], d), todo))
    scns = []
    for g in gen:
        for s in g:
            c = s["c"]
            c["ops"] = s["ops"]
            scns.append(c)
    fix_env(scns, d)
    vp.conform(res, "XCSFTrace", exe, scns, consts, d, env=env)


MAZES = ["OOOO\nO**O\nO*FO\nOOOO\n", "OOOOO\nO***O\nO*O*O\nO**FO\nOOOOO\n", "O*O*F*\n******\nO*OO*O\n"]


def fix_env(scns, d):
    for i, s in enumerate(scns):
        if s["name"] != "env":
            continue
        if s["seed"] % 2 == 0:
            p = os.path.join(d, "maze%d.txt" % (i % len(MAZES)))
            if not os.path.exists(p):
                open(p, "w").write(MAZES[i % len(MAZES)])
            s["env"] = ["maze", p]
        else:
            s["env"] = ["mp", "3" if s["seed"] % 3 else "6"]


def check(prop):
    groups, plan = CORE[prop]

    def go(res, d):
        run_groups(res, d, groups, plan)
    return go

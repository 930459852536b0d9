#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on /repo's working tree."""
import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import vp, core, persist, api, param, env, neural, mem, models

prop = sys.argv[1]
parts = [m.check(prop) for m, table in ((core, core.CORE), (persist, persist.PERSIST), (api, api.API), (param, param.PARAM), (env, env.ENV), (neural, neural.NEURAL), (mem, mem.MEM)) if prop in table]
if not parts:
    sys.exit("unknown property " + prop)


def go(res, d):
    join = models.start(prop, d)
    try:
        for p in parts:
            p(res, d)
    finally:
        join(res)


vp.main(go, prop)

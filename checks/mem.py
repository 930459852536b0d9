"""Memory: every history ends without a memory error, and with everything released."""
import core, persist, env, neural, param, api, vp

# one share of each kind of history: (quick, thorough) behaviours
CORE = [("any", 24, 300), ("rl", 24, 300), ("sub", 16, 200), ("prog", 16, 200), ("pred", 16, 200), ("nn", 12, 200), ("env", 6, 60)]
MEM = {"P25": None}
LEAKS = {"ASAN_OPTIONS": vp.ASAN["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1:leak_check_at_exit=0")}

# no caches of freed blocks, which the allocator counts as in use
GROWTH = {"VERIF_GROWTH": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"}


def check(prop):
    def go(res, d):
        core.run_groups(res, d, {"mem"}, CORE, seed_off=25, env=LEAKS)
        persist.run_persist(res, d, {"mem"}, [("file", 80, 1000), ("store", 80, 1000), ("json", 80, 1000), ("net", 40, 500)], env=LEAKS)
        neural.run(res, d, 160, 2000, "mem", LEAKS)
        env.run(res, d, 120, 1200, "mem", LEAKS)
        api.run_api(res, d, {"mem"}, [("file", 24, 300), ("json", 24, 300), ("data", 24, 300)], GROWTH)
        param.run(res, d, 80, 1000, "mem", LEAKS)
    return go

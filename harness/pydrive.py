#!/usr/bin/env python3
"""pydrive.py SCENARIO TRACE: replays a scenario of spec/APIScenario.tla on the
Python module and records what each call did, for spec/APITrace.tla.

Numbers are written as binary64 bit patterns ("#" and 16 hex digits)."""
import ctypes, hashlib, io, json, os, pickle, struct, sys
import numpy as np
import xcsf
from xcsf import XCS

OUT = None
REAL = sys.stdout


def hx(v):
    return "#%016x" % struct.unpack("<Q", struct.pack("<d", float(v)))[0]


def enc(v):
    """JSON value with doubles as bit patterns; integers too, so that 1 and 1.0 agree."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return "none" if v is None else v
    if isinstance(v, (int, float)):
        return hx(v)
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return str(v)


def sha(b):
    return hashlib.sha1(b if isinstance(b, bytes) else b.encode()).hexdigest()[:20]


# ------------------------------------------------------------------ snapshots
class Model:
    def __init__(self, x):
        self.x = x


M = {}
LAST = {}
TMP = "snap.bin"
BEHAVIOUR = ("condition", "action", "prediction")
STATS = ("error", "fitness", "set_size", "numerosity", "experience", "time")


def settled(v):
    """A rule without the working state of its graphs."""
    if isinstance(v, dict):
        return {k: settled(w) for k, w in v.items() if k != "current_state"}
    if isinstance(v, list):
        return [settled(w) for w in v]
    return v


def population(x):
    txt = x.json(True, True, True)
    j = json.loads(txt)
    cls = [] if j is None else j["classifiers"]
    return [{"g": sha(json.dumps([settled(c.get(k)) for k in BEHAVIOUR], sort_keys=True)),
             "s": [hx(c[k]) for k in STATS],
             "k": sha(json.dumps([c[k] for k in c if k not in BEHAVIOUR and k not in STATS and k != "accuracy"], sort_keys=True))} for c in cls]


def filehash(fn):
    return sha(open(fn, "rb").read()) if os.path.exists(fn) else ""


def digest(x):
    x.save(TMP)
    d = filehash(TMP)
    os.unlink(TMP)
    return d


def snapshot(x):
    R = population(x)  # before the digest: exporting a tree moves its evaluation pointer, which is saved
    ip = enc(x.internal_params())  # likewise: completes the layer descriptions
    return {"d": digest(x), "t": x.time(), "err": hx(x.error()), "z": x.pset_size(), "n": x.pset_num(),
            "ms": hx(x.mset_size()), "as": hx(x.aset_size()), "mf": hx(x.mfrac()),
            "R": R, "ip": ip, "gp": enc(x.get_params()),
            "M": {k: [hx(v) for v in l] for k, l in x.get_metrics().items()}}


def changes():
    c = {}
    for k in sorted(M):
        s = snapshot(M[k])
        if LAST.get(k) != s:
            c[k] = s
            LAST[k] = s
    return c or {"none": 0}


def emit(ev):
    OUT.write(json.dumps(ev, separators=(",", ":")) + "\n")
    OUT.flush()


# --------------------------------------------------------------------- arrays
class Given:
    """An array argument: remembers its bytes, and is scrambled after the call."""

    def __init__(self):
        self.items = []

    def mk(self, v, layout):
        a = np.array(v, dtype=np.float64)
        base = a
        if layout == "list":
            arg = a.tolist()
            self.items.append(("list", arg, json.dumps(arg)))
            return arg
        if layout == "f":
            arg = base = np.asfortranarray(a)
        elif layout == "stride":
            base = np.full(tuple(2 * s + 1 for s in a.shape), -3.5)
            arg = base[tuple(slice(1, None, 2) for _ in a.shape)]
            arg[...] = a
        elif layout == "rev":
            base = np.ascontiguousarray(a[::-1])
            arg = base[::-1]
        elif layout == "f32" and np.array_equal(a.astype(np.float32).astype(np.float64), a):
            arg = base = a.astype(np.float32)
        elif layout == "int" and np.array_equal(np.round(a), a):
            arg = base = a.astype(np.int64)
        elif layout == "one" and a.ndim == 2 and a.shape[1] == 1:
            arg = base = np.ascontiguousarray(a[:, 0])
        elif layout == "ro":
            arg = base = a.copy()
            arg.flags.writeable = False
        else:
            arg = base = a.copy()
        self.items.append(("arr", base, base.tobytes()))
        return arg

    def untouched(self):
        return all((json.dumps(a) == s) if k == "list" else (a.tobytes() == s) for k, a, s in self.items)

    def scramble(self):
        for k, a, _ in self.items:
            if k == "list":
                for i, r in enumerate(a):
                    a[i] = [99.0] * len(r) if isinstance(r, list) else 99.0
            else:
                a.flags.writeable = True
                a.fill(99)


# ------------------------------------------------------------------ operations
class Watch(io.TextIOBase):
    """Standard output during fit(verbose=True): something is printed in every
    epoch, which is when the epoch's model can be observed."""

    def __init__(self, x, fn):
        self.x, self.fn, self.obs, self.seen = x, fn, [], len(x.get_metrics()["train"])

    def write(self, s):
        n = len(self.x.get_metrics()["train"])
        if n > self.seen:
            self.seen = n
            R = population(self.x)
            self.obs.append({"n": n, "file": filehash(self.fn), "d": digest(self.x), "R": R, "z": self.x.pset_size()})
            if os.path.exists(self.fn):
                os.unlink(self.fn)
        return len(s)

    def flush(self):
        pass


def callbacks(o, fn):
    cbs = []
    for c in o.get("cbs", []):
        if c["k"] == "es":
            cbs.append(xcsf.EarlyStoppingCallback(monitor=c["mon"], patience=c["patience"], restore_best=c["restore"],
                                                  min_delta=c["delta"], start_from=c["from"], verbose=c["verbose"]))
        else:
            cbs.append(xcsf.CheckpointCallback(monitor=c["mon"], filename=fn, save_best_only=c["best"], save_freq=c["freq"],
                                               verbose=c["verbose"]))
    return cbs


def reseed(k):
    XCS(random_state=k, pop_init=False, omp_num_threads=1)


def do(o, sc, ev):
    op, m = o["op"], "m%d" % o.get("m", 0)
    g = Given()
    D = sc["data"]
    if o.get("seed"):
        reseed(o["seed"])
    if op == "new":
        c = sc["cfgs"][o["cfg"]]
        p = dict(c["params"])
        p.update(x_dim=c["x_dim"], y_dim=c["y_dim"], n_actions=c["n_actions"], omp_num_threads=o["omp"])
        M.pop(m, None)
        rs = o["rs"] if o["rs"] >= 0 else None
        if o["first"]:
            p = dict([("random_state", rs)] + list(p.items()))
        else:
            p["random_state"] = rs
        if o.get("pf", -1) >= 0:  # named by what it holds
            b = open("e%d" % o["pf"], "rb").read()
            p["population_file"] = "pop-" + sha(b)
            open(p["population_file"], "wb").write(b)
        ev["P"] = enc(p)
        M[m] = XCS(**p)
        return
    x = M[m]
    if op == "fit":
        d = D[o["ds"]]
        ev["par"] = {"max_trials": o["max"], "perf_trials": o["perf"]}
        x.set_params(max_trials=o["max"], perf_trials=o["perf"])
        kw = {}
        if o["val"] >= 0:
            v = D[o["val"]]
            kw["validation_data"] = (g.mk(v["x"], o["lx"]), g.mk(v["y"], o["ly"]))
        cbs = callbacks(o, "ckpt.bin")
        if cbs:
            kw["callbacks"] = cbs
        if os.path.exists("ckpt.bin"):
            os.unlink("ckpt.bin")
        w = Watch(x, "ckpt.bin")
        verbose = bool(cbs) or o["verbose"]
        old = sys.stdout
        sys.stdout = w
        try:
            r = x.fit(g.mk(d["x"], o["lx"]), g.mk(d["y"], o["ly"]), shuffle=o["shuffle"], warm_start=o["warm"], verbose=verbose, **kw)
        finally:
            sys.stdout = old
        ev["self"] = r is x
        if cbs:
            ev["W"] = w.obs
            ev["last"] = filehash("ckpt.bin")
        if os.path.exists("ckpt.bin"):
            if o.get("reload"):
                # the checkpoint must be loadable: load it into another model
                y = XCS(pop_init=False)
                y.load("ckpt.bin")
                ev["loaded"] = digest(y)
            os.unlink("ckpt.bin")
    elif op == "predict":
        a = g.mk(D[o["ds"]]["x"], o["lx"])
        kw = {} if o["cover"] == "none" else {"cover": g.mk(o["cover"], o["ly"])}
        r = x.predict(a, **kw)
        ev["shape"] = list(r.shape)
        ev["out"] = [[hx(v) for v in row] for row in r]
    elif op == "score":
        d = D[o["ds"]]
        kw = {} if o["cover"] == "none" else {"cover": g.mk(o["cover"], o["ly"])}
        ev["r"] = hx(x.score(g.mk(d["x"], o["lx"]), g.mk(d["y"], o["ly"]), N=o["N"], **kw))
    elif op == "save":
        x.save("f%d" % o["f"])
        ev["h"] = filehash("f%d" % o["f"])
    elif op == "load":
        x.load("f%d" % o["f"])
    elif op == "pickle":
        t = "m%d" % o["to"]
        M.pop(t, None)
        b = pickle.dumps(x)
        M[t] = pickle.loads(b)
        ev["left"] = os.path.exists("_tmp_pickle.bin")
    elif op == "store":
        x.store()
    elif op == "retrieve":
        x.retrieve()
    elif op == "export":
        if o["via"] == "file":
            x.json_write("e%d" % o["f"])
        else:
            open("e%d" % o["f"], "w").write(x.json())
    elif op == "insert":
        if o["via"] == "file":
            x.json_read("e%d" % o["f"])
        elif o["via"] == "each":
            j = json.loads(open("e%d" % o["f"]).read())
            for c in (j["classifiers"] if j else []):
                x.json_insert_cl(json.dumps(c))
        else:
            x.json_insert(open("e%d" % o["f"]).read())
    elif op == "setp":
        ev["P"] = enc(o["kv"])
        x.set_params(**o["kv"])
    elif op == "reimport":
        # parameters as reported, given back
        p = x.internal_params()
        p.pop("version", None)
        p.pop("random_state", None)
        x.set_params(**p)
    elif op == "rlfit":
        ev["r"] = hx(x.fit(g.mk(o["x"], o["lx"]), o["a"], o["r"]))
    elif op == "episode":
        x.init_trial()
        ev["r"] = []
        for s in o["steps"]:
            x.init_step()
            a = x.decision(g.mk(s["x"], o["lx"]), o["explore"])
            g.scramble()
            e = x.error(s["r"], s["done"], 1.0)
            x.update(s["r"], s["done"])
            x.end_step()
            ev["r"].append([a, hx(e)])
        x.end_trial()
        g.items = []
    elif op == "bad":
        bad(x, o, sc, g)
    else:
        raise SystemExit("unknown op " + op)
    ev["kept"] = g.untouched()
    g.scramble()


def bad(x, o, sc, g):
    p = x.internal_params()
    xd, yd, na = p["x_dim"], p["y_dim"], p["n_actions"]
    r = np.random.RandomState(3)
    A = lambda *s: r.rand(*s)
    k = o["k"]
    fit = lambda X, Y, **kw: x.fit(X, Y, shuffle=True, warm_start=o["warm"], verbose=False, **kw)
    if k == "fit_xcols":
        fit(A(3, xd + 1), A(3, yd))
    elif k == "fit_ycols":
        fit(A(3, xd), A(3, yd + 1))
    elif k == "fit_rows":
        fit(A(3, xd), A(4, yd))
    elif k == "fit_rows2":
        fit(A(4, xd), A(3, yd))
    elif k == "fit_3d":
        fit(A(3, xd, 1), A(3, yd))
    elif k == "fit_y3d":
        fit(A(3, xd), A(3, yd, 1))
    elif k == "fit_x1d":
        fit(A(3 * (xd + 1)) if xd > 1 else A(3, 2), A(3, yd))
    elif k == "fit_x1row":
        fit(A(xd) if xd > 1 else A(3, 2), A(1, yd))
    elif k == "fit_y1row":
        fit(A(1, xd), A(yd) if yd > 1 else A(1, 2))
    elif k == "fit_y1d":
        fit(A(3, xd), A(3) if yd > 1 else A(4))
    elif k == "val_x1row":
        fit(A(3, xd), A(3, yd), validation_data=(A(xd) if xd > 1 else A(3, 2), A(1, yd)))
    elif k == "score_x1row":
        x.score(A(xd) if xd > 1 else A(3, 2), A(1, yd))
    elif k == "score_y1row":
        x.score(A(1, xd), A(yd) if yd > 1 else A(1, 2))
    elif k == "fit_empty":
        fit(np.zeros((0, xd)), np.zeros((0, yd)))
    elif k == "fit_str":
        fit(np.array([["a"] * xd] * 3), A(3, yd))
    elif k == "fit_scalar":
        fit(np.float64(1.0), A(3, yd))
    elif k == "val_xcols":
        fit(A(3, xd), A(3, yd), validation_data=(A(2, xd + 1), A(2, yd)))
    elif k == "val_rows":
        fit(A(3, xd), A(3, yd), validation_data=(A(2, xd), A(3, yd)))
    elif k == "val_ycols":
        fit(A(3, xd), A(3, yd), validation_data=(A(2, xd), A(2, yd + 1)))
    elif k == "val_three":
        fit(A(3, xd), A(3, yd), validation_data=(A(2, xd), A(2, yd), A(2, yd)))
    elif k == "predict_cols":
        x.predict(A(2, xd + 1))
    elif k == "predict_3d":
        x.predict(A(2, xd, 1))
    elif k == "predict_scalar":
        x.predict(np.float64(2.0))
    elif k == "predict_1d":
        x.predict(A(xd) if xd > 1 else A(2, 2))
    elif k == "cover_len":
        x.predict(A(2, xd), cover=A(yd + 1))
    elif k == "cover_2d":
        x.predict(A(2, xd), cover=A(1, yd))
    elif k == "score_cols":
        x.score(A(2, xd + 1), A(2, yd))
    elif k == "score_ycols":
        x.score(A(2, xd), A(2, yd + 1))
    elif k == "score_rows":
        x.score(A(2, xd), A(3, yd))
    elif k == "score_empty":
        x.score(np.zeros((0, xd)), np.zeros((0, yd)))
    elif k == "score_cover":
        x.score(A(2, xd), A(2, yd), cover=A(yd + 1))
    elif k == "rl_long":
        x.fit(A(xd + 1), 0, 1.0)
    elif k == "rl_short":
        x.fit(A(max(xd - 1, 0)), 0, 1.0)
    elif k == "rl_2d":
        x.fit(A(2, xd) if xd == 1 else A(1, xd), 0, 1.0)
    elif k == "rl_wide":
        x.fit(A(xd, 2), 0, 1.0)
    elif k == "rl_action":
        x.fit(A(xd), na, 1.0)
    elif k == "rl_neg":
        x.fit(A(xd), -1, 1.0)
    elif k == "dec_long":
        x.init_trial()
        x.init_step()
        try:
            x.decision(A(xd + 1), False)
        finally:
            x.end_trial()
    else:
        raise SystemExit("unknown malformed call " + k)


class Info(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


mallinfo2 = ctypes.CDLL(None).mallinfo2
mallinfo2.restype = Info


def held():
    """Bytes in use by the allocator of the C library."""
    i = mallinfo2()
    return i.uordblks + i.hblkhd


def growth(sc):
    """Bytes each repetition of a call leaves behind, per live model and call."""
    r = []
    for name in sorted(M):
        x = M[name].x if isinstance(M[name], Model) else M[name]
        p = x.internal_params()
        X = np.random.RandomState(1).rand(400, p["x_dim"])
        Y = np.random.RandomState(2).rand(400, p["y_dim"])
        bad = lambda: x.predict(X[:, :, None])
        calls = [("predict", lambda: x.predict(X, cover=np.zeros(p["y_dim"] if p["n_actions"] == 1 else p["y_dim"]))), ("json", lambda: x.json()),
                 ("internal_params", lambda: x.internal_params()), ("get_params", lambda: x.get_params()), ("metrics", lambda: x.get_metrics()),
                 ("bad", bad), ("save", lambda: x.save("grow.bin")), ("load", lambda: x.load("grow.bin")), ("store", lambda: x.store()),
                 ("pickle", lambda: pickle.dumps(x))]
        if p["n_actions"] == 1:
            calls += [("score", lambda: x.score(X, Y)), ("score_n", lambda: x.score(X, Y, N=5))]
        for n, f in calls:
            at = []
            for k in range(41):
                if k % 8 == 0:
                    at.append(held())
                try:
                    f()
                except Exception:
                    pass
            # memory kept for reuse is kept once: the least growth counts
            r.append([name, n, max(0, min(b - a for a, b in zip(at, at[1:])) // 8)])
    return r


def main():
    global OUT
    sc = json.load(open(sys.argv[1]))
    OUT = open(os.path.abspath(sys.argv[2]), "w")
    os.makedirs(sys.argv[2] + ".d", exist_ok=True)
    os.chdir(sys.argv[2] + ".d")
    emit({"e": "Init", "D": [{"x": enc(d["x"]), "y": enc(d["y"])} for d in sc["data"]]})
    for o in sc["ops"]:
        ev = {"e": o["op"], "m": "m%d" % o.get("m", 0), "x": "none"}
        ev["o"] = enc({k: v for k, v in o.items() if k not in ("m", "op")})
        for k, v in o.items():  # small integers as integers
            if isinstance(v, int) and not isinstance(v, bool):
                ev["o"][k] = v
        ev["o"]["seed"] = o.get("seed", 0)
        if ev["o"].get("cover") == "none":
            ev["o"]["cover"] = []
        try:
            do(o, sc, ev)
        except SystemExit:
            raise
        except Exception as e:
            ev["x"] = type(e).__name__
        ev["C"] = changes()
        emit(ev)
    emit({"e": "End", "grow": growth(sc) if os.environ.get("VERIF_GROWTH") else []})
    OUT.close()
    os.chdir("/")
    import shutil
    shutil.rmtree(sys.argv[2] + ".d" if os.path.isabs(sys.argv[2]) else "/nonexistent", ignore_errors=True)


main()

"""Shared machinery: scenario generation (TLC simulation of a scenario spec),
replay on the real library, trace validation (TLC), evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CP = "%s:%s:%s" % (os.path.join(build.BUILD, "java"), build.TLAJAR, build.CMJAR)
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_odr_violation=0", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}


class CheckError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class Scratch:
    def __enter__(self):
        os.makedirs(build.BUILD, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="run-", dir=build.BUILD)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def tlc(module, cfg, scratch, env=None, args=(), timeout=600, heap="3g", workers="1", partial=False):
    """Runs TLC; returns (rc, output). partial: a run out of time is no error, what it printed is returned with rc None."""
    md = tempfile.mkdtemp(prefix="md-", dir=scratch)
    cf = os.path.join(md, "run.cfg")
    open(cf, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", "-Xmx" + heap, "-Xss64m", "-cp", CP,
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", workers, "-noGenerateSpecTE", "-metadir", md, "-config", cf]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        if partial:
            shutil.rmtree(md, ignore_errors=True)
            return None, (x.stdout or b"").decode(errors="replace")
        raise CheckError("TLC timed out on %s" % module)
    out = "\n".join(l for l in r.stdout.splitlines() if not l.startswith(("Loading ", "Linting ", "Parsing ", "Semantic ")))
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, out


def cfgset(s):
    return "{" + ", ".join('"%s"' % x for x in sorted(s)) + "}"


def unquote(v):
    """Scenario specs write reals as decimal strings."""
    if isinstance(v, dict):
        return {k: unquote(w) for k, w in v.items()}
    if isinstance(v, list):
        if v[:1] == ["s"]:  # a string, written as its characters
            return "".join(v[1:])
        return [unquote(w) for w in v]
    if isinstance(v, str) and re.fullmatch(r"-?\d+(\.\d+)?([eE][-+]?\d+)?", v):
        return float(v)
    return v


def generate(module, consts, n, depth, seed, scratch, timeout=300):
    """n behaviours of a scenario spec, as dicts."""
    cfg = "".join("CONSTANT %s = %s\n" % kv for kv in consts.items())
    cfg += "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    rc, out = tlc(module, cfg, scratch, args=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed)], timeout=timeout)
    res = []
    for l in out.splitlines():
        if l.startswith('"SCN '):
            res.append(unquote(json.loads(json.loads(l)[4:])))
    if rc != 0 or len(res) < n:
        raise CheckError("scenario generation failed (%s): rc %d, %d of %d\n%s" % (module, rc, len(res), n, out[-3000:]))
    return res[:n]


def drive(exe, scn, path, scratch, timeout=60, env=None):
    """Replays one scenario; the trace always ends in End or Crash."""
    sp = path + ".scn"
    json.dump(scn, open(sp, "w"))
    e = dict(os.environ)
    e.update(ASAN)
    e.update(env or {})
    why = None
    try:
        r = subprocess.run((exe if isinstance(exe, list) else [exe]) + [sp, path], cwd=scratch, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        if r.returncode != 0:
            why = "exit %d: %s" % (r.returncode, r.stderr.decode("utf8", "replace")[:1500])
    except subprocess.TimeoutExpired:
        why = "timeout after %d s" % timeout
    lines = open(path, errors="replace").read().split("\n") if os.path.exists(path) else []
    good = [l for l in lines if l.endswith("}")]
    if why is None and (not good or '"End"' not in good[-1]):
        why = "no End event"
    if why is not None:
        # the last line may be cut short by the crash
        keep = []
        for l in good:
            try:
                json.loads(l)
                keep.append(l)
            except ValueError:
                break
        with open(path, "w") as f:
            f.write("".join(l + "\n" for l in keep))
            f.write(json.dumps({"e": "Crash", "why": re.sub(r"[^ -~\n]", "?", why)[:1500]}) + "\n")
    return path


def validate(module, path, consts, scratch, timeout=600):
    """TLC on one trace file. Returns dict(ok, states, fails, out)."""
    cfg = "".join("CONSTANT %s = %s\n" % kv for kv in consts.items())
    cfg += "SPECIFICATION Spec\nPOSTCONDITION Accepted\nVIEW View\nCHECK_DEADLOCK FALSE\n"
    rc, out = tlc(module, cfg, scratch, env={"TRACE": path}, timeout=timeout)
    m = re.findall(r"([\d,]+) distinct states found", out)  # the last one: earlier ones report progress
    states = int(m[-1].replace(",", "")) if m else 0
    fails = [re.sub(r"\s+", " ", x) for x in re.findall(r'<<\s*"FAIL".*?>>\n?', out, re.S)]
    if rc == 0:
        return dict(ok=True, states=states, fails=[], out=out)
    if "Postcondition" in out and states >= 1 and "evaluat" not in out.split("Postcondition")[0][-2000:]:
        return dict(ok=False, states=states, fails=fails, out=out)
    if states >= 2 and ("The error occurred when TLC was evaluating" in out or "TLC threw an unexpected exception" in out):
        # a recorded value outside the domain of the specification (a field
        # missing, an index out of range): the step is not one it allows
        i = out.find("Error:")
        return dict(ok=False, states=states, fails=fails + ["undefined in the specification: " + re.sub(r"\s+", " ", out[i:i + 400])], out=out)
    raise CheckError("TLC error on %s %s (rc %d):\n%s" % (module, path, rc, out[-4000:]))


def batches(paths, limit=6_000_000, most=40):
    cur, sz = [], 0
    for p in paths:
        n = os.path.getsize(p)
        if cur and (sz + n > limit or len(cur) >= most):
            yield cur
            cur, sz = [], 0
        cur.append(p)
        sz += n
    if cur:
        yield cur


def concat(paths, out):
    with open(out, "wb") as f:
        for p in paths:
            f.write(open(p, "rb").read())
    return out


def count_events(paths, counts):
    for p in paths:
        for m in re.finditer(rb'^\{"e":"(\w+)"', open(p, "rb").read(), re.M):
            k = m.group(1).decode()
            counts[k] = counts.get(k, 0) + 1


def replay_dir():
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return d


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.model = {}
        self.events = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.notes = []

    def violation(self, what, payload, ext="json"):
        p = os.path.join(replay_dir(), "%s-%d.%s" % (self.prop, len(self.violations) + 1, ext))
        with open(p, "w") as f:
            f.write(payload if isinstance(payload, str) else json.dumps(payload, indent=1))
        self.violations.append({"what": what, "replay": p})

    def finish(self, level="model_checking"):
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:5],
                "events": self.events, "model": self.model, "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "violations": len(self.violations),
            "violation_details": self.violations,
            "known_findings": self.known,
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for v in self.violations:
            print("%s: %s" % (self.prop, v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
        if not self.violations:
            print("%s held: %d traces, %d trace states, %d model states, %.1f s" % (
                self.prop, self.traces, self.states, self.model.get("distinct_states", 0), ev["wall_s"]))
        return 1 if self.violations else 0


def conform(res, module, exe, scns, consts, scratch, timeout=60, jobs=8, env=None, label=""):
    """Replays scenarios, validates the traces, confirms every rejection by a
    second, isolated replay before reporting it."""
    paths = [os.path.join(scratch, "%s%04d.nd" % (label, i)) for i in range(len(scns))]
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda a: drive(exe, a[0], a[1], scratch, timeout, env), zip(scns, paths)))
    count_events(paths, res.events)
    bs = list(batches(paths))

    def one(a):
        k, b = a
        f = concat(b, os.path.join(scratch, "%sbatch%d.nd" % (label, k)))
        r = validate(module, f, consts, scratch)
        os.unlink(f)
        return b, r
    rejected = []
    with ThreadPoolExecutor(jobs) as ex:
        for b, r in ex.map(one, enumerate(bs)):
            res.states += r["states"]
            res.transitions += max(0, r["states"] - 1)
            if r["ok"]:
                res.traces += len(b)
            else:
                # which trace of the batch holds the rejected event
                at, acc = r["states"], 0  # states = accepted events + 1 = index of the rejected event
                for p in b:
                    n = open(p, "rb").read().count(b"\n")
                    if at <= acc + n:
                        rejected.append((p, r))
                        break
                    acc += n
                    res.traces += 1
    if scns and len(res.samples) < 3:
        res.samples.append({"scenario": scns[0], "trace_head": open(paths[0], errors="replace").read(600)})
    for p, r in rejected[:3]:
        scn = scns[paths.index(p)]
        # what was recorded is evidence in itself (the code may be racy), except a
        # crash or a timeout, which the machine may have caused: those must repeat
        q = os.path.join(scratch, "confirm.nd")
        for n in range(3):
            drive(exe, scn, q, scratch, timeout, env)
            r2 = validate(module, q, consts, scratch)
            if not r2["ok"]:
                break
        else:
            r2 = validate(module, p, consts, scratch)
            if r2["ok"] or '"Crash"' in open(p, errors="replace").read().split("\n")[-2]:
                res.notes.append("rejection did not repeat: %s" % r["fails"][-1:])
                continue
            q = p
        lines = open(q, errors="replace").read().split("\n")
        k = r2["states"] - 1
        what = (r2["fails"] or ["rejected event " + lines[k][:300]])[-1][:600]
        res.violation(what, {"module": module, "consts": consts, "scenario": scn, "rejected_event_index": k + 1,
                             "fails": r2["fails"], "rejected_event": lines[k][:20000] if k < len(lines) else "",
                             "previous_events": [l[:3000] for l in lines[max(0, k - 3):k]]})
    for p in paths:
        for x in (p, p + ".scn"):
            if os.path.exists(x):
                os.unlink(x)


def known(prop):
    f = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(f)) if k["property"] == prop and k["status"] == "known"] if os.path.exists(f) else []


def main(fn, prop):
    try:
        build.java()
        res = Result(prop)
        with Scratch() as d:
            fn(res, d)
        sys.exit(res.finish())
    except (CheckError, build.BuildError) as e:
        print("ERROR %s: %s" % (prop, e), file=sys.stderr)
        sys.exit(3)

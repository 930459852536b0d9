"""Exhaustive model checking of the specification itself (independent of /repo):
the relations the traces are checked against are shown to follow from
constructive models of the algorithms, within the bounds given here."""
import sys, os, re, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp

INV = {
    "XCSFModel": "InvAccounted InvLimit InvSets InvDead InvConserved InvMatch InvCover InvNeverMatched InvUpdate InvSubsume InvSuperset InvBreed".split(),
    "OpsModel": "InvSuperset InvTips InvAntisym InvStrict InvNotGeneral InvCross InvValid InvCommon InvCentre InvDecided".split(),
    "ProgModel": "InvSwap InvTrees InvMutated InvValue InvNodes InvGraph InvGraphs".split(),
    "EnvModel": "InvOnFloor InvEnds InvReward InvReversible InvPercept InvMux".split(),
    "CallbackModel": "InvStop InvWhen InvBest InvPatient InvDue InvLeast".split(),
    "RLModel": "InvOrder InvOnce InvPay InvBreed InvCut".split(),
    "LearnModel": "InvError InvSize InvFitness InvShares InvMean InvAccuracy InvLoss InvNLMS InvRLS InvGainSymmetric InvMeanOf".split(),
    "ParallelModel": "InvSequential InvOwned".split(),
    "NeuralModel": "InvOut InvPassed InvWeights InvBiases InvTaught".split(),
    "PersistModel": "InvOwned InvFreed InvSnapshot".split(),
    "DataModel": "InvShape InvByValue InvContiguous InvOrderMatters".split(),
    "ParamModel": "InvLegal InvAsked InvIdem InvClamped".split(),
}
STEP = {"DataModel": ["StepRefused", "StepRead"], "PersistModel": ["StepAlone", "StepRetrieve"], "ParamModel": ["StepRefused"], "RLModel": ["Ends"]}
EXTRA = {"XCSFModel": "CONSTRAINT Bound\n"}


def X(**k):
    d = dict(Actions=1, Pop=3, MaxRules=1, SetSub="TRUE", EaSub="TRUE", Trials=2, Probation=2)
    d.update(k)
    return ("XCSFModel", d)


def ops(kind, grid, dim):
    return ("OpsModel", dict(Kind='"%s"' % kind, Grid=grid, Dim=dim))


# property -> (quick runs, further runs when thorough)
core_q = [X()]
core_t = [X(MaxRules=2, Trials=1), X(Actions=2, Pop=4, Trials=2), X(Pop=4, MaxRules=3, Trials=1), X(SetSub="FALSE", EaSub="FALSE", MaxRules=2, Trials=1),
          X(MaxRules=2, Trials=2), X(Trials=4, Probation=0)]
MODELS = {
    "P01": (core_q, core_t), "P02": ([ops("ter", 1, 2), ops("ubr", 2, 1)], core_t + [ops("csr", 3, 1), ops("ubr", 1, 2)]),
    "P03": (core_q, core_t), "P04": ([("LearnModel", dict(What='"rule"', Steps=1))], [("LearnModel", dict(What='"rule"', Steps=3))]),
    "P05": ([("LearnModel", dict(What='"rule"', Steps=2))], [("LearnModel", dict(What='"rule"', Steps=4))] + core_t),
    "P06": ([X(Probation=0)], core_t), "P07": (core_q, core_t),
    "P08": ([ops("csr", 2, 1), ops("ubr", 2, 1), ops("ter", 1, 3)], core_t + [ops("csr", 1, 2), ops("ubr", 1, 2), ops("ell", 2, 1), ops("ell", 1, 2)]),
    "P09": ([ops("csr", 2, 1), ops("ter", 1, 2), ops("ubr", 2, 1)], [ops("csr", 3, 1), ops("ubr", 3, 1), ops("csr", 1, 2), ops("ubr", 1, 2), ops("ter", 1, 3)]),
    "P10": ([("ProgModel", dict(MaxNodes=3, Graphs="FALSE"))], [("ProgModel", dict(MaxNodes=5, Graphs="FALSE")), ("ProgModel", dict(MaxNodes=1, Graphs="TRUE"))]),
    "P11": ([("LearnModel", dict(What='"pred"', Steps=2))], [("LearnModel", dict(What='"pred"', Steps=4))]),
    "P12": ([("NeuralModel", dict(Kinds=vp.cfgset({"connected", "avgpool", "upsample"})))],
            [("NeuralModel", dict(Kinds=vp.cfgset({"convolutional", "maxpool"})))]),
    "P13": ([("RLModel", dict(Tele=4))], [("RLModel", dict(Tele=9))]),
    "P14": ([("EnvModel", dict(W=2, H=2, Letters='{"*", "O", "F"}', Bits=0)), ("EnvModel", dict(W=1, H=1, Letters='{"*"}', Bits=6))],
            [("EnvModel", dict(W=3, H=2, Letters='{"*", "O", "G"}', Bits=0)), ("EnvModel", dict(W=3, H=3, Letters='{"*", "Q", "F"}', Bits=0))]),
    "P15": ([("PersistModel", dict(Models=1, Objects=3, Values=2, MaxOps=5))], [("PersistModel", dict(Models=2, Objects=5, Values=2, MaxOps=7))]),
    "P18": ([("ParamModel", {})], []),
    "P19": ([("ParallelModel", dict(Rules=3, Threads=3, Shared="FALSE"))], [("ParallelModel", dict(Rules=5, Threads=4, Shared="FALSE"))]),
    "P21": ([("CallbackModel", dict(Epochs=3, Values=2))], [("CallbackModel", dict(Epochs=6, Values=3))]),
    "P22": ([X(Trials=1)], core_t),
    "P24": ([("DataModel", dict(Cells=4, Cols=2, MaxRows=2, MaxOps=2))],
            [("DataModel", dict(Cells=4, Cols=2, MaxRows=2, MaxOps=3)), ("DataModel", dict(Cells=6, Cols=2, MaxRows=3, MaxOps=2)),
             ("DataModel", dict(Cells=5, Cols=1, MaxRows=3, MaxOps=2)), ("DataModel", dict(Cells=6, Cols=3, MaxRows=2, MaxOps=2))]),
    "P23": ([("LearnModel", dict(What='"rule"', Steps=1))], [("LearnModel", dict(What='"rule"', Steps=3))]),
}
MODELS["P25"] = MODELS["P16"] = MODELS["P17"] = MODELS["P15"]
MODELS["P20"] = MODELS["P21"]


def run_model(module, consts, d, timeout=800, deep=False):
    cfg = "".join("CONSTANT %s = %s\n" % kv for kv in consts.items())
    cfg += "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + EXTRA.get(module, "")
    cfg += "".join("INVARIANT %s\n" % i for i in INV[module]) + "".join("PROPERTY %s\n" % i for i in STEP.get(module, []))
    rc, out = vp.tlc(module, cfg, d, timeout=timeout, workers="1" if vp.TIER == "quick" else "4", partial=deep)
    if rc is None and "Error:" not in out:      # a deep run out of time: what it explored so far was free of violations
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out) or [("0", "0")]
        return {"module": module, "constants": {k: str(v) for k, v in consts.items()}, "generated": int(m[-1][0].replace(",", "")),
                "distinct": int(m[-1][1].replace(",", "")), "checked": INV[module], "complete": False}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if rc is None or rc != 0 or not m or "No error has been found" not in out:
        raise vp.CheckError("model %s %s: rc %s\n%s" % (module, consts, rc, out[-3000:]))
    return {"module": module, "constants": {k: str(v) for k, v in consts.items()}, "generated": int(m[-1][0].replace(",", "")),
            "distinct": int(m[-1][1].replace(",", "")), "checked": INV[module] + STEP.get(module, [])}


def start(prop, d):
    """Runs the models of a property beside its conformance check; join() gives their results."""
    q, t = MODELS.get(prop, ([], []))
    todo = q + (t if vp.TIER != "quick" else [])
    out, err = [], []

    def work():
        for k, (module, consts) in enumerate(todo):
            try:
                out.append(run_model(module, consts, d, timeout=400 if k >= len(q) else 800, deep=k >= len(q)))
            except vp.CheckError as e:
                err.append(e)
    th = threading.Thread(target=work)
    th.start()

    def join(res):
        th.join()
        if err:
            raise err[0]
        if out:
            res.model = {"runs": out, "distinct_states": sum(o["distinct"] for o in out)}
    return join


if __name__ == "__main__":
    import time
    import build
    build.java() if hasattr(build, "java") else None
    with vp.Scratch() as d:
        for p in sys.argv[1:] or sorted(MODELS):
            q, t = MODELS[p]
            for mod, c in q + (t if vp.TIER != "quick" else []):
                t0 = time.time()
                try:
                    r = run_model(mod, c, d)
                    print(p, mod, c, r["distinct"], "%.1f s" % (time.time() - t0), flush=True)
                except vp.CheckError as e:
                    print(p, "ERROR", e, flush=True)

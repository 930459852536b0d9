#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks registered here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification; TLC-generated histories replayed on the real code; recorded traces checked against the specification by TLC; small models enumerated exhaustively by TLC"
CORE_NOTE = ("The specification's clauses for this property hold on every step of every replayed history: histories are behaviours of spec/Scenario.tla "
             "drawn by TLC, replayed on the library rebuilt from /repo (ASan), and each recorded step is checked by TLC against spec/XCSF.tla (bit-exact doubles, "
             "tolerances only where summation order is free). Sampled histories, not all. Trusts the observation layer (harness/) and TLC.")
NOTE = {p: CORE_NOTE for p in "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P13 P20 P22 P23".split()}
PERSIST_NOTE = ("Histories of training, prediction, saving, loading, storing, retrieving, exporting and inserting over three models, two files and two exports (behaviours of "
                "spec/PersistScenario.tla drawn by TLC) are replayed on the library rebuilt from /repo (ASan); TLC checks every step against spec/Persist.tla, comparing the complete "
                "model content bit for bit. Sampled histories, not all. Trusts the observation layer (harness/) and TLC.")
NOTE.update({p: PERSIST_NOTE for p in "P15 P16 P17".split()})
API_NOTE = ("Histories of calls of the Python module over three models, files and exports (behaviours of spec/APIScenario.tla drawn by TLC; calls are repeated on twin models with other "
            "array layouts, epoch lengths, thread counts or callbacks) are replayed on the module rebuilt from /repo; TLC checks every call against spec/APITrace.tla, in which equal histories "
            "must give equal models, bit for bit. Sampled histories, not all. Trusts the observation layer (harness/pydrive.py) and TLC.")
for p in "P15 P16 P17 P18 P19 P20 P21 P22 P24".split():
    NOTE[p] = NOTE[p] + " Likewise through the Python module (spec/APITrace.tla)." if p in NOTE else API_NOTE
NOTE["P12"] = ("Histories of propagation, learning, mutation, copying, saving and randomising of networks of all layer kinds (behaviours of spec/NeuralScenario.tla drawn by TLC) are replayed on the "
               "library rebuilt from /repo (ASan); TLC recomputes every layer's output and every gradient step from spec/Neural.tla (relative tolerance 1e-9). Gradients inside LSTM layers and of the self-connections "
               "of recurrent layers are bounded only. Sampled histories, not all. Trusts harness/ndrive.c, xtrace.c and TLC.")
NOTE["P25"] = ("Histories of all kinds (behaviours of the scenario specifications drawn by TLC) are replayed on the library rebuilt from /repo; who owns which rule is specified and model checked in spec/PersistModel.tla. The trace specifications "
               "allow no Crash event (how AddressSanitizer reports an access to memory not owned) and require at End that nothing allocated is left without an owner, and that repeating Python calls leaves nothing behind. Sampled histories, not all; "
               "that a Python object's model is released with it is outside. Trusts AddressSanitizer, harness/ and TLC.")
NOTE["P14"] = ("Mazes, multiplexers and data files with histories of resets and actions (behaviours of spec/EnvScenario.tla drawn by TLC) are replayed on the library rebuilt from /repo (ASan); TLC checks every "
               "percept, reward and table against spec/Env.tla, the agent's hidden position as the set of positions consistent with what was seen. Sampled histories, not all. Trusts harness/envdrive.c and TLC.")
NA = {}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    na = []
    for p in props:
        if p in NOTE:
            checks.append(dict(property=p, quick_cmd="python3 checks/run.py " + p, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py " + p,
                evidence_file="evidence/%s.json" % p, technique=TRACE, level="model_checking", level_note=NOTE[p]))
        else:
            na.append(dict(property=p, reason=NA.get(p, "Check not built yet.")))
    m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na,
             notes="TLA+ checked with TLC. No hooks in /repo: observation is by linker --wrap of public functions from /verif/harness.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()

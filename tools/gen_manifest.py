"""Writes /verif/MANIFEST.json: one check per property module present, the rest not applicable."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"

T = {
    "C01": "deterministic simulation of the process pool: seeded dispatch, completion order, worker death and row failures; oracle: rows computed alone in untouched processes",
    "C02": "deterministic simulation with I/O fault injection at every step of the save; oracle: grid of a call that saves nothing",
    "C03": "deterministic crash simulation: process killed or I/O failing at seeded points and write lengths of a save, destination read back by a fresh process",
    "C04": "seeded histories of renders, settings and faults on shared models; oracle: executable reference renderer and untouched processes",
    "C05": "seeded thread schedules under a simulated scheduler (switches at the interpreter's own switch points); oracle: the same renders alone",
    "C06": "seeded histories of assignments with injected faults; oracle: small state model of the sampling settings",
    "C07": "seeded histories of reads, setting changes, plots and faults on profiles; oracle: fresh profile in an untouched process",
    "C08": "seeded histories of copies and mutations with injected faults; oracle: untouched twin objects",
    "C09": "seeded histories and thread schedules of fits with injected faults; oracle: the same fit alone in an untouched process",
    "C10": "seeded calls with injected interrupts, allocation and library failures; oracle: deep snapshots and memory-sharing probes of the arguments",
    "C11": "seeded calls from randomised ambient states with injected faults; oracle: snapshot of process-wide state",
    "C12": "seeded orders, thread schedules and faults of source measurements; oracle: each source measured alone in an untouched process",
    "C13": "seeded failures of the isophote fit at every stage; oracle: reference contract of the guard and untouched processes",
    "C14": "seeded histories and thread schedules of look-ups with injected faults; oracle: same look-up in an untouched process, reference nearest-row model",
    "C15": "seeded drawing failures and interrupts; oracle: values of objects never drawn",
    "C16": "seeded ambient environments (generators, simulated clock, processor counts, collector timing, hash seeds, directories, locales); oracle: the same analysis in an untouched process",
}
NOTE = {
    "C01": "Seeded search, not exhaustive. Trusts: pool stand-in delivers every order and failure a real process pool can, tasks and results pickled in forked workers.",
    "C02": "Seeded search over failing operations of the save. Trusts: Python-level file seam plus RLIMIT_FSIZE covers the operations the writers use.",
    "C03": "Seeded search over crash points and torn write lengths; crashes are process crashes (the kernel keeps completed writes).",
    "C05": "Threads switch only where CPython 3.12 with the GIL can switch; free-threaded builds are outside.",
    "C16": "Same interpreter, library versions and machine; bit-for-bit equality.",
}
DEFAULT_NOTE = "Seeded search over histories, schedules and faults: no violation within the runs made; not exhaustive. Trusts the pinned third-party libraries and that an untouched forked process gives the reference value."

NA = {
    "N01": "A pure function of its arrays: no schedule, clock, I/O, fault or history enters the claim, so there is nothing to simulate (history independence of the same values is C07).",
    "N02": "A numerical relation of one pure call; nothing nondeterministic to put behind a seam (independence of history and faults is C07).",
    "N03": "A numerical relation between inputs and outputs of one pure call; no schedule, fault or history takes part.",
    "N04": "Exactness of a sum over pixels is a pure numerical claim about one call; its independence of order, threads and faults is C12.",
    "N05": "Algebraic identities between pure helper functions; nothing to schedule or to fail.",
    "N06": "Closed formulas evaluated at given coordinates; no state, time or I/O.",
    "N07": "Numerical convergence of a third-party optimiser on one input; the simulated part (repeatability, faults, threads) is C09 and C16.",
    "N08": "Accuracy of an interpolation table for one input; the simulated part (stability under histories, faults, threads) is C14.",
    "N09": "A pure function of one segmentation map; the part that depends on calls and faults (inputs unchanged) is C10.",
    "N10": "Pure conversions of numbers, strings and headers; no nondeterminism of any kind.",
}

checks = []
na = []
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for i in ids:
    if os.path.exists(os.path.join(ROOT, "pfsim", "props", i.lower() + ".py")):
        cmd = "%s -m pfsim.check %s" % (PY, i)
        checks.append({"property": i, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough", "evidence_file": "evidence/%s.json" % i,
                       "technique": T[i], "level": "exploration", "level_note": NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "%s -m pfsim.selftest" % PY, "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: every seam is placed from outside (fork, sys.monitoring, patched module attributes). "
              "Checks import petrofit from /repo's working tree on every run; nothing is cached between runs."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")

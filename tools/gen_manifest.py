#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks present in mon/checks."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "runtime monitoring: dense Gaussian oracle on every likelihood call of generated models",
 "C02": "runtime monitoring: joint dense Gaussian oracle on every array likelihood call",
 "C03": "runtime monitoring: recorded call histories checked against freshly built models; input and output digests",
 "C04": "runtime monitoring: dense matrix oracle on every noise solve",
 "C05": "runtime monitoring: naming model checked against every parameter inventory",
 "C06": "runtime monitoring: differential oracle (free-parameter model) over set_default_params histories",
 "C07": "runtime monitoring: quadrature and closed-form oracles on prior evaluations",
 "C08": "runtime monitoring: statistical and inverse-CDF oracles on samples and transforms",
 "C09": "runtime monitoring: call-recording functions checked against an argument-resolution model",
 "C10": "runtime monitoring: mask and contribution oracles on selected signals",
 "C11": "runtime monitoring: metamorphic relations between recomposed models plus dense oracle",
 "C12": "runtime monitoring: invariance and closed-form constants of the timing-model marginalisation",
 "C13": "runtime monitoring: dense posterior oracle on conditional means and on whitened draws",
 "C14": "runtime monitoring: Gaussian-integral oracle over observed coefficient likelihoods",
 "C15": "runtime monitoring: joint TOA+DM Gaussian oracle",
 "C16": "runtime monitoring: definitional oracle on basis evaluations",
 "C17": "runtime monitoring: definitional oracle and reductions on spectral priors",
 "C18": "runtime monitoring: closed forms, rotations, eigenvalues and round trips on hostile geometry",
 "C19": "runtime monitoring: per-TOA identity tags followed through the real pulsar classes",
 "C20": "runtime monitoring: attribute and likelihood comparison over save/load histories",
 "C21": "runtime monitoring: lifecycle automaton over multi-process event logs with kills",
 "C22": "runtime monitoring: independent waveform oracles",
 "C23": "runtime monitoring: greedy-partition oracle on quantisation calls",
 "C24": "runtime monitoring: direct assembly and inverse-residual oracles",
 "C25": "runtime monitoring: conservation laws and finite differences along observed trajectories",
 "C26": "runtime monitoring with fault injection: fresh-model oracle after every injected failure",
 "C27": "runtime monitoring: ordered-mapping model of every array, pulsar model and sum",
 "C29": "runtime monitoring: cross-process comparison (hash seeds, forks) and snapshots of global state around every operation",
 "C30": "runtime monitoring: every unsupported request next to its supported neighbour; oracle: exception, or the reference value",
 "C31": "runtime monitoring: differential runs of every call with options omitted and positional against the call with every documented default spelled out",
 "C32": "runtime monitoring: metamorphic runs of random models on the same data in another order, time origin, orientation, unit or naming; likelihoods and structure compared",
 "C33": "runtime monitoring: allocation tracing between batches of calls and weak references after release, with descriptors, threads and temporary files watched",
 "C28": "runtime monitoring: elementary-rotation oracle on frame rotations and antenna patterns",
}
NOTE = ("Holds on the executions generated from VERIF_SEED (fixed number of cases per run, counted in the evidence file); "
        "nothing is claimed beyond them. Trusts numpy/scipy and the independent reference formulas in mon/ref.py and mon/model.py. ")
EXTRA = {}
NA = {}
checks = []
have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "mon", "checks")) if f.startswith("c") and f.endswith(".py"))
for p in have:
    checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check {} --tier thorough".format(p), "technique": T[p],
                   "level": "exploration", "level_note": (NOTE + EXTRA.get(p, "")).strip()})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in sorted(T) if p not in have]
m = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: monitors wrap the public interface from the harness process. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")

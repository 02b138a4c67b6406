"""Runner: cases, workers, monitors' verdicts, evidence, replay."""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
from collections import Counter

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Abort(Exception):
    """Raised to leave a case after a violation that makes going on pointless."""


def digest(x, h=None):
    """Content digest of nested python/numpy data."""
    top = h is None
    h = hashlib.sha1() if top else h
    if isinstance(x, np.ndarray):
        h.update(str((x.dtype, x.shape)).encode())
        if x.dtype == object:
            for e in x.ravel():
                digest(e, h)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            digest(x[k], h)
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for e in x:
            digest(e, h)
    else:
        h.update(repr(x).encode())
    return h.hexdigest() if top else None


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 40 else "array{}{}".format(x.shape, x.ravel()[:6].tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


class Ctx(object):
    def __init__(self, prop, tier, scen=None, seed=None):
        self.prop, self.tier = prop, tier
        self.events = Counter()
        self.checks = Counter()
        self.sigs = set()
        self.samples = []
        self.viol = []
        self.maxerr = {}
        self.scen, self.seed = scen, seed
        self.notes = []
        self._case = None

    def begin(self, scen, seed):
        self.scen, self.seed = scen, seed
        self._case = {"scenario": scen, "seed": seed}
        self.events["cases"] += 1
        self.events["cases:" + scen] += 1

    # -- recording
    def event(self, name, n=1):
        self.events[name] += n

    def sig(self, *what):
        self.sigs.add((self.scen, hashlib.sha1(repr(what).encode()).hexdigest()[:12]))
        if len(self.samples) < 6 and (len(self.samples) == 0 or self.samples[-1].get("scenario") != self.scen):
            self.samples.append({"scenario": self.scen, "seed": self.seed, "case": jsonable(what)})

    def violation(self, key, msg, **detail):
        self.viol.append({"key": key, "msg": str(msg)[:600], "scenario": self.scen, "seed": self.seed,
                          "detail": jsonable(detail)})

    def ok(self, cond, key, msg="", **detail):
        self.checks[key] += 1
        if not cond:
            self.violation(key, msg, **detail)
        return bool(cond)

    def close(self, got, want, key, rtol=1e-9, atol=0.0, msg="", scale=None, **detail):
        """|got - want| <= atol + rtol*scale, scale = max(|want|, |got|, given) over all elements."""
        self.checks[key] += 1
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except Exception as e:
            self.violation(key, "not numeric: {!r} {}".format(e, msg), got=got, want=want, **detail)
            return False
        if g.shape != w.shape:
            self.violation(key, "shape {} expected {} {}".format(g.shape, w.shape, msg), got=got, want=want, **detail)
            return False
        if g.size == 0:
            return True
        fin = np.isfinite(w)
        if not np.array_equal(fin, np.isfinite(g)) or (not fin.all() and not np.array_equal(g[~fin], w[~fin], equal_nan=True)):
            self.violation(key, "non-finite mismatch {}".format(msg), got=got, want=want, **detail)
            return False
        if not fin.any():
            return True
        g, w = g[fin], w[fin]
        sc = np.max(np.abs(w)) if scale is None else scale
        err = np.max(np.abs(g - w))
        tol = atol + rtol * sc
        rel = err / tol if tol > 0 else (0.0 if err == 0 else np.inf)
        self.maxerr[key] = max(self.maxerr.get(key, 0.0), float(rel))
        if not rel <= 1:
            self.violation(key, "differs by {:.3e}, tolerance {:.3e} {}".format(err, tol, msg), got=got, want=want, **detail)
            return False
        return True

    def same(self, got, want, key, msg="", **detail):
        """bitwise equality of numeric arrays."""
        self.checks[key] += 1
        g, w = np.asarray(got), np.asarray(want)
        good = g.shape == w.shape and np.array_equal(g, w, equal_nan=(g.dtype.kind in "fc" and w.dtype.kind in "fc"))
        if not good:
            self.violation(key, msg or "arrays differ", got=got, want=want, **detail)
        return good

    def raises(self, exc, fn, key, msg="", **detail):
        self.checks[key] += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            if exc is Exception:
                return True
            self.violation(key, "raised {!r}, expected {} {}".format(e, exc, msg), **detail)
            return False
        self.violation(key, "did not raise, returned {!r} {}".format(r, msg)[:400], **detail)
        return False

    def dump(self):
        return {"events": dict(self.events), "checks": dict(self.checks), "sigs": sorted(map(list, self.sigs)),
                "samples": self.samples, "viol": self.viol[:40], "nviol": len(self.viol), "maxerr": self.maxerr, "notes": self.notes[:10]}


def run_case(ctx, fn, scen, seed):
    ctx.begin(scen, seed)
    np.random.seed(seed % (2**32 - 1))
    rng = np.random.RandomState((seed * 7919 + 13) % (2**32 - 1))
    try:
        fn(ctx, rng)
    except Abort:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/repo/" in f.filename]
        loc = "harness" if not where else os.path.relpath(where[-1].filename, REPO) + ":" + where[-1].name
        ctx.violation("unexpected-exception", "{}: {} at {}".format(type(e).__name__, e, loc),
                      traceback=traceback.format_exc()[-1500:])


def load(prop):
    sys.path.insert(0, VERIF)
    return importlib.import_module("mon.checks." + prop.lower())


def plan(mod, tier, seed):
    """[(scenario, case seed)] of this tier."""
    out = []
    for name, (fn, nq, nt) in mod.SCENARIOS.items():
        n = nq if tier == "quick" else nt
        for i in range(n):
            h = int(hashlib.sha1("{}|{}|{}|{}".format(mod.PROP, name, seed, i).encode()).hexdigest()[:8], 16)
            out.append((name, h))
    # interleave scenarios so that a truncated run still covers all
    order = sorted(range(len(out)), key=lambda k: hashlib.sha1(str((k, seed)).encode()).hexdigest())
    return [out[k] for k in order]


def quiet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    import enterprise

    assert os.path.realpath(enterprise.__path__[0]).startswith(REPO + "/"), enterprise.__path__


class Lines(object):
    """Records which lines of the code under test were executed (each location reports once, then is switched off)."""

    def __init__(self):
        self.seen = {}
        m = sys.monitoring
        self.root = os.path.join(REPO, "enterprise") + os.sep
        m.use_tool_id(4, "lines")
        m.register_callback(4, m.events.LINE, self.line)
        m.set_events(4, m.events.LINE)

    def line(self, code, number):
        if code.co_filename.startswith(self.root):
            self.seen.setdefault(code.co_filename[len(self.root):], set()).add(number)
        return sys.monitoring.DISABLE

    def dump(self):
        return {f: sorted(s) for f, s in self.seen.items()}


def worker(args):
    sys.path.insert(0, VERIF)
    quiet()
    lines = Lines()
    mod = load(args.prop)
    ctx = Ctx(args.prop, args.tier)
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    cases = plan(mod, args.tier, args.seed)[args.k :: args.n]
    t0 = time.time()
    prog = open(args.out + ".case", "w")
    done = 0
    for scen, seed in cases:
        if time.time() - t0 > args.budget:
            break
        prog.seek(0)
        prog.write("{} {}\n".format(scen, seed).ljust(80))
        prog.flush()
        run_case(ctx, mod.SCENARIOS[scen][0], scen, seed)
        done += 1
    d = ctx.dump()
    d["planned"], d["done"] = len(cases), done
    d["lines"] = lines.dump()
    with open(args.out, "w") as f:
        json.dump(d, f)
    return 0


def known_findings(prop):
    """{key: text} of the accepted findings of this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split("|")[0].split()[1:] if "=" in x)
                if f.get("property") == prop:
                    out[f["key"]] = line.split("|", 1)[1].strip()
    return out


ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
           PYTHONNOUSERSITE="1", PYTHONWARNINGS="ignore")


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="imports everything (setup_cmd)")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--case", nargs=2, help="scenario seed")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--k", type=int)
    ap.add_argument("--n", type=int)
    ap.add_argument("--out")
    args = ap.parse_args(argv)
    if args.selftest:
        sys.path.insert(0, VERIF)
        quiet()
        mods = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "mon", "checks")) if f.startswith("c") and f.endswith(".py"))
        print("ok", len([load(m) for m in mods]), "check modules")
        return 0
    if args.budget is None:
        args.budget = 240.0 if args.tier == "quick" else 2400.0
    if args.worker:
        return worker(args)
    if args.replay or args.case:
        sys.path.insert(0, VERIF)
        quiet()
        mod = load(args.prop)
        ctx = Ctx(args.prop, args.tier)
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        if args.replay:
            r = json.load(open(args.replay))
            scen, seed = r["scenario"], r["seed"]
        else:
            scen, seed = args.case[0], int(args.case[1])
        run_case(ctx, mod.SCENARIOS[scen][0], scen, seed)
        print(json.dumps(ctx.dump(), indent=1)[:8000])
        return 1 if ctx.viol else 0

    t0 = time.time()
    import tempfile

    tmp = tempfile.mkdtemp(prefix="mon-")
    env = dict(os.environ)
    env.update(ENV)
    procs = []
    n = args.workers
    for k in range(n):
        out = os.path.join(tmp, "w{}.json".format(k))
        cmd = [sys.executable, os.path.join(VERIF, "mon", "main.py"), args.prop, "--worker", "--k", str(k), "--n", str(n),
               "--out", out, "--tier", args.tier, "--seed", str(args.seed), "--budget", str(args.budget)]
        procs.append((out, subprocess.Popen(cmd, env=env, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT)))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(args.prop + "-"):
            os.unlink(os.path.join(rdir, f))
    events, checks, sigs, samples, viol, maxerr, notes = Counter(), Counter(), set(), [], [], {}, []
    planned = done = nviol = 0
    problems = []
    lines = {}
    for out, pr in procs:
        try:
            rc = pr.wait(timeout=max(10.0, args.budget + 300 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
            rc = "timeout"
        if rc != 0 or not os.path.exists(out):
            case = open(out + ".case").read().split() if os.path.exists(out + ".case") else []
            log = open(out + ".log").read()[-800:]
            if case and len(case) == 2:
                nviol += 1
                viol.append({"key": "worker-died", "msg": "process running the code under test ended with {}".format(rc),
                             "scenario": case[0], "seed": int(case[1]), "detail": {"log": log}})
            else:
                problems.append("worker ended with {}: {}".format(rc, log))
            continue
        d = json.load(open(out))
        events.update(d["events"])
        checks.update(d["checks"])
        sigs.update(map(tuple, d["sigs"]))
        samples += d["samples"]
        viol += d["viol"]
        nviol += d["nviol"]
        notes += d["notes"]
        for k, v in d["lines"].items():
            lines.setdefault(k, set()).update(v)
        planned += d["planned"]
        done += d["done"]
        for k, v in d["maxerr"].items():
            maxerr[k] = max(maxerr.get(k, 0), v)
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)

    mod = load(args.prop)
    known = known_findings(args.prop)
    hits = Counter()
    new = []
    for v in viol:
        if v["key"] in known:
            hits[v["key"]] += 1
        else:
            new.append(v)
    for key, text in sorted(known.items()):
        # a finding is listed whenever its dedicated scenario still shows it
        if hits[key]:
            print("KNOWN-FINDING: property={} {}".format(args.prop, text))
    need = getattr(mod, "REQUIRE", {})
    missing = {k: events.get(k, checks.get(k, 0)) for k, m in need.items() if events.get(k, checks.get(k, 0)) < m}
    chosen, seen = [], set()
    for s in samples:
        if s["scenario"] not in seen:
            seen.add(s["scenario"])
            chosen.append(s)
    ev = {
        "property": args.prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": int(events["cases"]), "distinct_nontrivial": len(sigs), "rule": mod.RULE,
            "samples": chosen[:12], "oracle_checks": dict(sorted(checks.items())), "oracle_checks_total": int(sum(checks.values())),
            "observed_events": dict(sorted(events.items())), "planned_cases": planned,
            "largest_error_over_tolerance": {k: float("%.3g" % v) for k, v in sorted(maxerr.items())},
            "lines_executed_in_code_under_test": {k: len(v) for k, v in sorted(lines.items())},
            "known_findings_reproduced": dict(hits), "notes": notes[:5],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", args.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(os.path.join(rdir, args.prop + "-lines.json"), "w") as f:
        json.dump({k: sorted(v) for k, v in sorted(lines.items())}, f)
    print("{} {} seed={} cases={} checks={} distinct={} wall={:.1f}s".format(
        args.prop, args.tier, args.seed, done, sum(checks.values()), len(sigs), time.time() - t0))
    if new:
        byk = {}
        for v in new:
            byk.setdefault(v["key"], []).append(v)
        for i, (k, vs) in enumerate(sorted(byk.items())):
            path = os.path.join(rdir, "{}-{}.json".format(args.prop, i))
            with open(path, "w") as f:
                json.dump(dict(vs[0], property=args.prop, tier=args.tier, how="./check {} --replay {}".format(args.prop, path)), f, indent=1)
            print("VIOLATION property={} replay={}".format(args.prop, path))
            print("  {} x{}: {} [{} {}]".format(k, len(vs), vs[0]["msg"], vs[0]["scenario"], vs[0]["seed"]))
        return 1
    if problems or missing or done < planned * 0.5:
        print("INCONCLUSIVE property={} {}".format(args.prop, problems or missing or "{} of {} cases".format(done, planned)))
        return 2
    return 0


def size(rng, lo, hi, top, prob=0.03):
    """`rng.randint(lo, hi)`, now and then something much larger (up to `top`)."""
    return int(rng.randint(hi, top + 1) if rng.rand() < prob else rng.randint(lo, hi))

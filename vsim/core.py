"""Common machinery of the simulation checks: seeds, the campaign loop,
minimisation, replay files, known findings and evidence.

One integer seed decides everything a run does: the base seed (VERIF_SEED), the
property id and the run index are hashed into a run seed, the run seed feeds one
random.Random, and `generate` may draw from nothing else.  `execute` is a
function of the scenario (a JSON value) and of the code under test only."""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable
KNOWN = os.path.join(VERIF, "known_findings.txt")


def derive(*parts):
    """A 64-bit seed from any printable parts"""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def digest(obj):
    """Short stable digest of a JSON-able object"""
    txt = json.dumps(obj, sort_keys=True, default=str)
    return hashlib.sha256(txt.encode()).hexdigest()[:16]


class Result:
    """What one simulated run produced"""

    def __init__(self):
        self.violations = []            # list of (sig, text)
        self.stats = collections.Counter()
        self.states = set()             # distinct states / interleavings reached
        self.nontrivial = True
        self.trace = None               # digest of everything observed

    def fail(self, sig, text):
        """Record a violation: <sig> is its class, <text> the particulars"""
        self.violations.append((sig, text))

    def merge(self, other):
        """Fold another run's numbers into this one"""
        self.stats.update(other.stats)
        self.states |= other.states


def selftest():
    """The tools every simulator needs are installed"""
    missing = [t for t in ("gcc", "gfortran", "xmllint")
               if shutil.which(t) is None]
    for tool in missing:
        print("missing:", tool)
    return 1 if missing else 0


class HarnessError(Exception):
    """The check itself cannot work (never reported as a violation)"""


class Sim:
    """Base class: one simulator, specialised by property"""

    components_real = []
    components_stub = []
    rule = ""
    measure = ""
    assumptions = []

    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.work = None

    def prepare(self):
        """Build what every run shares (called once, in self.work)"""

    def generate(self, seed):
        """Return the scenario of this seed (JSON-able)"""
        raise NotImplementedError

    def execute(self, scenario):
        """Run the scenario on the code under test; return a Result"""
        raise NotImplementedError

    def shrink(self, scenario):
        """Yield smaller candidate scenarios, most aggressive first"""
        return iter(())

    def runs(self, tier):
        """Number of runs (quick, thorough)"""
        raise NotImplementedError

    def describe(self, scenario):
        """Sample text for the evidence file"""
        return json.dumps(scenario, default=str)[:1500]


def shrink_list(items, minimum=0):
    """Yield shorter versions of a list, dropping halves, quarters, ... single items"""
    n = len(items)
    size = n // 2
    while size >= 1:
        start = 0
        while start < n:
            cand = items[:start] + items[start + size:]
            if minimum <= len(cand) < n:
                yield cand
            start += size
        size //= 2


# ---------------------------------------------------------------- campaign

_SIM = None
_ARGS = None


def _one(args):
    idx, base = args
    sim = _SIM
    seed = derive(base, sim.prop, idx)
    try:
        # (through JSON: what is executed is what a replay file will hold)
        scenario = json.loads(json.dumps(sim.generate(seed)))
        t0 = time.time()
        res = sim.execute(scenario)
        dt = time.time() - t0
    except Exception:                       # pylint: disable=broad-except
        return (idx, seed, None, None, traceback.format_exc(), 0.0)
    keep = scenario if (res.violations or idx < 3) else None
    return (idx, seed, keep, res, None, dt)


def load_known():
    """Known findings: property -> list of (signature, text)"""
    out = collections.defaultdict(list)
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.rstrip("\n")
                if line.startswith("finding: "):
                    # finding: property=<id> sig=<sig> <what fails>
                    rest = line[len("finding: "):]
                    prop, rest = rest.split(" ", 1)
                    sig, text = rest.split(" ", 1)
                    out[prop.split("=", 1)[1]].append((sig.split("=", 1)[1],
                                                       text))
    return out


def minimise(sim, scenario, sig, budget):
    """Greedy shrink keeping a violation of the same signature"""
    t0 = time.time()
    steps = 0
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in sim.shrink(scenario):
            if time.time() - t0 > budget:
                break
            steps += 1
            try:
                res = sim.execute(cand)
            except Exception:               # pylint: disable=broad-except
                continue
            if any(v[0] == sig for v in res.violations):
                scenario = cand
                progress = True
                break
    return scenario, steps


def save_replay(sim, seed, scenario, sig, text):
    """Write the replay file and return its path"""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{sim.prop}-{digest([sig, scenario])}.json")
    with open(path, "w") as fh:
        json.dump({"property": sim.prop, "seed": seed, "signature": sig,
                   "violation": text, "scenario": scenario}, fh, indent=1)
    return path


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def make_work(prop):
    """A scratch directory of this check"""
    base = os.environ.get("VERIF_SCRATCH", tempfile.gettempdir())
    return tempfile.mkdtemp(prefix=f"vsim-{prop}-", dir=base)


def run_check(sim, tier, seed, workers=None, runs=None, budget=None,
              out=None, quiet_evidence=False):
    """Run the campaign of one property; return the exit code"""
    global _SIM
    out = out or sys.stdout
    t0 = time.time()
    workers = workers or min(8, os.cpu_count() or 1)
    nruns = runs or sim.runs(tier)
    budget = budget or (300 if tier == "quick" else 3600)
    sim.work = make_work(sim.prop)
    total = Result()
    found = {}                              # sig -> list of (idx, seed, scenario, text)
    samples = []
    evaluations = 0
    nontriv = 0
    digests = set()
    errors = []
    traces = []
    exec_time = 0.0
    code = 0
    try:
        early = sim.prepare()
        if early:                           # violation that prevents any run
            for sig, text in early:
                found.setdefault(sig, []).append((-1, 0, {"prepare": True}, text))
            nruns = 0
        _SIM = sim
        ctx = multiprocessing.get_context("fork")
        known = load_known().get(sim.prop, [])
        knownsigs = {k[0] for k in known}
        stop_after = 3 if tier == "quick" else 8
        if nruns:
            with ctx.Pool(workers, initializer=_init_worker) as pool:
                for idx, rseed, scen, res, err, dt in pool.imap_unordered(
                        _one, ((i, seed) for i in range(nruns)), chunksize=1):
                    if err:
                        errors.append((idx, err))
                        if len(errors) > 20:
                            break
                        continue
                    evaluations += 1
                    exec_time += dt
                    total.merge(res)
                    traces.append((idx, res.trace))
                    if res.trace is not None and res.nontrivial and \
                            res.trace not in digests:
                        digests.add(res.trace)
                        nontriv += 1
                    if scen is not None and len(samples) < 3 and not res.violations:
                        samples.append(sim.describe(scen))
                    for sig, text in res.violations:
                        found.setdefault(sig, []).append((idx, rseed, scen, text))
                    new = [s for s in found if s not in knownsigs]
                    if sum(len(found[s]) for s in new) >= stop_after:
                        break
                    if time.time() - t0 > budget:
                        total.stats["stopped_on_time_budget"] += 1
                        break
                pool.terminate()
        for sig, text in known:
            print(f"KNOWN-FINDING: property={sim.prop} {text}", file=out)
        fresh = [s for s in sorted(found) if s not in knownsigs]
        nviol = 0
        for num, sig in enumerate(fresh[:3]):
            idx, rseed, scen, text = sorted(found[sig], key=lambda x: x[0])[0]
            small = scen
            steps = 0
            if idx >= 0:
                small, steps = minimise(sim, scen, sig, 40 if num == 0 else 15)
                try:
                    again = sim.execute(small)
                    texts = [t for s, t in again.violations if s == sig]
                    if texts:
                        text = texts[0]
                    repro = bool(texts)
                except Exception:           # pylint: disable=broad-except
                    repro = False
            else:
                repro = True
            path = save_replay(sim, rseed, small, sig, text)
            nviol += 1
            print(f"violation [{sig}] run={idx} seed={rseed} "
                  f"shrink_steps={steps} reproduced={repro}", file=out)
            print("  " + text.replace("\n", "\n  ")[:3000], file=out)
            print(f"VIOLATION property={sim.prop} replay={path}", file=out)
            code = 1
        wall = time.time() - t0
        if not quiet_evidence:
            write_evidence(sim, tier, seed, evaluations, nontriv, total,
                           samples, wall, exec_time, nviol, errors)
        print(f"{sim.prop} tier={tier} seed={seed} runs={evaluations} "
              f"distinct={nontriv} states={len(total.states)} "
              f"violations={nviol} errors={len(errors)} wall={wall:.1f}s",
              file=out)
        if errors and code == 0:
            print("harness errors:", file=out)
            for idx, err in errors[:3]:
                print(f"run {idx}: {err}", file=out)
            code = 2
        run_check.trace = digest(sorted(traces, key=lambda x: x[0]))
    finally:
        shutil.rmtree(sim.work, ignore_errors=True)
    return code


def write_evidence(sim, tier, seed, evaluations, nontriv, total, samples, wall,
                   exec_time, nviol, errors):
    """Write /verif/evidence/<id>.json from this run's own measurements"""
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    faults = {k[6:]: v for k, v in sorted(total.stats.items())
              if k.startswith("fault:")}
    other = {k: v for k, v in sorted(total.stats.items())
             if not k.startswith("fault:")}
    ev = {"property": sim.prop, "tier": tier, "seed": seed,
          "level": "exploration",
          "coverage": {
              "evaluations": evaluations,
              "distinct_nontrivial": nontriv,
              "rule": sim.rule,
              "samples": samples or ["(no run)"],
              "runs_per_hour": int(evaluations * 3600 / max(wall, 1e-3)),
              "seeds_per_hour": int(evaluations * 3600 / max(wall, 1e-3)),
              "simulated_time": other.get("sim_time",
                                          other.get("sim_steps", 0)),
              "simulated_time_unit": getattr(sim, "time_unit",
                                             "simulator steps"),
              "faults_injected": faults,
              "distinct_states": len(total.states),
              "distinct_states_measure": sim.measure,
              "counters": other,
              "components_real": sim.components_real,
              "components_stub": sim.components_stub,
              "harness_errors": len(errors)},
          "assumptions": sim.assumptions,
          "wall_s": round(wall, 2),
          "violations": nviol}
    with open(os.path.join(edir, f"{sim.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")


def replay(sim, path, out=None):
    """Re-execute a replay file; exit 1 with the VIOLATION line if it recurs"""
    out = out or sys.stdout
    with open(path) as fh:
        rec = json.load(fh)
    sim.work = make_work(sim.prop)
    try:
        early = sim.prepare()
        viols = list(early or [])
        if not early and not rec["scenario"].get("prepare"):
            viols = sim.execute(rec["scenario"]).violations
    finally:
        shutil.rmtree(sim.work, ignore_errors=True)
    for sig, text in viols:
        print(f"violation [{sig}]\n  " + text.replace("\n", "\n  ")[:4000],
              file=out)
    if viols:
        print(f"VIOLATION property={sim.prop} replay={path}", file=out)
        return 1
    print(f"replay of {path}: no violation", file=out)
    return 0

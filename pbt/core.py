"""Campaign driver: facets, violations, workers, evidence, replay.

A check is a list of facets.  A facet has a strategy producing plain JSON cases and a function that runs one
case against /repo's code and an oracle.  Facets are split into shards; each shard is one process.

Outcomes: exit 0 (held on everything explored), exit 1 with a VIOLATION line, exit 2 (the harness could not
tell: harness error, budget exhausted, worker lost).
"""
import contextlib
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, known=None):
        super().__init__(msg)
        #: signature under which a listed known finding would cover this violation
        self.known = known


class NonTermination(BaseException):
    """A single call ran more loop iterations / rhs evaluations than any correct call could need."""


class CaseAlarm(BaseException):
    """Wall-clock alarm inside a case: decided by a deterministic re-run, see worker.run_guarded."""


def case_hash(facet, case):
    blob = facet + json.dumps(case, sort_keys=True)
    return int.from_bytes(hashlib.blake2b(blob.encode(), digest_size=8).digest(), "big")


class Facet:
    def __init__(self, name, strategy, run, quick, thorough=None, mode="py", shards=4, rule="", jit_thorough=False):
        self.name = name
        self.strategy = strategy  # () -> hypothesis strategy of JSON cases
        self.run = run  # case -> (nontrivial: bool, labels: list[str]); raises Violation
        self.quick = quick  # total number of examples over all shards
        self.thorough = thorough if thorough is not None else quick * 20
        self.mode = mode
        self.shards = shards
        self.rule = rule


@contextlib.contextmanager
def under_test(what, allow=()):
    """Exceptions raised by the code under test on valid input are violations, those of the harness are not."""
    try:
        yield
    except Violation:
        raise
    except allow:
        raise
    except NonTermination as e:
        raise Violation(f"{what}: does not terminate ({e})")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
        raise Violation(f"{what}: unexpected {type(e).__name__}: {str(e)[:300]} [{where}]")


def check(cond, msg, known=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, known)


def load_known(prop):
    """Lines of known_findings.txt:  known: property=C09 sig=NAME case=FILE what fails"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                rest = line.strip().split(" ", 2)[2]
                sig, case, what = rest.split(" ", 2)
                out.append(dict(sig=sig.split("=", 1)[1], case=case.split("=", 1)[1], what=what))
    return out


def env_for(mode):
    env = dict(os.environ)
    for k in ("NBKODE_NONUMBA", "NUMBA_DISABLE_JIT", "PYTHONPATH"):
        env.pop(k, None)
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1", LC_ALL="C.UTF-8",
               NUMBA_OPT="0", MPLBACKEND="Agg", VERIF_REPO=REPO)
    env.pop("VERIF_COMPILED", None)
    if mode == "py":
        env["NBKODE_NONUMBA"] = "1"
    else:
        env["VERIF_COMPILED"] = "1"
    return env


# ---------------------------------------------------------------------------------------------------------
# main process


def run_job(args, mode, timeout):
    """Run one worker to completion. Returns (returncode or None on timeout, output, result dict or None)."""
    out = tempfile.NamedTemporaryFile("r", suffix=".json", delete=False)
    log = tempfile.NamedTemporaryFile("w+", suffix=".log", delete=False)
    cmd = [PYTHON, os.path.join(HERE, "worker.py")] + [str(a) for a in args] + ["--out", out.name]
    return dict(cmd=cmd, mode=mode, out=out.name, log=log.name, timeout=timeout, proc=None, start=None)


def pool(jobs, nproc=NPROC):
    pending, running, done = list(jobs), [], []
    try:
        while pending or running:
            while pending and len(running) < nproc:
                j = pending.pop(0)
                j["start"] = time.time()
                j["proc"] = subprocess.Popen(j["cmd"], env=env_for(j["mode"]), stdout=open(j["log"], "w"),
                                             stderr=subprocess.STDOUT, cwd=VERIF, start_new_session=True)
                running.append(j)
            time.sleep(0.05)
            for j in list(running):
                rc = j["proc"].poll()
                if rc is None and time.time() - j["start"] > j["timeout"]:
                    _kill(j["proc"])
                    rc = None
                elif rc is None:
                    continue
                running.remove(j)
                j["rc"] = rc
                finish(j)
                done.append(j)
    finally:
        for j in running:
            _kill(j["proc"])
    return done


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def finish(j):
    try:
        with open(j["out"]) as fh:
            j["result"] = json.load(fh)
    except (OSError, ValueError):
        j["result"] = None
    with open(j["log"], errors="replace") as fh:
        j["logtext"] = fh.read()
    j["last_case"] = None
    try:
        with open(j["out"] + ".case") as fh:
            j["last_case"] = json.load(fh)
        os.unlink(j["out"] + ".case")
    except (OSError, ValueError):
        pass
    os.unlink(j["out"])
    os.unlink(j["log"])


def main(prop, title, facets, argv):
    """Entry point of every check."""
    tier = os.environ.get("VERIF_TIER", "quick")
    if "thorough" in argv:
        tier = "thorough"
    elif "quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        rep = json.load(open(path))
        f = [f for f in facets if f.name == rep["facet"]][0]
        j = run_job([prop, f.name, "--case", os.path.abspath(path)], f.mode, 600)
        pool([j])
        print(j["logtext"][-4000:])
        res = j["result"]
        if res and res.get("violation"):
            print("replay: violation:", res["violation"]["msg"])
            return 1
        if res and not res.get("error"):
            print("replay: the property holds on this case")
            return 0
        if j["rc"] is not None and j["rc"] < 0 and -j["rc"] in CRASH_SIGNALS:
            print("replay: the process crashed with signal", -j["rc"])
            return 1
        print("replay: no verdict", j["rc"], res)
        return 2
    only = [a[8:] for a in argv if a.startswith("--facet=")]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    t_start = time.time()
    known = load_known(prop)
    jobs, jobinfo = [], []
    job_timeout = 780 if tier == "quick" else 6 * 3600
    # replay tier: cases saved from repaired defects and known findings
    regdir = os.path.join(VERIF, "regressions", prop)
    regs = sorted(os.listdir(regdir)) if os.path.isdir(regdir) else []
    facet_by = {f.name: f for f in facets}
    for mode in ("py", "jit"):
        files = [os.path.join(regdir, r) for r in regs if r.endswith(".json")]
        files = [p for p in files if facet_by[json.load(open(p))["facet"]].mode == mode]
        if files and not only:
            j = run_job([prop, "@regressions"] + ["--case=" + p for p in files], mode, job_timeout)
            j["info"] = ("@regressions", 0)
            jobs.append(j)
    for f in facets:
        if only and f.name not in only:
            continue
        n = int((f.quick if tier == "quick" else f.thorough) * scale)
        if n <= 0:
            continue
        shards = min(f.shards, n) if tier == "quick" else min(max(f.shards, NPROC), n)
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            j = run_job([prop, f.name, "--n", k, "--shard", s, "--nshards", shards, "--seed", seed, "--tier", tier],
                        f.mode, job_timeout)
            j["info"] = (f.name, s)
            jobs.append(j)
    # longest first: jit shards
    jobs.sort(key=lambda j: 0 if j["mode"] == "jit" else 1)
    done = pool(jobs)

    violations, errors = [], []
    evals = 0
    distinct = set()
    nontriv = set()
    labels, per_facet, samples = {}, {}, []
    for j in done:
        name, shard = j["info"]
        res = j["result"]
        if res is None or res.get("error"):
            sig = -j["rc"] if j["rc"] is not None and j["rc"] < 0 else 0
            if sig in CRASH_SIGNALS and j["last_case"]:
                rep = save_replay(prop, j["last_case"], f"process crashed with signal {sig}")
                k = run_job([prop, j["last_case"]["facet"], "--case", rep], j["mode"], 600)
                pool([k])
                if k["rc"] is not None and k["rc"] < 0 and -k["rc"] in CRASH_SIGNALS:
                    violations.append((rep, f"process crashed with signal {-k['rc']} (reproduced in a fresh process)"))
                    continue
            why = "timeout" if j["rc"] is None else f"rc={j['rc']}"
            errors.append(f"{name}/{shard}: {why}\n" + ((res or {}).get("error") or j["logtext"])[-3000:]
                          + ("\nlast case: " + json.dumps(j["last_case"])[:2000] if j["last_case"] else ""))
            continue
        evals += res["evaluations"]
        pf = per_facet.setdefault(name, dict(evaluations=0, nontrivial=0, known=0))
        pf["evaluations"] += res["evaluations"]
        pf["nontrivial"] += len(res["nontrivial"])
        pf["known"] += res.get("known", 0)
        distinct.update(res["distinct"])
        nontriv.update(res["nontrivial"])
        for k, v in res["labels"].items():
            labels[name + ":" + k] = labels.get(name + ":" + k, 0) + v
        if shard == 0:
            samples += res["samples"]
        if res.get("violation"):
            v = res["violation"]
            rep = save_replay(prop, dict(facet=v["facet"], case=v["case"]), v["msg"])
            violations.append((rep, v["msg"]))
    # known findings: each listed one is demonstrated again from its saved case
    known_lines = []
    for k in known:
        path = os.path.join(VERIF, k["case"])
        rep = json.load(open(path))
        f = facet_by[rep["facet"]]
        j = run_job([prop, f.name, "--case", path], f.mode, job_timeout)
        pool([j])
        res = j["result"]
        if res is None or res.get("error"):
            errors.append(f"known finding {k['sig']}: no verdict\n{(res or {}).get('error', '')}\n{j['logtext'][-2000:]}")
        elif res.get("violation"):
            violations.append((path, res["violation"]["msg"]))
        elif res.get("known"):
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            print(f"note: known finding {k['sig']} of {prop} no longer fails on its saved case")
    wall = time.time() - t_start
    rule = "; ".join(f"{f.name}: {f.rule}" for f in facets if f.rule)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=rule, samples=samples[:12],
                            distinct=len(distinct), per_facet=per_facet,
                            labels={k: labels[k] for k in sorted(labels)}),
              assumptions=["Oracles and reference implementations in /verif/pbt are correct",
                           "py-mode facets run nbkode with NBKODE_NONUMBA=1; C15 compares that mode with compiled mode"],
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop} [{tier}, seed {seed}] {title}: {evals} cases, {len(nontriv)} distinct non-trivial, {wall:.1f} s")
    for name, pf in per_facet.items():
        print(f"  {name}: {pf}")
    for line in known_lines:
        print(line)
    for e in errors:
        print("HARNESS ERROR", e)
    for rep, msg in dict(violations).items():
        print(f"VIOLATION property={prop} replay={rep}")
        print("  " + msg.replace("\n", "\n  "))
    sys.stdout.flush()
    if violations:
        return 1
    return 2 if errors else 0


CRASH_SIGNALS = (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL)


def save_replay(prop, rep, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    rep = dict(property=prop, facet=rep["facet"], case=rep["case"], msg=msg)
    path = os.path.join(d, f"{prop}-{rep['facet']}-{case_hash(rep['facet'], rep['case']):016x}.json")
    with open(path, "w") as fh:
        json.dump(rep, fh, indent=1)
    return path

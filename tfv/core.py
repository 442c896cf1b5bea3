"""Driver shared by every check: generated-input search with Hypothesis, sharded over processes,
greedy minimisation of a failing case, replay files, evidence, known findings, exit codes.

exit 0  property held on everything explored
exit 1  VIOLATION line printed
exit 3  error of the harness itself (never reported as a violation)
"""
import contextlib
import ctypes
import hashlib
import json
import multiprocessing as mp
import os
import queue
import resource
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

from . import target
from .target import Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_BUDGET = 60.0          # seconds; running out only makes the replay less minimal
GRACE = 45.0                  # seconds more the workers get to end after a violation
MEMORY = 5 << 30              # bytes of address space of one worker; normal cases stay below 1 GB


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class Check:
    """one property; subclasses define run / strategy / explicit"""
    id = None
    rule = ""
    assumptions = ()
    level = "exploration"
    patience = 200      # seconds of processor time one case of the quick tier may take; many times what any needs

    def explicit(self, tier):
        """cases every run evaluates (corner cases, small exhaustive sweeps)"""
        return []

    def strategy(self, tier):
        return None

    def examples(self, tier):
        return 100 if tier == "quick" else 1000

    def run(self, case, ctx):
        raise NotImplementedError

    def smaller(self, case):
        """candidate simplifications of a failing case; default: reduce integers, drop list items"""
        yield from _smaller(case)

    def valid(self, case):
        return True


def _smaller(x):
    if isinstance(x, bool) or x is None:
        if x is True:
            yield False
    elif isinstance(x, int):
        for c in (0, 1, x // 2, x - 1):
            if 0 <= c < x:
                yield c
    elif isinstance(x, list):
        for i in range(len(x)):
            yield x[:i] + x[i + 1:]
        for i in range(len(x)):
            for c in _smaller(x[i]):
                yield x[:i] + [c] + x[i + 1:]
    elif isinstance(x, dict):
        for k in sorted(x):
            for c in _smaller(x[k]):
                yield {**x, k: c}


class Ctx:
    """what a run records about the cases it evaluates"""
    def __init__(self, limit=1e6):
        self.limit, self.slowest = limit, 0
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.known = {}
        self.samples = []
        self._nt = False

    def start(self, case):
        self._nt = False
        self.evaluations += 1

    def interesting(self, flag=True):
        """call when the current case exercises the property in a non-trivial way (check.rule)"""
        self._nt = self._nt or bool(flag)

    def count(self, label, n=1):
        self.labels[label] += n

    def finding(self, fid, detail=""):
        self.labels["known-finding " + fid] += 1
        self.known.setdefault(fid, detail)

    def done(self, case):
        if self._nt:
            key = canon(case)
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                if len(self.samples) < 4:
                    self.samples.append(json.loads(key))


class _Abort(BaseException):
    pass


class Hang(BaseException):
    """a case used up its processor time: no answer instead of text or an error"""


@contextlib.contextmanager
def limited(seconds):
    def ring(*_):
        raise Hang
    old = signal.signal(signal.SIGPROF, ring)
    signal.setitimer(signal.ITIMER_PROF, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


class Failure:
    def __init__(self):
        self.best = None      # (size, case, message)
        self.first_at = None

    def hang(self, case):
        """not minimised: every attempt would take as long"""
        if self.best is not None:
            return
        self.record(case, "no answer: the case did not finish within many times the processor time it needs")
        self.first_at = -1e9

    def record(self, case, msg):
        if self.first_at is None:
            self.first_at = time.monotonic()
        size = (len(canon(case)), canon(case))
        if self.best is None or size < self.best[0]:
            self.best = (size, json.loads(canon(case)), msg)

    @property
    def expired(self):
        return self.first_at is not None and time.monotonic() - self.first_at > SHRINK_BUDGET


def evaluate(check, case, ctx):
    """run one case; Violation propagates, anything else is a harness error"""
    ctx.start(case)
    t = time.process_time()
    with limited(ctx.limit):
        run_case(check, case, ctx)
    ctx.slowest = max(ctx.slowest, time.process_time() - t)
    ctx.done(case)


def run_case(check, case, ctx):
    """a text the oracle cannot read as the documented form counts as a violation"""
    try:
        check.run(json.loads(canon(case)), ctx)
    except Violation:
        raise
    except subprocess.TimeoutExpired:
        raise Hang from None
    except MemoryError as e:
        raise Violation(f"no answer: the case needs more than {MEMORY >> 30} GB of memory, normal ones stay below 1 GB") from e
    except (ValueError, LookupError, TypeError, AttributeError, ArithmeticError, SyntaxError, NameError, AssertionError,
            RecursionError) as e:
        raise Violation(f"generated output cannot be interpreted: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}") from e


def shrink(check, fail):
    """greedy minimisation of the best failing case so far"""
    improved = True
    while improved and not fail.expired:
        improved = False
        case = fail.best[1]
        for cand in check.smaller(case):
            if fail.expired:
                return
            try:
                if not check.valid(cand):
                    continue
            except Exception:  # noqa: BLE001  candidate of the wrong shape
                continue
            try:
                with limited(max(10, SHRINK_BUDGET)):
                    check.run(json.loads(canon(cand)), Ctx())
            except Hang:
                continue
            except Violation as e:
                fail.best = ((len(canon(cand)), canon(cand)), json.loads(canon(cand)), str(e))
                improved = True
                break
            except Exception:  # noqa: BLE001  a candidate the check cannot evaluate
                continue


def _worker(check, tier, seed, shard, nof, tasks, stop, out):
    ctx, fail, err = Ctx(check.patience if tier == "quick" else 30000), Failure(), None
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(1))     # so that the scratch tree is removed
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    with contextlib.suppress(Exception):        # end with the parent (PR_SET_PDEATHSIG)
        ctypes.CDLL(None).prctl(1, signal.SIGTERM)
    try:
        with contextlib.suppress(Violation):    # the first case reports it
            target.modules()
        while not stop.is_set():
            case = tasks.get()
            if case is None:
                break
            try:
                evaluate(check, case, ctx)
            except Hang:
                fail.hang(case)
                stop.set()
                break
            except Violation as e:
                fail.record(case, str(e))
                stop.set()
                break
        strat = check.strategy(tier)
        total = check.examples(tier)
        mine = total // nof + (1 if shard < total % nof else 0)
        if strat is not None and mine and fail.best is None and not stop.is_set():
            def body(case):
                if stop.is_set() and fail.best is None:
                    raise _Abort
                if fail.expired:
                    raise _Abort
                try:
                    evaluate(check, case, ctx)
                except Hang:
                    fail.hang(case)
                    stop.set()
                    raise _Abort from None
                except Violation as e:
                    fail.record(case, str(e))
                    ctx.limit = SHRINK_BUDGET
                    stop.set()
                    raise
            test = settings(max_examples=mine, deadline=None, database=None, derandomize=False,
                            print_blob=False, report_multiple_bugs=False,
                            phases=(Phase.explicit, Phase.generate, Phase.target, Phase.shrink),
                            suppress_health_check=list(HealthCheck))(given(strat)(body))
            test = hypothesis.seed(seed * 64 + shard)(test)
            try:
                with target.quiet():
                    test()
            except (Violation, _Abort):
                pass
            except BaseException:
                if fail.best is None:
                    raise
        if fail.best is not None:
            out.put((None, None, fail.best, None))      # as found; the minimal one follows
            shrink(check, fail)
    except BaseException:  # noqa: BLE001
        err = traceback.format_exc()
    finally:
        try:
            target.cleanup()
        except Exception:  # noqa: BLE001
            pass
    out.put((shard, ctx, fail.best, err))


def load_known():
    """{(property, id): text}; 'fixed:' lines suppress nothing"""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as fp:
        for line in fp:
            line = line.strip()
            if line.startswith("known:"):
                _, prop, fid, text = line.split(None, 3)
                out[(prop.split("=")[1], fid.split("=")[1])] = text
    return out


def main(check, tier, seed, nof=None):
    t0 = time.time()
    nof = nof or int(os.environ.get("TFV_JOBS", "0")) or min(8, os.cpu_count() or 1)
    known = load_known()
    allowed = {fid for (p, fid) in known if p == check.id}
    check.allowed = allowed
    ctxm = mp.get_context("fork")
    tasks, out, stop = ctxm.Queue(), ctxm.Queue(), ctxm.Event()
    explicit = list(check.explicit(tier))
    for c in explicit:
        tasks.put(c)
    for _ in range(nof):
        tasks.put(None)
    procs = [ctxm.Process(target=_worker, args=(check, tier, seed, i, nof, tasks, stop, out), daemon=False)
             for i in range(nof)]
    for p in procs:
        p.start()
    results, early, deadline = [], [], None

    def receive(timeout):
        r = out.get(timeout=timeout)
        (early if r[0] is None else results).append(r)
    while len(results) < nof:
        if deadline is None and (early or stop.is_set()):
            deadline = time.monotonic() + SHRINK_BUDGET + GRACE
        if deadline is not None and early and time.monotonic() > deadline:
            break                                        # others are deep in long cases: the answer is known
        try:
            receive(2)
        except queue.Empty:
            if all(not p.is_alive() for p in procs):
                try:
                    while True:
                        receive(1)
                except queue.Empty:
                    pass
                break
    for p in procs:
        if early:
            p.join(timeout=0.5)
            if p.is_alive():
                p.terminate()
        p.join(timeout=5)
    tasks.cancel_join_thread()

    errors = [r[3] for r in results if r[3]]
    if len(results) < nof:
        errors.append(f"{nof - len(results)} worker process(es) died")
    fails = sorted((r[2] for r in results if r[2]), key=lambda b: b[0]) or sorted((r[2] for r in early), key=lambda b: b[0])

    nontrivial, labels, samples, evaluations, seen = set(), Counter(), [], 0, {}
    for _, ctx, _, _ in sorted(results, key=lambda r: r[0]):
        nontrivial |= ctx.nontrivial
        labels.update(ctx.labels)
        evaluations += ctx.evaluations
        samples += ctx.samples[:2]
        for fid, d in ctx.known.items():
            seen.setdefault(fid, d)
    unlisted = {f: d for f, d in seen.items() if f not in allowed}
    if unlisted and not fails:
        # check code only calls finding() for listed ones; be safe
        fails = [((0, ""), {"finding": sorted(unlisted)}, f"unlisted finding {unlisted}")]
    write_evidence(check, tier, seed, evaluations, nontrivial, labels, samples[:12], len(explicit),
                   time.time() - t0, len(fails))
    if fails:
        _, case, msg = fails[0]
        path = write_replay(check, case, msg)
        print(msg[:2000])
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print("harness error", file=sys.stderr)
        return 3
    if os.environ.get("TFV_VERBOSE"):
        print(f"dearest case {max(r[1].slowest for r in results):.1f} s of processor time")
    for fid in sorted(seen):
        print(f"KNOWN-FINDING: property={check.id} {known[(check.id, fid)]}")
    print(f"{check.id}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial), "
          f"{time.time() - t0:.1f} s")
    return 0


def write_evidence(check, tier, seed, evaluations, nontrivial, labels, samples, nexp, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    doc = {
        "property": check.id, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(nontrivial), "rule": check.rule,
            "samples": samples, "explicit_cases": nexp, "labels": dict(sorted(labels.items())),
        },
        "assumptions": list(check.assumptions), "wall_s": round(wall, 2), "violations": violations,
    }
    path = os.path.join(VERIF, "evidence", f"{check.id}.json")
    with open(path + ".tmp", "w") as fp:
        json.dump(doc, fp, indent=1)
    os.replace(path + ".tmp", path)


def write_replay(check, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(canon(case).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{check.id}-{h}.json")
    with open(path, "w") as fp:
        json.dump({"property": check.id, "case": case, "message": msg,
                   "how": f"./check {check.id} --replay <this file>"}, fp, indent=1)
    return path


def replay(check, path):
    with open(path) as fp:
        doc = json.load(fp)
    known = load_known()
    check.allowed = {fid for (p, fid) in known if p == check.id}
    try:
        target.modules()
        run_case(check, doc["case"], Ctx())
    except Violation as e:
        print(str(e)[:4000])
        print(f"VIOLATION property={check.id} replay={os.path.abspath(path)}")
        return 1
    finally:
        target.cleanup()
    print(f"{check.id}: replayed case holds")
    return 0

"""Running cases on all cores, verdicts, evidence, replay files, known findings"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Timeout(BaseException):
    pass


class Inconclusive(Exception):
    pass


def _alarm(*_):
    raise Timeout


@contextlib.contextmanager
def watchdog(seconds):
    """A generous wall-clock limit around a call into the code under test"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()


class Violation(Exception):
    """what: short mechanism text; detail: dict for the replay file; known: key
    under which the violation may be listed as a known finding"""

    def __init__(self, what, known=None, **detail):
        super().__init__(what)
        self.what, self.known, self.detail = what, known, detail


class Case:
    """What one case reports back"""

    def __init__(self):
        self.counts = Counter()
        self.sig = None  # identity of the case, if it is non-trivial
        self.sigs = set()
        self.sample = None
        self.notes = []

    def hit(self, name, n=1):
        self.counts[name] += n


def import_tealish():
    """The package under test, always from REPO's working tree"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import tealish

    f = os.path.realpath(tealish.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"tealish imported from {f}")
    return tealish


def known_findings(prop):
    """key -> text of the entries of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                d = line[len("finding: "):]
                head, _, text = d.partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split())
                if kv.get("property") == prop:
                    out[kv["key"]] = text
    return out


_CHECK = None


def _one(index_seed):
    index, seed = index_seed
    c = Case()
    rng = random.Random(seed)
    t = time.monotonic()
    try:
        _CHECK.case(rng, index, c)
        v = None
    except Violation as e:
        v = {"what": e.what, "known": e.known, "detail": e.detail}
    except Timeout:
        c.hit("watchdog")
        v = None
    except Inconclusive as e:
        c.hit("inconclusive")
        v = None
    except Exception as e:
        # raised by the code under test where nothing should be: its fault, not the check's
        home = os.path.realpath(REPO) + os.sep
        inside = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(home)]
        if not inside:
            return index, seed, c.counts, None, set(), None, None, traceback.format_exc(), 0
        v = {"what": f"unexpected {type(e).__name__} raised in {os.path.basename(inside[-1].filename)}: {e}"[:500], "known": None, "detail": {"traceback": traceback.format_exc()}}
    dt = time.monotonic() - t
    return index, seed, c.counts, c.sig, c.sigs, c.sample, v, None, dt


class Check:
    """A property's check. Subclasses set: prop, rule, quick, thorough (numbers
    of cases), need (counter -> minimum for a conclusive run), and define
    case(rng, index, case)."""

    prop = None
    level = "exploration"
    rule = ""
    quick = 400
    thorough = 8000
    need = {}
    assumptions = []
    cap_quick = 400.0
    cap_thorough = 820.0
    jobs = 8

    def setup(self, tier):
        pass

    def finish(self, total, tier):
        """Cross-case verdicts, after all cases"""

    def seeds(self, tier, seed):
        n = self.quick if tier == "quick" else self.thorough
        for i in range(n):
            yield i, f"{self.prop}/{seed}/{tier}/{i}"

    def run(self, tier, seed):
        global _CHECK
        t0 = time.monotonic()
        _CHECK = self
        import_tealish()
        self.setup(tier)
        cap = self.cap_quick if tier == "quick" else self.cap_thorough
        total = Counter()
        sigs, samples, viols, errors = set(), [], [], []
        known = known_findings(self.prop)
        seen_known = Counter()
        n = 0
        truncated = False
        jobs = list(self.seeds(tier, seed))
        slow = 0
        ctx = mp.get_context("fork")
        with ctx.Pool(self.jobs, maxtasksperchild=400) as pool:
            for index, s, counts, sig, more, sample, v, err, dt in pool.imap_unordered(_one, jobs, chunksize=max(1, min(8, len(jobs) // 64))):
                n += 1
                slow = max(slow, dt)
                total.update(counts)
                if sig is not None:
                    sigs.add(sig)
                sigs |= more
                if sample is not None and len(samples) < 3:
                    samples.append(sample)
                if err:
                    errors.append((s, err))
                    if len(errors) > 50:
                        break
                if v:
                    if v["known"] and v["known"] in known:
                        seen_known[v["known"]] += 1
                    else:
                        viols.append((index, s, v))
                        if len(viols) >= 5:
                            break
                if time.monotonic() - t0 > cap:
                    truncated = True
                    break
            pool.terminate()
        try:
            self.finish(total, tier)
        except Violation as e:
            viols.append((-1, "finish", {"what": e.what, "known": e.known, "detail": e.detail}))
        wall = time.monotonic() - t0
        for k in sorted(known):
            if seen_known[k] or getattr(self, "always_report", False):
                print(f"KNOWN-FINDING: property={self.prop} {known[k]}")
        coverage = {
            "evaluations": n,
            "distinct_nontrivial": len(sigs),
            "rule": self.rule,
            "samples": samples,
            "observed": dict(sorted(total.items())),
            "known_findings_seen": dict(seen_known),
            "truncated_by_time": truncated,
            "slowest_case_s": round(slow, 3),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {
            "property": self.prop, "tier": tier, "seed": seed, "level": self.level,
            "coverage": coverage, "wall_s": round(wall, 2), "violations": len(viols),
            "assumptions": list(self.assumptions),
        }
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print(f"{self.prop} {tier}: {n} cases, {len(sigs)} distinct non-trivial, {wall:.1f}s")
        print("observed: " + ", ".join(f"{k}={v}" for k, v in sorted(total.items())))
        for index, s, v in viols[:3]:
            path = self.write_replay(index, s, v, tier, seed)
            print(f"VIOLATION property={self.prop} replay={path}")
            print("  " + v["what"][:600])
        if viols:
            return 1
        if errors:
            print("ERROR in the check itself:")
            for s, e in errors[:2]:
                print(s)
                print(e)
            return 2
        short = {k: (total[k], m) for k, m in self.need.items() if total[k] < (m if tier == "quick" else m)}
        if short or not sigs:
            print(f"INCONCLUSIVE: too little was observed: {short}")
            return 3
        return 0

    def write_replay(self, index, s, v, tier, seed):
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{digest(s)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": tier, "seed": seed, "case": index,
                       "case_seed": s, **v}, f, indent=1, default=repr)
        return path

    def replay(self, path):
        global _CHECK
        _CHECK = self
        import_tealish()
        r = json.load(open(path))
        self.setup(r["tier"])
        out = _one((r["case"], r["case_seed"]))
        v = out[6]
        if v:
            print(v["what"])
            for k, x in v["detail"].items():
                print(f"--- {k}:")
                print(x if isinstance(x, str) else repr(x))
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(out[7] or "no violation")
        return 2 if out[7] else 0

"""Shard runner: sweeps, regression cases and Hypothesis searches for one property.

A *case* is JSON-able plain data (bytes allowed).  ``check(name, case, rec)`` decides one case:
it raises Violation when the property is broken; any other exception is a harness error.
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import resource
import signal
import sys
import time
import traceback

from . import model as m

CASE_CPU_SECONDS = 90
CASE_SECONDS = 240  # of a case that waits instead of computing
GUIDED_SECONDS = {"quick": 0, "thorough": float(os.environ.get("VERIF_GUIDED") or 240)}


class Violation(Exception):
    """The property does not hold for the current case."""


class Search:
    def __init__(self, name, strategy, quick, thorough):
        self.name, self.strategy, self.n = name, strategy, {"quick": quick, "thorough": thorough}


class Sweep:
    """A deterministic enumeration; *make(tier)* yields cases."""

    def __init__(self, name, make):
        self.name, self.make = name, make


@contextlib.contextmanager
def lib(what, allow=()):
    """Library calls: an exception that is not allowed here is a violation."""
    try:
        yield
    except Violation:
        raise
    except m.Mismatch as e:
        raise Violation(f"{what}: {e}") from None
    except allow:
        raise
    except Exception as e:  # noqa: BLE001
        if isinstance(e, HarnessError):
            raise
        raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:300]}") from e


class HarnessError(Exception):
    pass


class OutOfTime(KeyboardInterrupt):
    """Ends a search at the time limit (Hypothesis passes KeyboardInterrupt through)."""


def fail(msg):
    raise Violation(msg)


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


# ------------------------------------------------------------------ encoding of cases
def dump(x):
    if isinstance(x, (bytes, bytearray)):
        return {"$b": bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [dump(i) for i in x]
    if isinstance(x, dict):
        return {k: dump(v) for k, v in x.items()}
    if isinstance(x, (int, str, float)) or x is None:
        return x
    raise HarnessError(f"case holds {type(x)}")


def load(x):
    if isinstance(x, list):
        return [load(i) for i in x]
    if isinstance(x, dict):
        if set(x) == {"$b"}:
            return bytes.fromhex(x["$b"])
        return {k: load(v) for k, v in x.items()}
    return x


def mix(*key):
    """A number that depends on *key* without any pattern: sweeps that vary several things by counters must not tie them."""
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=4).digest(), "little")


def digest(name, case):
    return hashlib.blake2b((name + repr(case)).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def short(case, n=500):
    def cut(x):
        if isinstance(x, (bytes, bytearray)):
            return x.hex() if len(x) <= 40 else f"{bytes(x[:24]).hex()}..({len(x)} bytes)"
        if isinstance(x, str):
            return x if len(x) <= 60 else f"{x[:40]}..({len(x)} chars)"
        if isinstance(x, (list, tuple)):
            return [cut(i) for i in x]
        if isinstance(x, dict):
            return {k: cut(v) for k, v in x.items()}
        return x

    s = json.dumps(cut(case), ensure_ascii=True)
    return s if len(s) <= n else s[:n] + " ..."


class Rec:
    """What one case covered."""

    __slots__ = ("labels", "nontrivial", "count", "extra")

    def __init__(self):
        self.labels, self.nontrivial, self.count, self.extra = [], False, 1, 0

    def label(self, *names):
        self.labels.extend(names)

    def hit(self, *names):
        """Labels that make the case non-trivial."""
        self.labels.extend(names)
        self.nontrivial = True


def pid_unguided(mod):
    """Some checks count lines, trace or use processes of their own: coverage hooks would disturb them."""
    return getattr(mod, "UNGUIDED", False)


class Shard:
    def __init__(self, pid, tier, seed, index, n, out, budget):
        self.pid, self.tier, self.seed, self.index, self.n, self.out = pid, tier, seed, index, n, out
        self.mod = importlib.import_module(f"harness.props.{pid.lower()}")
        self.evals = 0
        self.digests = set()
        self.labels = collections.Counter()
        self.by_part = collections.Counter()
        self.samples = []
        self.violation = None
        self.current = None
        self.skipped = 0
        self.deadline = time.monotonic() + budget
        self.next_sample = 1

    # one case --------------------------------------------------------------
    def run_case(self, name, case):
        self.current = (name, case)
        rec = Rec()
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            self.mod.check(name, case, rec)
        except m.Mismatch as e:
            raise Violation(str(e)) from e
        except RecursionError as e:
            raise Violation(f"RecursionError: {e}") from e
        except (Violation, HarnessError, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            # Every case is decided without one on a tree that behaves, so this tree does not; trouble
            # of the sandbox (no space, no descriptors left, ...) stays an error of the harness.
            if isinstance(e, OSError) and not isinstance(e, (FileNotFoundError, io.UnsupportedOperation)):
                raise
            raise Violation("the case cannot be decided: " + "".join(traceback.format_exception(e))[-1500:]) from e
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.evals += rec.count
        self.by_part[name] += rec.count
        for lb in set(rec.labels):
            self.labels[lb] += 1
        if rec.nontrivial:
            n0 = len(self.digests)
            self.digests.add(digest(name, case))
            if len(self.digests) > n0 and len(self.digests) >= self.next_sample and len(self.samples) < 4:
                self.next_sample = max(2, self.next_sample * 12)
                self.samples.append({"part": name, "labels": sorted(set(rec.labels))[:8],
                                     "case": short(case)})

    def record(self, name, case, err, note=""):
        self.violation = {"property": self.pid, "part": name, "case": dump(case), "error": str(err),
                          "note": note, "seed": self.seed, "shard": self.index, "shards": self.n,
                          "tier": self.tier}

    # parts -----------------------------------------------------------------
    def regress(self):
        d = os.path.join(os.path.dirname(__file__), "..", "regress", self.pid)
        if not os.path.isdir(d):
            return
        for i, fn in enumerate(sorted(os.listdir(d))):
            if i % self.n != self.index or not fn.endswith(".json"):
                continue
            with open(os.path.join(d, fn)) as f:
                r = json.load(f)
            case = load(r["case"])
            try:
                self.run_case(r["part"], case)
            except Violation as e:
                self.record(r["part"], case, e, f"regression case {fn}")
                return

    def sweep(self, sw):
        # slow cases of one part must not use up the time of the others
        limit = time.monotonic() + 0.6 * (self.deadline - time.monotonic())
        for i, case in enumerate(sw.make(self.tier)):
            if i % self.n != self.index:
                continue
            if time.monotonic() > limit:
                self.skipped += 1
                continue
            try:
                self.run_case(sw.name, case)
            except Violation as e:
                self.record(sw.name, case, e)
                return

    def search(self, s, idx):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        # in the thorough tier, a third of the time that is left belongs to the coverage-guided search
        limit = self.deadline
        if GUIDED_SECONDS[self.tier]:
            limit -= min(GUIDED_SECONDS[self.tier] * 3, (self.deadline - time.monotonic()) / 3)
        total = s.n[self.tier]
        n = total // self.n + (1 if self.index < total % self.n else 0)
        if not n:
            return
        failing, done = [], [0]

        @hypothesis.seed(self.seed * 1000003 + idx * 1009 + self.index)
        @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), print_blob=False,
                  phases=(Phase.generate, Phase.target, Phase.shrink))
        @given(s.strategy)
        def test(case):
            if not failing and time.monotonic() > limit:
                raise OutOfTime
            done[0] += 1
            try:
                self.run_case(s.name, case)
            except Violation as e:
                failing.append((case, e))
                raise

        try:
            test()
        except OutOfTime:
            self.skipped += n - done[0]
        except Violation:
            case, err = failing[-1]
            self.record(s.name, case, err)
        except BaseException as e:
            if failing and "Flaky" in type(e).__name__:
                case, err = failing[0]
                self.record(s.name, case, err, "history dependent: replay re-runs the shard")
            else:
                raise

    def guided(self, s, idx):
        """Coverage-guided search over the same strategy, in a process of its own (thorough tier)."""
        import subprocess

        seconds = min(GUIDED_SECONDS[self.tier], self.deadline - time.monotonic())
        if seconds < 5:
            return
        out = self.out + f".guided{idx}"
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), "guided.py"), self.pid, str(idx),
                            self.tier, str(self.seed * 64 + self.index), str(seconds), out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(out):
            raise HarnessError(f"guided search ended with {p.returncode}: {p.stdout[-2000:]!r}")
        with open(out) as f:
            r = json.load(f)
        if r["error"]:
            raise HarnessError("guided search: " + r["error"])
        self.evals += r["evals"]
        self.by_part[s.name + " (coverage-guided)"] += r["evals"]
        self.labels.update(r["labels"])
        raw = bytes.fromhex(r["digests"])
        self.digests |= {raw[i : i + 8] for i in range(0, len(raw), 8)}
        if r["violation"]:
            self.record(s.name, load(r["violation"]["case"]), r["violation"]["error"], r["violation"]["note"])

    def run(self):
        self.regress()
        for sw in self.mod.sweeps():
            if self.violation:
                return
            self.sweep(sw)
        for idx, s in enumerate(self.mod.searches()):
            if self.violation:
                return
            self.search(s, idx)
        for idx, s in enumerate(self.mod.searches()):
            if self.violation or not GUIDED_SECONDS[self.tier] or pid_unguided(self.mod):
                return
            self.guided(s, idx)

    def result(self, error=None):
        return {"evals": self.evals, "labels": dict(self.labels), "parts": dict(self.by_part),
                "digests": b"".join(sorted(self.digests)).hex(), "samples": self.samples,
                "violation": self.violation, "error": error, "skipped": self.skipped}

    def save(self, error=None):
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(self.result(error), f)
        os.replace(tmp, self.out)


def no_end(sig):
    return (f"did not finish within {CASE_CPU_SECONDS} s of CPU time" if sig == signal.SIGVTALRM
            else f"did not finish within {CASE_SECONDS} s")


def guards(on_hang):
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (9 << 30, 9 << 30))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    signal.signal(signal.SIGVTALRM, on_hang)
    signal.signal(signal.SIGALRM, on_hang)


def shard_main(pid, tier, seed, index, n, out, budget):
    with contextlib.suppress(Exception):
        import hypothesis.internal.conjecture.engine as eng

        eng.MAX_SHRINKING_SECONDS = 40
    sh = Shard(pid, tier, seed, index, n, out, budget)

    def on_hang(_sig, _frm):
        name, case = sh.current
        sh.record(name, case, no_end(_sig))
        sh.save()
        os._exit(0)

    guards(on_hang)
    err = None
    try:
        sh.run()
    except BaseException:  # noqa: BLE001 - reported by the parent as a harness error
        err = traceback.format_exc()
        if sh.current:
            err += "\ncase: " + sh.current[0] + " " + short(sh.current[1], 3000)
    sh.save(err)
    sys.stdout.flush()
    os._exit(0)


def replay_main(rec):
    """Run one recorded case; -> error text or None."""
    pid = rec["property"]
    sh = Shard(pid, rec.get("tier", "quick"), rec.get("seed", 1), rec.get("shard", 0),
               rec.get("shards", 1), os.devnull, 600)
    res = []

    def on_hang(_sig, _frm):
        print("did not finish", flush=True)
        os._exit(1)

    guards(on_hang)
    try:
        sh.run_case(rec["part"], load(rec["case"]))
    except Violation as e:
        return str(e)
    if rec.get("note", "").startswith("history"):
        sh.run()
        if sh.violation:
            return sh.violation["error"]
    return res[0] if res else None

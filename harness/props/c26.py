"""C26: the environment of the process does not matter."""
import atexit
import json
import os
import pathlib
import select
import subprocess
import sys

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, Violation, dump, expect
from ..vb import REPO, scratch

UNGUIDED = True

META = {
    "level": "exploration",
    "technique": "differential property-based testing: generated sessions in differently configured processes against"
                 " the same session in a plain process and the reference model",
    "rule": "One case = a session (objects of any kind written to a path, rejected writes, reading back, reading a"
            " damaged copy, argument errors, time and code conversions) and an environment: locale, text encoding"
            " mode, time zone, hash seed, optimisation level, warnings and byte comparisons as errors, closed"
            " standard streams, empty or unusual environment variables, missing working directory, other threads,"
            " event loop, interrupting signals, garbage collection, few file descriptors or little stack left,"
            " tracing, profiling, forked processes, an unprivileged user."
            "  Bytes written, everything read and the kinds of errors must be what the plain process gives, and"
            " nothing may warn.  Non-trivial: at least one object is written.",
    "assumptions": ["resource warnings about files that the caller left open are not counted",
                    "with little stack left means 160 frames"],
}

ROOT = pathlib.Path(__file__).resolve().parent.parent.parent
BASE = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
# name -> (interpreter options, environment variables, in-process mode, streams to close)
ENVS = {
    "warnings recorded": ([], {}, "warnings", ()),
    "C locale": ([], {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, "", ()),
    "POSIX locale, odd stream encoding": ([], {"LC_ALL": "POSIX", "PYTHONIOENCODING": "utf-16"}, "", ()),
    "UTF-8 mode": (["-X", "utf8=1"], {"LC_ALL": "C.utf8", "LANG": "de_DE"}, "", ()),
    "optimised": (["-O"], {}, "", ()),
    "optimised, no docstrings": (["-OO"], {"PYTHONHASHSEED": "4711"}, "", ()),
    "warnings as errors": (["-W", "error", "-bb"], {}, "", ()),
    "development mode": (["-X", "dev", "-b"], {"PYTHONHASHSEED": "99"}, "", ()),
    "encoding warnings": (["-X", "warn_default_encoding", "-W", "error"], {}, "", ()),
    "time zone east": ([], {"TZ": "XYZ-13:45"}, "", ()),
    "time zone west with daylight saving": ([], {"TZ": "AAA+11BBB,M3.2.0,M11.1.0"}, "", ()),
    "isolated": (["-I"], {"PYTHONHASHSEED": "random"}, "", ()),
    "no standard streams": ([], {}, "", (0, 1, 2)),
    "no standard output": ([], {}, "", (1,)),
    "no variables": ([], None, "", ()),
    "unusual variables": ([], {}, "vars", ()),
    "no working directory": ([], {"HOME": "/nonexistent", "TMPDIR": "/nonexistent"}, "nocwd", ()),
    "changing working directory": ([], {}, "chdir", ()),
    "every variable is 1": ([], {}, "anyvar1", ()),
    "every variable is true": ([], {}, "anyvartrue", ()),
    "other thread": ([], {}, "thread", ()),
    "each step in another thread": ([], {}, "handover", ()),
    "busy threads": ([], {}, "busy", ()),
    "event loop": ([], {}, "loop", ()),
    "signals": ([], {}, "signals", ()),
    "eager garbage collection": ([], {}, "gc", ()),
    "no garbage collection": ([], {}, "nogc", ()),
    "few files": ([], {}, "files", ()),
    "little stack": ([], {}, "deep", ()),
    "odd settings": ([], {}, "odd", ()),
    "all logging on": ([], {}, "logging", ()),
    "forked": ([], {}, "fork", ()),
    "handed on to child processes": ([], {}, "relay", ()),
    "each step in its own context": (["-X", "frozen_modules=off", "-q", "-s", "-B"], {"PYTHONOPTIMIZE": "1"}, "contexts", ()),
    "traced": ([], {}, "trace", ()),
    "profiled": (["-X", "tracemalloc=3"], {}, "profile", ()),
    "unprivileged user": ([], {"HOME": "/nonexistent"}, "user", ()),
    "no signals, other names": ([], {"TZ": ":UTC"}, "masked", ()),
    "standard streams closed later": ([], {}, "closed", ()),
}
NAMES = list(ENVS)
TIMEOUT = 150


def source_words():
    """Words in the code under test, as an AFL dictionary of variable names."""
    import ast

    words = set()
    for f in sorted((pathlib.Path(REPO) / "src" / "vblf").rglob("*.py")):
        try:
            tree = ast.parse(f.read_bytes())
        except (SyntaxError, ValueError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isascii() \
                    and n.value.isidentifier() and 2 < len(n.value) < 60 and not n.value.startswith(("PYTHON", "LC_")):
                words.add(n.value)
    return sorted(words)[:3000]


class Worker:
    def __init__(self, name):
        opts, env, mode, close = ENVS.get(name, ([], {}, "", ()))
        env = dict(BASE if env is None else {**BASE, "HOME": os.environ.get("HOME", "/"), "TZ": "UTC", **env})
        if name == "no variables":
            env = {}
        elif mode == "vars":
            env.update({w: "1" for w in source_words() if w not in ("TZ", "PATH")})
            env.update(DEBUG="1", CI="1", VERBOSE="1", BLF_DEBUG="1", VBLF_DEBUG="1", SOURCE_DATE_EPOCH="86400",
                       ZLIB_LEVEL="1", PYTHONTRACEMALLOC="1", COLUMNS="0", LINES="-1")
        env["VERIF_SCRATCH"] = scratch()
        env["VERIF_REPO"] = REPO
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()

        def prepare():
            for fd in close:
                os.close(fd)

        self.name = name
        self.p = subprocess.Popen([sys.executable, *opts, str(ROOT / "harness" / "envworker.py"), mode, str(r0), str(w1)],
                                  env=env, pass_fds=(r0, w1), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, preexec_fn=prepare if close else None,
                                  cwd=scratch())
        os.close(r0)
        os.close(w1)
        self.w, self.r = w0, r1
        self.buf = b""

    def ask(self, case):
        line = json.dumps(case).encode() + b"\n"
        try:
            while line:
                line = line[os.write(self.w, line):]
        except BrokenPipeError:
            return {"error": "the process ended before it took the case"}
        while b"\n" not in self.buf:
            ready, _, _ = select.select([self.r], [], [], TIMEOUT)
            if not ready:
                self.end()
                return {"error": f"no result within {TIMEOUT} s"}
            got = os.read(self.r, 1 << 20)
            if not got:
                self.end()
                return {"error": f"the process ended ({self.p.returncode})"}
            self.buf += got
        line, _, self.buf = self.buf.partition(b"\n")
        return json.loads(line)

    def end(self):
        workers.pop(self.name, None)
        self.p.kill()
        self.p.wait()


workers = {}


def worker(name):
    if name not in workers:
        workers[name] = Worker(name)
    return workers[name]


@atexit.register
def stop():
    for w in list(workers.values()):
        w.end()


def mine():
    """The environments of this shard."""
    if "--shard" in sys.argv and "--shards" in sys.argv:
        i, n = (int(sys.argv[sys.argv.index(o) + 1]) for o in ("--shard", "--shards"))
        return NAMES[i::n] or NAMES
    return NAMES


@st.composite
def cases(draw):
    objs = draw(gen.objects(0, 6))
    return {"env": draw(st.sampled_from(mine())), "objs": objs, "lv": draw(gen.levels),
            "buf": draw(gen.buffer_for(gen.stream_sizes(objs))), "via": draw(st.integers(0, 2)),
            "bad": draw(st.integers(0, 8)), "cut": draw(st.integers(0, 3000)), "flip": draw(st.integers(0, 3000)),
            "us": draw(st.integers(0, 265000000000000000)), "code": draw(st.integers(0, 300)),
            "t": draw(st.one_of(st.sampled_from([0.0, 1711846800.5, 1710054000.0, 4102444799.9996]),
                                st.floats(-1e9, 4e9)))}


def sweep(tier):
    from . import codec

    every = [o for k in m.KINDS.values() for o in list(codec.variants(k))[:1]]
    lists = [every, [codec.ramp(k) for k in m.KINDS.values()], [session.opaque_of(40 + i) for i in range(12)], [],
             [session.opaque_of(200000, fill=b"LOBJ")]]
    # eight neighbours in the enumeration, one for each shard: a shard needs workers for few environments
    for g in range(0, len(NAMES), 8):
        group = NAMES[g : g + 8]
        for i, (objs, (lv, buf)) in enumerate((o, s) for o in lists for s in ((0, 1 << 17), (6, 700))):
            for e in (group * 8)[:8]:
                yield {"env": e, "objs": objs, "lv": lv, "buf": buf if i < 8 else 30000, "via": i % 3, "bad": i, "cut": 0,
                       "flip": i * 97 + lv, "us": 12876543210999500 + i * 777, "code": (i * 60 + lv) % 256,
                       "t": 1711846800.25 + i * 1e7}


def sweeps():
    return [Sweep("every environment", sweep)]


def searches():
    return [Search("sessions", cases(), 1600, 60000)]


def check(name, case, rec):
    line = dump({k: v for k, v in case.items() if k != "env"})
    plain = worker("plain").ask(line)
    if "error" in plain:
        raise Violation(f"plain process: {plain['error']}")
    other = worker(case["env"]).ask(line)
    if "error" in other:
        raise Violation(f"{case['env']}: {other['error']}, no error in a plain process")
    for a, b in zip(plain["ok"], other["ok"]):
        expect(a == b, lambda: f"{case['env']}: {a[0]}: {json.dumps(b[1])[:300]}, in a plain process {json.dumps(a[1])[:300]}")
    expect(len(plain["ok"]) == len(other["ok"]), f"{case['env']}: results are missing")
    rec.label(case["env"])
    if case["objs"]:
        rec.hit("objects written")

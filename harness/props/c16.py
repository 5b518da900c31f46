"""C16: readers and writers do not influence each other."""
import functools
import os
import shutil
import sys
import tempfile
import threading
import types

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, Violation, expect, lib
from ..vb import BlfReader, BlfWriter, Sink, Source, same_objects, scratch, scripted_clock, vblf
from .c04 import secs

UNGUIDED = True

META = {
    "level": "exploration",
    "technique": "model-based testing: generated interleavings of readers and writers against what each must do alone",
    "rule": "One case = up to six instances (readers of intact, truncated or corrupted logs, writers with their own"
            " level and buffer size, rejected and failing ones, abandoned ones; several may share the same bytes or"
            " the same objects) and a schedule of single steps.  Every intact reader must deliver exactly its own"
            " objects and statistics, every damaged one what it delivers alone, every writer a file with exactly"
            " its own objects, statistics, level and (scripted) times."
            "  In the preempted parts, steps of the other instances run between the lines, or the single"
            " instructions, of library code that one call executes (a trace function switches deterministically every"
            " n-th of them)."
            "  In the thread parts, every instance runs in its own thread and hands over after a generated number of"
            " lines or instructions, one at a time.  Non-trivial: at least two instances take turns in the middle of their work.",
    "assumptions": ["switches happen between calls, source lines or byte code instructions of the library"],
}

T0 = 1600000000.0
LIBDIR = os.path.dirname(vblf.__file__)


@st.composite
def instances(draw, nspec, nlist):
    k = draw(st.sampled_from("rrrwwwxf"))
    if k in "rx":
        i = {"k": "r", "spec": draw(st.integers(0, nspec - 1))}
        if k == "x":
            i["hurt"] = draw(st.one_of(
                st.tuples(st.just("cut"), st.integers(0, 100000)),
                st.tuples(st.just("flip"), st.integers(144, 100000), st.integers(1, 255)),
                st.tuples(st.just("chop"), st.integers(0, 20), st.integers(-9, 40)),
                st.just(("cut", 100)))).__iter__()
            i["hurt"] = list(i["hurt"])
    else:
        i = {"k": "w", "list": draw(st.integers(0, nlist - 1)), "lv": draw(gen.levels),
             "buf": draw(st.one_of(st.just(None), st.sampled_from([1, 40, 64, 100, 333, 1000, 4096, 1 << 17]))),
             "bad": draw(st.lists(st.integers(0, 8), max_size=2))}
        if k == "f":
            i["fail"] = draw(st.integers(1, 4))
    if draw(st.integers(0, 6)) == 0:
        i["drop"] = draw(st.integers(1, 6))
    return i


@st.composite
def cases(draw):
    specs = draw(st.lists(gen.file_spec(5), min_size=1, max_size=3))
    lists = draw(st.lists(gen.objects(0, 6), min_size=1, max_size=3))
    inst = draw(st.lists(instances(len(specs), len(lists)), min_size=2, max_size=6))
    sched = draw(st.lists(st.integers(0, len(inst) - 1), max_size=50))
    return {"specs": specs, "lists": lists, "inst": inst, "sched": sched, "rev": draw(st.integers(0, 1)), "back": draw(st.integers(0, 1)),
            "paths": draw(st.integers(0, 2)) // 2}


def sweep(tier):
    from . import c02

    K, U, T = c02.CAN, session.opaque_of(90), c02.TXT
    sp = [{"level": 0, "segs": [c02.seg([K, U, T, K], [30, 100])], "tail": b"LOB"},
          {"level": 6, "segs": [c02.seg([T, K, K, U], [70, 110, 180])], "tail": b""},
          {"level": 0, "segs": [{"k": "bare", "objs": [K, K, U], "fill": []}], "tail": b"\0"}]
    ls = [[K, U, K], [T, T, T, U], [K] * 6, []]
    kinds = [{"k": "r", "spec": 0}, {"k": "r", "spec": 1}, {"k": "r", "spec": 2},
             {"k": "r", "spec": 0, "hurt": ["cut", 144 + 60]}, {"k": "r", "spec": 1, "hurt": ["cut", 144 + 200]},
             {"k": "r", "spec": 0, "hurt": ["cut", 20]}, {"k": "r", "spec": 1, "hurt": ["flip", 190, 255]},
             {"k": "r", "spec": 1, "hurt": ["chop", 0, 9]}, {"k": "r", "spec": 1, "hurt": ["chop", 1, 30]},
             {"k": "r", "spec": 1, "hurt": ["chop", 2, -5]},
             {"k": "w", "list": 0, "lv": 0, "buf": None, "bad": []}, {"k": "w", "list": 1, "lv": 9, "buf": 64, "bad": [1]},
             {"k": "w", "list": 2, "lv": 1, "buf": 100, "bad": [0, 3]},
             {"k": "w", "list": 2, "lv": 6, "buf": 48, "bad": [], "fail": 3},
             {"k": "w", "list": 0, "lv": 0, "buf": 1 << 17, "bad": [], "drop": 3},
             {"k": "r", "spec": 1, "drop": 3}, {"k": "w", "list": 3, "lv": 0, "buf": None, "bad": []}]
    scheds = [[0, 1] * 12, [0] * 12 + [1] * 12, [1, 0, 0] * 8, [0, 0, 1, 1] * 6, [0, 0, 0] + [1] * 12,
              [0, 0] + [1] * 4 + [0] * 3]
    for a in kinds:
        for b in kinds:
            for n, s in enumerate(scheds):
                yield {"specs": sp, "lists": ls, "inst": [a, b], "sched": s, "rev": 0, "paths": 0, "back": n & 1}
                if n < 4:
                    yield {"specs": sp, "lists": ls, "inst": [a, b], "sched": s, "rev": n & 1, "paths": 1, "back": n >> 1 & 1}
    for i in range(len(kinds)):
        trio = [kinds[i], kinds[(i + 3) % len(kinds)], kinds[(i + 8) % len(kinds)], kinds[i]]
        for s in ([0, 1, 2, 3] * 10, [3, 0] * 5 + [1, 2] * 9, [0, 3, 3, 0, 1] * 6):
            yield {"specs": sp, "lists": ls, "inst": trio, "sched": s, "rev": 1, "paths": (s[0] + i) % 2}


def preempt_sweep(tier):
    base = list(sweep("quick"))
    seen = set()
    for c in base:
        if len(c["inst"]) != 2:
            continue
        key = repr(c["inst"])
        if key in seen:
            continue
        seen.add(key)
        for stride, phase in ((1, 0), (4, len(seen) % 4), (11, len(seen) % 11)):
            yield {**c, "sched": [], "pre": [stride, phase]}
        for stride, phase in ((1, 0), (7, len(seen) % 7), (31, len(seen) % 31)):
            yield {**c, "sched": [], "pre": [stride, phase, 1], "paths": len(seen) % 3 // 2}


def baton_sweep(tier):
    for i, c in enumerate(preempt_sweep(tier)):
        if i % 6 == 0:
            c = {k: v for k, v in c.items() if k != "pre"}
            for fine, spans in ((0, [1]), (0, [3, 1, 2]), (1, [2]), (1, [5, 11, 3]), (1, [40, 7])):
                yield {**c, "baton": [fine, spans]}


@st.composite
def threads(draw):
    c = draw(cases())
    c["sched"] = []
    c["baton"] = [draw(st.integers(0, 1)), draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 200)),
                                                         min_size=1, max_size=8))]
    return c


@st.composite
def preempted(draw):
    c = draw(cases())
    c["sched"] = []
    c["pre"] = [draw(st.integers(1, 40)), draw(st.integers(0, 39))]
    if draw(st.integers(0, 2)) == 0:
        c["pre"] = [draw(st.integers(1, 300)), draw(st.integers(0, 299)), 1]
    return c


def sweeps():
    return [Sweep("pairs", sweep), Sweep("preempted pairs", preempt_sweep),
            Sweep("threads, pairs", baton_sweep)]


def searches():
    return [Search("interleavings", cases(), 1600, 150000), Search("preempted", preempted(), 800, 60000),
            Search("threads", threads(), 600, 40000)]


class Preempt:
    """Runs steps of other instances between the lines of library code of the current one."""

    def __init__(self, others, fresh, clock, stride, phase, fine=0):
        self.fine = bool(fine)  # between instructions instead of lines
        self.others, self.fresh, self.clock = others, fresh, clock
        self.stride, self.phase = stride, phase % stride
        self.n = self.next = self.done = 0
        self.error = None
        self.live = list(others)

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIBDIR):
            return None
        frame.f_trace_opcodes = self.fine
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.fine else "line") and self.error is None:
            self.n += 1
            if self.n % self.stride == self.phase and self.done < 4000:
                try:
                    self.step()
                except BaseException as e:  # noqa: BLE001 - raised again by the caller
                    self.error = e
        return self._local

    def step(self):
        self.done += 1
        self.next = (self.next + 1) % len(self.live)
        if not self.live[self.next].step(self.clock) and len(self.others) < 60:
            self.live[self.next] = self.fresh(self.next)
            self.others.append(self.live[self.next])

    def run(self, inst):
        while True:
            sys.settrace(self._global)
            try:
                alive = inst.step(self.clock)
            finally:
                sys.settrace(None)
            if self.error is not None:
                raise self.error
            if not alive:
                return


def library_code():
    """Code objects of all functions of the library."""
    seen, todo, codes = set(), [mod for n, mod in list(sys.modules.items()) if n == "vblf" or n.startswith("vblf.")], []
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, types.CodeType):
            codes.append(x)
            todo += [k for k in x.co_consts if isinstance(k, types.CodeType)]
        elif isinstance(x, types.ModuleType):
            todo += list(vars(x).values())
        elif isinstance(x, type):
            if x.__module__.startswith("vblf"):
                todo += list(vars(x).values())
        elif isinstance(x, types.FunctionType):
            if (x.__module__ or "").startswith("vblf"):
                todo.append(x.__code__)
                if hasattr(x, "__wrapped__"):
                    todo.append(x.__wrapped__)
        elif isinstance(x, (classmethod, staticmethod)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo += [x.fget, x.fset, x.fdel]
        elif hasattr(x, "__wrapped__"):
            todo.append(x.__wrapped__)
    return codes


baton = None  # the one that is active


def on_line(_code, _line):
    if baton is not None and not baton.fine:
        baton.event()


def on_instruction(_code, _offset):
    if baton is not None and baton.fine:
        baton.event()


@functools.lru_cache(None)
def instrument():
    """Once for the process: report lines and instructions of library code (PEP 669)."""
    mon = sys.monitoring
    mon.use_tool_id(4, "vblf verification")
    mon.register_callback(4, mon.events.LINE, on_line)
    mon.register_callback(4, mon.events.INSTRUCTION, on_instruction)
    for code in library_code():
        mon.set_local_events(4, code, mon.events.LINE | mon.events.INSTRUCTION)


class Baton:
    """Every instance in its own thread; exactly one runs, and hands over after a given number of lines or
    instructions of library code (so calls overlap in any way, not only nested, but reproducibly)."""

    def __init__(self, runs, clock, fine, spans):
        self.runs, self.clock, self.fine, self.spans = runs, clock, bool(fine), spans
        self.gates = [threading.Semaphore(0) for _ in runs]
        self.live = list(range(len(runs)))
        self.left, self.turn, self.switches, self.errors = spans[0], 0, 0, []
        self.over = threading.Event()
        self.me = threading.local()

    def event(self):
        me = getattr(self.me, "number", None)
        if me is None:
            return
        self.left -= 1
        if self.left <= 0 and len(self.live) > 1 and self.switches < 6000:
            self.switches += 1
            self.turn += 1
            self.left = self.spans[self.turn % len(self.spans)]
            nxt = self.live[(self.live.index(me) + 1) % len(self.live)]
            self.gates[nxt].release()
            self.gates[me].acquire()

    def body(self, i):
        self.gates[i].acquire()
        try:
            self.me.number = i
            try:
                while self.runs[i].step(self.clock):
                    pass
            finally:
                self.me.number = None
        except BaseException as e:  # noqa: BLE001 - raised again by the caller
            self.errors.append(e)
        nxt = self.live[(self.live.index(i) + 1) % len(self.live)]
        self.live.remove(i)
        if self.live:
            self.gates[nxt].release()
        else:
            self.over.set()

    def run(self):
        global baton
        instrument()
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.runs))]
        baton = self
        try:
            for t in ts:
                t.start()
            self.gates[0].release()
            self.over.wait()
            for t in ts:
                t.join()
        finally:
            baton = None
        if self.errors:
            raise self.errors[0]


class FailSink(Sink):
    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, data):
        self.n -= 1
        if self.n < 0:
            raise OSError(28, "no space")
        return super().write(data)


def outcome(data):
    """What a reader delivers alone: list of (class, bytes), kind of ending."""
    got = []
    try:
        r = BlfReader(Source(data))
        for _ in range(10000):
            o = r.read_object()
            if o is None:
                return got, "end"
            got.append((type(o).__name__, o.pack()))
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        return got, type(e).__name__
    return got, "endless"


def chop(data, n, k):
    """One container loses the last *k* bytes of what it stores (or holds some more), and says so."""
    found, p = [], data.find(b"LOBJ", 144)
    while p >= 0:
        size = int.from_bytes(data[p + 8 : p + 12], "little")
        if data[p + 12 : p + 16] == b"\n\0\0\0" and 32 <= size <= len(data) - p:
            found.append((p, size))
        p = data.find(b"LOBJ", p + max(size, 4) if size <= len(data) - p else p + 4)
    if not found:
        return data
    p, size = found[n % len(found)]
    stored = data[p + 32 : p + size]
    stored = stored[: len(stored) - min(k, len(stored))] if k > 0 else stored + b"\x5a" * -k
    return data[: p + 8] + (32 + len(stored)).to_bytes(4, "little") + data[p + 12 : p + 32] + stored + data[p + size:]


class Folder:
    """Files of one case: logs to read (one file per log, or one name whose file is replaced), targets to write."""

    def __init__(self, one_name):
        self.dir, self.one_name, self.now, self.n = tempfile.mkdtemp(dir=scratch()), one_name, None, 0

    def source(self, data):
        p = os.path.join(self.dir, "log.blf" if self.one_name else f"log{hash(data) & 0xFFFFFFFF:x}.blf")
        if self.now != data if self.one_name else not os.path.exists(p):
            with open(p + ".new", "wb") as f:
                f.write(data)
            os.replace(p + ".new", p)
            self.now = data
        return p

    def target(self):
        """One name for all writers too, where the file of the previous one was given another name."""
        self.n += 1
        if not self.one_name:
            return PathSink(os.path.join(self.dir, f"out{self.n}.blf"))
        name = os.path.join(self.dir, "out.blf")
        if os.path.exists(name):
            self.last.path = os.path.join(self.dir, f"out{self.n}.blf")
            os.rename(name, self.last.path)
        self.last = PathSink(name)
        return self.last

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class PathSink:
    closed = True

    def __init__(self, path):
        self.path = path

    @property
    def content(self):
        with open(self.path, "rb") as f:
            return f.read()


class Reader:
    def __init__(self, i, files, folder=None):
        self.folder = folder
        data, self.objs, _ = files[i["spec"]]
        self.head = m.parse_file_header(data)
        self.alone = None
        h = i.get("hurt")
        if h:
            if h[0] == "cut":
                data = data[: h[1] % (len(data) + 1)]
            elif h[0] == "chop":
                data = chop(data, h[1], h[2])
            else:
                b = bytearray(data)
                p = 144 + h[1] % max(1, len(b) - 144)
                if p < len(b):
                    b[p] ^= h[2]
                data = bytes(b)
            self.alone = outcome(data)
        self.data, self.i, self.state, self.got, self.steps = data, i, 0, [], 0
        self.ending = None

    def step(self, _clock):
        """One call; False when there is nothing left to do."""
        if self.state == 2 or self.i.get("drop") == self.steps:
            self.r = None
            return False
        self.steps += 1
        try:
            if self.state == 0:
                self.r = BlfReader(Source(self.data) if self.folder is None else self.folder.source(self.data))
                self.state = 1
            else:
                o = self.r.read_object() if self.steps % 3 else next(iter(self.r), None)
                if o is None:
                    self.state, self.ending = 2, "end"
                else:
                    self.got.append(o)
                    expect(len(self.got) < 20000, "endless")
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            if self.alone is None:
                raise Violation(f"reader of an intact log: {type(e).__name__}: {e}") from e
            self.state, self.ending = 2, type(e).__name__
        return self.state != 2

    def verify(self, n):
        what = f"reader {n}"
        if self.alone is None:
            same_objects(self.got, self.objs, what, prefix=self.ending is None)
        else:
            with lib(what):
                got = [(type(o).__name__, o.pack()) for o in self.got]
            want, end = self.alone
            if self.ending is None:
                expect(got == want[: len(got)], f"{what} (damaged log): differs from what it delivers alone")
            else:
                expect((got, self.ending) == (want, end), f"{what} (damaged log): {len(got)} objects and"
                       f" {self.ending}, alone {len(want)} and {end}")
        if self.state and getattr(self, "r", None) is not None:
            s = self.r.file_statistics
            h = self.head
            got = (s.file_size, s.uncompressed_file_size, s.object_count, int(s.compression_level), s.application_build)
            want = (h["fsize"], h["usize"], h["count"], h["level"], h["build"])
            expect(got == want, f"{what}: statistics {got}, header says {want}")


class Writer:
    def __init__(self, i, lists, libs, folder=None):
        self.folder = folder
        self.i, self.mo, self.lo = i, lists[i["list"]], libs[i["list"]]
        self.state, self.pos, self.steps, self.sink = 0, 0, 0, None
        self.failed = False
        self.t = [None, None, None, None]

    def step(self, clock):
        i = self.i
        if self.state == 2 or i.get("drop") == self.steps:
            self.w = None
            return False
        self.steps += 1
        try:
            if self.state == 0:
                self.sink = FailSink(i["fail"]) if "fail" in i else Sink() if self.folder is None else self.folder.target()
                self.t[0] = clock()
                kw = {} if i["buf"] is None else {"buffer_size": i["buf"]}
                target = getattr(self.sink, "path", self.sink)
                self.w = BlfWriter(target, compression_level=i["lv"], **kw)
                self.t[1] = clock()
                self.state = 1
                return True
            if self.pos in i["bad"]:
                i = self.i = {**i, "bad": [b for b in i["bad"] if b != self.pos]}
                with lib("preparing objects"):
                    bad = session.lib_objects([session.opaque_of(24)])[0]
                    bad.header.base.object_size += 3
                try:
                    self.w.write(bad)
                except ValueError:
                    return True
                raise Violation("object of the wrong size accepted")
            if self.pos < len(self.lo):
                self.t[2] = clock()
                self.pos += 1
                self.w.write(self.lo[self.pos - 1])
                self.t[3] = clock()
                return True
            t = clock()
            self.w.close()
            self.own = [t, clock()]
            self.state = 2
        except OSError as e:
            if "fail" not in i:
                raise Violation(f"writer: {type(e).__name__}: {e}") from e
            self.state, self.failed = 2, True
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(f"writer: {type(e).__name__}: {e}") from e
        return self.state != 2

    def verify(self, n):
        what = f"writer {n}"
        if self.sink is None or self.failed:
            return
        if self.state != 2:
            data = self.sink.content if self.sink.closed else self.sink.getvalue()
            if len(data) >= 144:
                got, end = outcome(data)
                if self.folder is not None:
                    end = "end"  # the file object may hold back anything
                raws = [m.encode(o) for o in self.mo]
                expect(end == "end" and [b for _c, b in got] == raws[: len(got)],
                       f"{what} (unfinished): file does not hold a prefix of its objects")
            return
        data = self.sink.content
        raws = [m.encode(o) for o in self.mo]
        w = m.Written(data)
        m.match_stream(w.stream(), raws, aligned=False)
        h = w.header
        want = (len(raws), len(data), 144 + sum(map(len, raws)), self.i["lv"])
        expect((h["count"], h["fsize"], h["usize"], h["level"]) == want,
               f"{what}: header {h}, want count, size, uncompressed size, level {want}")
        a, b, c, d = self.t
        if c is None or c > d:  # no object, or the clock goes backwards: any of its own times
            own = [x for x in (a, b, c, d, *self.own) if x is not None]
            c, d = min(own), max(own)
        a, b = sorted((a, b))
        start, last = secs(h["start"], "measurement start"), secs(h["last"], "last object time")
        expect(a * 1000 - 1.01 <= start <= b * 1000 + 1.01, f"{what}: measurement start is not its own")
        expect(c * 1000 - 1.01 <= last <= d * 1000 + 1.01, f"{what}: last object time is not its own")
        ctl = []
        with lib("reading back"):
            for o in BlfReader(Source(data)):
                ctl.append(o)
        same_objects(ctl, self.mo, what)


def check(name, case, rec):
    folder = Folder(not ("pre" in case or "baton" in case)) if case.get("paths") else None
    try:
        play(case, rec, folder)
    finally:
        if folder is not None:
            rec.label("files by path")
            folder.remove()


def play(case, rec, folder):
    files = [m.build_file(s) for s in case["specs"]]
    with lib("preparing objects"):
        libs = [session.lib_objects(objs) for objs in case["lists"]]
    state = [T0]

    def clock():
        state[0] += -977.25 if case.get("back") else 977.25
        return state[0]

    def make(i):
        return Reader(i, files, folder) if i["k"] == "r" else Writer(i, case["lists"], libs, folder)

    runs = [make(i) for i in case["inst"]]
    switches, prev = 0, None
    with scripted_clock(clock):
        if "pre" in case:
            others = runs[1:]
            pre = Preempt(others, lambda n: make(case["inst"][1 + n]), clock, *case["pre"])
            pre.run(runs[0])
            runs = runs[:1] + others
            switches = pre.done
            rec.label("preempted between instructions" if pre.fine else "preempted between lines")
        if "baton" in case:
            bt = Baton(runs, clock, *case["baton"])
            bt.run()
            switches = bt.switches
            rec.label("threads handing over between " + ("instructions" if bt.fine else "lines"))
        for s in case["sched"]:
            alive = runs[s].step(clock)
            if prev is not None and prev != s and alive and runs[prev].state == 1 and runs[prev].steps > 1:
                switches += 1
            prev = s
        order = range(len(runs))
        for s in reversed(order) if case["rev"] else order:
            while runs[s].step(clock):
                pass
    for n, r in enumerate(runs):
        r.verify(n)
    if switches:
        rec.hit()
    kinds = sorted({type(r).__name__ for r in runs})
    rec.label(" and ".join(kinds))
    if any(r.i.get("hurt") for r in runs):
        rec.label("with a damaged log")
    if any("drop" in r.i for r in runs):
        rec.label("with an abandoned instance")
    if any(getattr(r, "failed", False) for r in runs):
        rec.label("with a failed writer")

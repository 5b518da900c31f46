"""C20: a misbehaving system clock."""
import random

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, expect, lib
from ..vb import BlfReader, BlfWriter, Sink, Source, read_all, same_objects, scripted_clock

META = {
    "level": "exploration",
    "technique": "property-based testing: writing sessions under generated clock scripts against the list of objects",
    "rule": "One case = a write session and a script of clock readings (any instant from 1601 to 9999 per"
            " reading: standing still, creeping, single jumps forwards or backwards at every position, random"
            " walks, extremes).  Every call must succeed, the file must hold exactly the objects, be well-formed"
            " and state true counts and sizes.  Non-trivial: the script jumps backwards or by more than a year"
            " and at least one object is written.",
    "assumptions": ["the clock stays within the years 1601 to 9999, which the header's time form covers"],
}
TOP = 253402300799.0
BOT = -11644473600.0  # 1601
MARKS = [BOT, -2208988800.5, -1e9, -0.0005, 0.0, 0.0005, 0.9995, 1.0, 1e9, 951782399.9996, 1700000000.0, 2147483647.0, 2147483648.0, 4294967295.9996,
         4294967296.0, 1e10, 9223372036.854775, 9223372037.0, 18446744073.709551, 18446744074.0, 1e11, TOP]
instant = st.one_of(st.sampled_from(MARKS), st.floats(BOT, TOP), st.floats(1.6e9, 1.8e9), st.integers(int(BOT), int(TOP)).map(float))


@st.composite
def scripts(draw):
    k = draw(st.sampled_from(["free", "free", "still", "jump", "walk"]))
    if k == "free":
        return {"k": k, "v": draw(st.lists(instant, min_size=1, max_size=12))}
    if k == "still":
        return {"k": "free", "v": [draw(instant)]}
    if k == "jump":
        return {"k": k, "a": draw(instant), "b": draw(instant), "at": draw(st.integers(0, 14))}
    return {"k": k, "a": draw(instant), "d": draw(st.lists(st.one_of(
        st.sampled_from([0.0, -1e-6, 1e-3, -1.0, 1.0, -3600.0, 3600.0, -1e8, 1e9]), st.floats(-1e10, 1e10)),
        min_size=1, max_size=6))}


def clock_of(script):
    n = [0, script.get("a", 0.0)]

    def clock():
        i = n[0]
        n[0] += 1
        if script["k"] == "free":
            t = script["v"][i % len(script["v"])]
        elif script["k"] == "jump":
            t = (script["a"] if i < script["at"] else script["b"]) + i * 0.25
        else:
            n[1] = min(TOP, max(BOT, n[1] + script["d"][i % len(script["d"])]))
            t = n[1]
        return min(TOP, max(BOT, t))

    return clock


@st.composite
def cases(draw):
    c = draw(session.sessions(tgt=False))
    c["clock"] = draw(scripts())
    return c


def sweep(tier):
    K = session.opaque_of(40)
    for a in MARKS:
        for b in MARKS:
            for at in range(0, 9):
                yield {"objs": {"rep": [K], "n": 4}, "lv": 6 if at & 1 else 0, "buf": (40, 100, 1 << 17)[at % 3],
                       "via": 0, "clock": {"k": "jump", "a": a, "b": b, "at": at}}
    for a in MARKS:
        for lv in (0, 6):
            for n in (0, 1, 9):
                yield {"objs": {"rep": [K], "n": n}, "lv": lv, "buf": 64, "via": 0, "clock": {"k": "free", "v": [a]}}
                yield {"objs": {"rep": [K], "n": n}, "lv": lv, "buf": 200, "via": 0,
                       "clock": {"k": "free", "v": [a, BOT, TOP]}}
    for d in (-1e-6, -1e-3, -1.0, -60.0, -86400.0, -1e7, -1e9, 1e7, 1e9):
        yield {"objs": {"rep": [K], "n": 40}, "lv": 1, "buf": 100, "via": 0,
               "clock": {"k": "walk", "a": TOP if d < 0 else BOT, "d": [d]}}


def stir_sweep(tier):
    rnd = random.Random(20)
    for i in range(1200 if tier == "quick" else 30000):
        c = session.stir(i + (1 << 20), 13, 7)
        c.pop("tgt")
        t = lambda: rnd.choice([rnd.choice(MARKS), rnd.uniform(BOT, TOP), rnd.uniform(0, 4e9)])  # noqa: E731
        k = rnd.choice(["free", "jump", "walk"])
        if k == "free":
            c["clock"] = {"k": k, "v": [t() for _ in range(rnd.randrange(1, 8))]}
        elif k == "jump":
            c["clock"] = {"k": k, "a": t(), "b": t(), "at": rnd.randrange(20)}
        else:
            c["clock"] = {"k": k, "a": t(), "d": [rnd.choice([-1, 1]) * 10 ** (rnd.random() * 16 - 6) for _ in range(rnd.randrange(1, 7))]}
        yield c


def sweeps():
    return [Sweep("jumps", sweep), Sweep("stir", stir_sweep)]


def searches():
    return [Search("clocks", cases(), 3000, 300000)]


def check(name, case, rec):
    mo = session.expand(case["objs"])
    lo = session.lib_objects(mo, case.get("via", 0))
    clock = clock_of(case["clock"])
    seen = []

    def watched():
        seen.append(clock())
        return seen[-1]

    sink = Sink()
    with scripted_clock(watched):
        with lib("opening the log"):
            w = BlfWriter(sink, compression_level=session.level_of(case), buffer_size=case["buf"])
        for i, o in enumerate(lo):
            with lib(f"write number {i}"):
                w.write(o)
        with lib("close"):
            w.close()
        with lib("reading"):
            r = BlfReader(Source(sink.content))
            first = r.read_object()
    expect((first is not None) == bool(mo), "reader finds no object")
    same_objects(read_all(sink.content, len(mo)), mo, "reading the log")
    raws = [m.encode(o) for o in mo]
    wr = m.Written(sink.content)
    m.match_stream(wr.stream(), raws, aligned=False)
    h = wr.header
    got = (h["count"], h["fsize"], h["usize"], h["level"])
    want = (len(mo), len(sink.content), 144 + sum(map(len, raws)), case["lv"])
    expect(got == want, f"header states {got}, want {want}")
    drops = [b - a for a, b in zip(seen, seen[1:])]
    if mo and drops:
        if min(drops) < 0:
            rec.hit("backwards")
        if max(drops) > 3e7:
            rec.hit("forwards by over a year")
        if not any(drops):
            rec.label("standing still")
    assert gen

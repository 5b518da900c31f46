"""C04: statistics in the header of a closed log."""
import calendar
import io
import os
import random
import time

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, expect, lib
from ..vb import BlfReader, BlfWriter, Sink, Source, scripted_clock

META = {
    "level": "exploration",
    "technique": "property-based testing: header statistics against an independent count under a scripted clock",
    "rule": "One case = a write session plus a scripted system clock (start, advance per reading) and a"
            " local time zone.  After close the raw header is parsed independently: object count, file"
            " size, uncompressed size, level, and both UTC times are compared with the session."
            "  Non-trivial: at least one object; labelled by zone and magnitude.",
    "assumptions": ["times are compared with 1 ms tolerance (the resolution of the header)",
                    "'last object' is the last accepted write; without any, any time between construction"
                    " and close is accepted"],
}

ZONES = ["UTC", "AAA-14", "BBB+11:30", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30"]
T0 = 1700000000.25


class NullSink(io.RawIOBase):
    """Keeps only the header; for logs of several GiB."""

    def __init__(self):
        super().__init__()
        self.pos = self.end = 0
        self.head = bytearray(144)

    def writable(self):
        return True

    def seekable(self):
        return True

    def write(self, b):
        n = len(b)
        if self.pos < 144:
            k = min(144 - self.pos, n)
            self.head[self.pos : self.pos + k] = bytes(b[:k])
        self.pos += n
        self.end = max(self.end, self.pos)
        return n

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else self.end + off)
        return self.pos

    def tell(self):
        return self.pos


def sweep(tier):
    for i, c in enumerate(session.size_sweep(tier)):
        if i % 7 == 0:
            yield {**c, "t0": T0 + i * 86400.123, "step": (i % 5) * 0.75, "tz": ZONES[i % len(ZONES)]}
    for lv in range(10):
        for n in (0, 1, 2, 17, 255, 256, 257, 1000):
            for enum in (0, 1):
                yield {"objs": {"rep": [session.opaque_of(48), session.opaque_of(17)], "n": n}, "lv": lv,
                       "buf": 4096, "t0": T0, "step": 1.0, "tz": ZONES[(lv + n) % len(ZONES)],
                       "enum": enum, "tgt": "path" if n == 17 else "mem"}
    # counts and sizes beyond 16 bits
    yield {"objs": {"rep": [session.opaque_of(16)], "n": 65535}, "lv": 0, "buf": 131072, "t0": T0,
           "step": 0.001, "tz": "UTC"}
    yield {"objs": {"rep": [session.opaque_of(16)], "n": 70000}, "lv": 1, "buf": 65536, "t0": T0,
           "step": 0.001, "tz": "AAA-14"}
    for n in (65536, 65537, 1 << 17, (1 << 18) + 5, (1 << 20) + 1):
        yield {"objs": {"rep": [session.opaque_of(16)], "n": n}, "lv": 0, "buf": 1 << 20, "t0": T0,
               "step": 0.001, "tz": "UTC", "tgt": "null"}
    yield {"objs": [session.opaque_of(17 << 20)] * 2, "lv": 1, "buf": 1 << 20, "t0": T0, "step": 5.0,
           "tz": "UTC"}
    for k in range(10, 41, 2):  # buffers of every magnitude
        for n in (0, 3):
            yield {"objs": {"rep": [session.opaque_of(300)], "n": n}, "lv": k % 10, "buf": (1 << k) + k % 3, "t0": T0 + k, "step": 1.0, "tz": "UTC"}
    # beyond 32 bits (file of more than 4 GiB, kept nowhere)
    yield {"objs": {"rep": [session.opaque_of(1 << 20)], "n": 4200}, "lv": 0, "buf": 1 << 20, "t0": T0,
           "step": 1.0, "tz": "UTC", "tgt": "null"}


@st.composite
def cases(draw):
    c = draw(session.sessions())
    c["t0"] = draw(st.one_of(st.just(T0), st.integers(0, 4102444800).map(float),
                             st.floats(0, 4102444800), st.sampled_from(
        [951782399.9994, 1709251199.9996, 1735689599.999499, 0.0005, 1e9 + 0.9995])))
    c["step"] = draw(st.one_of(st.sampled_from([0.0, 0.0004, 0.001, 1.0, 60.0, 86400.0, 1e7]),
                               st.floats(0, 1e6)))
    c["tz"] = draw(st.sampled_from(ZONES))
    return c


def stir_sweep(tier):
    rnd = random.Random(4)
    for c in session.stir_sweep(tier):
        if rnd.random() < 0.6:
            yield {**c, "t0": rnd.choice([T0, rnd.random() * 4e9, rnd.randrange(4000000000) + rnd.choice([0.0, 0.9994, 0.9996, 0.0005])]),
                   "step": rnd.choice([0.0, 0.001, 1.0, 10 ** (rnd.random() * 8 - 4)]), "tz": rnd.choice(ZONES)}


def sweeps():
    return [Sweep("sessions", sweep), Sweep("stir", stir_sweep)]


def searches():
    return [Search("clocked", cases(), 2400, 200000)]


def secs(t, what):
    """SYSTEMTIME tuple -> milliseconds since the epoch."""
    y, mo, dow, d, h, mi, s, ms = t
    try:
        days = calendar.timegm((y, mo, d, 0, 0, 0))
        ok = 1 <= mo <= 12 and 1 <= d <= calendar.monthrange(y, mo)[1] and h < 24 and mi < 60 and s < 60
    except ValueError:
        ok = False
    expect(ok and ms < 1000, f"{what}: {t} is not a time")
    expect((calendar.weekday(y, mo, d) + 1) % 7 == dow, f"{what}: {t} has the wrong day of week")
    return (days + h * 3600 + mi * 60 + s) * 1000 + ms


def check(name, case, rec):
    mo = session.expand(case["objs"])
    memo = {}
    sizes = [memo.setdefault(id(o), m.osize(o)) for o in mo]
    lo = session.lib_objects(mo, case.get("via", 0))
    state = [case["t0"]]

    def clock():
        state[0] += case["step"]
        return state[0]

    old = os.environ.get("TZ")
    os.environ["TZ"] = case["tz"]
    time.tzset()
    try:
        with scripted_clock(clock), lib("session"):
            if case.get("tgt") == "null":
                sink = NullSink()
            else:
                sink = Sink()
            a0 = clock()
            w = BlfWriter(sink, compression_level=session.level_of(case), buffer_size=case["buf"])
            a1 = clock()
            l0, l1 = a0, None
            for o in lo:
                l0 = clock()
                w.write(o)
                l1 = clock()
            w.close()
            if l1 is None:
                l1 = clock()
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    if case.get("tgt") == "null":
        head, end = bytes(sink.head), sink.end
    else:
        head, end = sink.content, len(sink.content)
    h = m.parse_file_header(head)
    expect(h["count"] == len(mo), f"object count {h['count']}, {len(mo)} written")
    expect(h["fsize"] == end, f"file size {h['fsize']}, file has {end} bytes")
    total = 144 + sum(sizes)
    expect(h["usize"] == total, f"uncompressed size {h['usize']}, want {total}")
    expect(h["level"] == case["lv"], f"level {h['level']}, want {case['lv']}")
    expect(h["size"] == 144, f"header size {h['size']}")
    start, last = secs(h["start"], "measurement start"), secs(h["last"], "last object time")
    expect(a0 * 1000 - 1.01 <= start <= a1 * 1000 + 1.01,
           f"measurement start {h['start']} is not between {a0} and {a1}")
    expect(l0 * 1000 - 1.01 <= last <= l1 * 1000 + 1.01,
           f"last object time {h['last']} is not between {l0} and {l1}")
    if case.get("tgt") != "null":
        with lib("reading the header back"):
            fs = BlfReader(Source(sink.content)).file_statistics
            got = (fs.object_count, fs.file_size, fs.uncompressed_file_size, int(fs.compression_level))
        expect(got == (len(mo), end, total, case["lv"]), f"reader reports {got}")
    rec.label(case["tz"])
    if mo:
        rec.hit()
    if len(mo) > 65535:
        rec.label("more than 65535 objects")
    if end > 1 << 32:
        rec.label("file over 4 GiB")
    if case["step"] >= 86400:
        rec.label("clock advances a day per reading")
    assert gen

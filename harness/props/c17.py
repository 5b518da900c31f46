"""C17: conversion between SystemTime and datetime."""
import calendar
import datetime as real_dt
import os
import time

from hypothesis import strategies as st

from ..core import Search, Sweep, expect, lib
from ..vb import G, scripted_clock

META = {
    "level": "exploration",
    "technique": "property-based testing: conversion laws, exhaustive over microseconds, days and millisecond codes",
    "rule": "Sweeps convert every microsecond of a second, every day of a 400-year cycle plus both ends of the"
            " calendar, every second of a day and all 65536 millisecond codes; generated date-times (naive,"
            " aware, folded, in zones with and without summer time, under several local zones) and pairs check the same laws plus order.  An evaluation is one conversion"
            " there and back.  Non-trivial: the sub-second part is not a whole number of milliseconds, or it"
            " is at a border (>= 998 ms, day, month or year end).",
    "assumptions": ["a tie between two milliseconds may go either way",
                    "an aware date-time keeps its own wall-clock fields"],
}
DT = real_dt.datetime
ONE = real_dt.timedelta(microseconds=1)


def sweep(tier):
    for lo in range(0, 1000000, 8000):
        yield {"us": lo, "n": 8000, "sec": [2024, 2, 29, 23, 59, 59] if lo % 16000 else [1999, 12, 31, 23, 59, 59]}
    first, last = DT(1, 1, 1).toordinal(), DT(9999, 12, 31).toordinal()
    for lo in range(DT(1800, 1, 1).toordinal(), DT(2201, 1, 1).toordinal(), 1500):
        yield {"day": lo, "n": 1500}
    yield {"day": first, "n": 800}
    yield {"day": last - 800, "n": 801}
    for y in range(1, 9999, 7):
        yield {"day": DT(y, 2, 27).toordinal(), "n": 4}
    for h in range(24):
        yield {"hour": h}
    for lo in range(0, 65536, 2048):
        yield {"ms": lo, "n": 2048}
    for tz in ("UTC", "AAA-14", "EST5EDT,M3.2.0,M11.1.0"):
        for t in (0.0, 1.5, 1700000000.9996, 951782399.5, 4102444799.0, 253402300799.0):
            yield {"now": t, "tz": tz}
    for tz in ("UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:30:17YYY,M4.1.0,M10.5.0/0", "AAA+11:59:59", "CET-1CEST,M3.5.0,M10.5.0/3"):
        for y in (1901, 1969, 1970, 1999, 2024, 2037, 2039, 2100, 9998):
            yield {"wall": y, "tz": tz}


class Summer(real_dt.tzinfo):
    """A zone with summer time (last Sundays of March and October, at 2 and 3 o'clock) and odd seconds."""
    def __init__(self, seconds):
        self.base = real_dt.timedelta(seconds=seconds)

    def dst(self, dt):
        if dt is None:
            return None
        a = max(d for d in range(25, 32) if DT(dt.year, 3, d).weekday() == 6)
        b = max(d for d in range(25, 32) if DT(dt.year, 10, d).weekday() == 6)
        t = dt.replace(tzinfo=None, fold=0)
        end = DT(dt.year, 10, b, 2 if dt.fold else 3)
        return real_dt.timedelta(hours=1) if DT(dt.year, 3, a, 2) <= t < end else real_dt.timedelta(0)

    def utcoffset(self, dt):
        return None if dt is None else self.base + self.dst(dt)

    def tzname(self, dt):
        return "SUM"


class NoZone(real_dt.tzinfo):
    """A zone that knows nothing."""
    def utcoffset(self, dt):
        return None
    dst = tzname = utcoffset


class Stamp(DT):
    """A date-time of a class of its own."""


def zone(off):
    if off is None or off == "own":
        return None
    if off == "none":
        return NoZone()
    if isinstance(off, list):
        return Summer(off[0])
    return real_dt.timezone(real_dt.timedelta(minutes=off))


FIELDS = st.tuples(st.one_of(st.integers(1, 9999), st.sampled_from([1, 1601, 1900, 1970, 2000, 2024, 2038, 9999])),
                   st.integers(1, 12), st.one_of(st.integers(1, 31), st.just(31)), st.integers(0, 23), st.integers(0, 59),
                   st.one_of(st.integers(0, 59), st.just(59)),
                   st.one_of(st.integers(0, 999999), st.integers(998000, 999999), st.integers(0, 1999),
                             st.integers(0, 999).map(lambda k: k * 1000 + 500),
                             st.integers(0, 1999).map(lambda k: k * 500)))


@st.composite
def cases(draw):
    f = list(draw(FIELDS))
    g = list(draw(st.one_of(FIELDS, st.just(f))))
    off = draw(st.one_of(st.none(), st.sampled_from([0, 60, -60, 330, 840, -720, 1439, -1439]),
                         st.sampled_from([[0], [3600], [-17999], [45296], "none", "own"])))
    if draw(st.booleans()):
        g = f[:6] + [draw(st.integers(0, 999999))]
    return {"a": f, "b": g, "off": off, "fold": draw(st.integers(0, 1)), "ms": draw(st.integers(0, 65535))}


def sweeps():
    return [Sweep("exhaustive", sweep)]


def searches():
    return [Search("date-times", cases(), 12000, 1500000)]


def key(s):
    return (s.year, s.month, s.day, s.hour, s.minute, s.second, s.milliseconds)


def there_and_back(dt):
    """from_datetime / to_datetime laws; -> SystemTime."""
    with lib(f"converting {dt!r}"):
        s = G.SystemTime.from_datetime(dt)
        back = s.to_datetime()
        raw = s.pack()
        again = G.SystemTime.unpack(raw)
    got = (s.year, s.month, s.day, s.hour, s.minute, s.second)
    want = (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second)
    expect(got == want, lambda: f"{dt!r} stored as {s}")
    us = dt.microsecond
    expect(0 <= s.milliseconds <= 999 and (abs(s.milliseconds * 1000 - us) <= 500 or
                                           (us > 999500 and s.milliseconds == 999)),
           lambda: f"{us} us stored as {s.milliseconds} ms")
    dow = (calendar.weekday(2000 + dt.year % 400, dt.month, dt.day) + 1) % 7
    expect(s.day_of_week == dow, lambda: f"{dt!r}: day of week {s.day_of_week}, want {dow}")
    got = (back.year, back.month, back.day, back.hour, back.minute, back.second, back.microsecond)
    expect(got == want + (s.milliseconds * 1000,), lambda: f"{s} converts back to {back!r}")
    expect(raw == b"".join(v.to_bytes(2, "little") for v in (*want[:2], dow, *want[2:], s.milliseconds)),
           lambda: f"{s} encoded as {raw.hex()}")
    with lib("converting again"):
        expect(again == s and G.SystemTime.from_datetime(back) == s and G.SystemTime.from_datetime(again.to_datetime()) == s,
               lambda: f"{s} does not survive conversion to a date-time and back")
    return s


def over(f, ms):
    with lib(f"{ms} ms"):
        s = G.SystemTime(f[0], f[1], 0, f[2], f[3], f[4], f[5], ms)
        d = s.to_datetime()
    got = (d.year, d.month, d.day, d.hour, d.minute, d.second)
    expect(got == tuple(f[:6]), lambda: f"{ms} ms spill: {s} -> {d!r}")
    if ms <= 999:
        expect(d.microsecond == ms * 1000, lambda: f"{s} -> {d!r}")
        with lib("back"):
            expect(key(G.SystemTime.from_datetime(d)) == key(s), lambda: f"{s} -> {d!r} -> different")
    return d


def clampday(f):
    return [f[0], f[1], min(f[2], calendar.monthrange(f[0], f[1])[1]), *f[3:]]


def check(name, case, rec):
    if "us" in case:
        prev = None
        rec.count = case["n"]
        for us in range(case["us"], case["us"] + case["n"]):
            k = key(there_and_back(DT(*case["sec"], us)))
            expect(prev is None or prev <= k, f"{us} us converts to an earlier time than {us - 1} us")
            prev = k
        rec.hit("every microsecond")
    elif "day" in case:
        rec.count = 0
        prev = None
        for o in range(case["day"], case["day"] + case["n"]):
            d = real_dt.date.fromordinal(o)
            for h, us in ((0, 0), (23, 999999)):
                k = key(there_and_back(DT(d.year, d.month, d.day, h, 59 if h else 0, 59 if h else 0, us)))
                expect(prev is None or prev < k, f"{d}: later date-time converts to an earlier time")
                prev = k
                rec.count += 1
        rec.hit("every day")
    elif "hour" in case:
        prev = None
        rec.count = 3600
        for i in range(3600):
            k = key(there_and_back(DT(2021, 3, 28, case["hour"], i // 60, i % 60, (i * 7919) % 1000000)))
            expect(prev is None or prev < k, "later second converts to an earlier time")
            prev = k
        rec.hit("every second")
    elif "n" in case:
        rec.count = case["n"]
        for ms in range(case["ms"], case["ms"] + case["n"]):
            over([2023, 12, 31, 23, 59, 59], ms)
        rec.hit("every millisecond code")
    elif "wall" in case:
        old = os.environ.get("TZ")
        os.environ["TZ"] = case["tz"]
        time.tzset()
        try:
            rec.count = 0
            days = [(mo, d) for mo in (3, 4, 10, 11) for d in (*range(1, 15), *range(25, 31))]
            for mo, d in [(1, 1), (2, 28), (6, 30), (12, 31), *days]:
                prev = [None] * 3
                for h, mi, us in ((0, 0, 0), (0, 30, 1), (1, 0, 999999), (1, 30, 500500), (2, 0, 1500), (2, 30, 7),
                                  (2, 59, 999500), (3, 30, 123456), (23, 59, 999999)):
                    for i, tz in enumerate((None, Summer(3600), Summer(-17999))):
                        for fold in (0, 1):
                            k = key(there_and_back(DT(case["wall"], mo, d, h, mi, 59, us, tzinfo=tz, fold=fold)))
                            expect(prev[i] is None or prev[i] <= k, "later wall-clock time converts to an earlier one")
                            prev[i] = k
                            rec.count += 1
        finally:
            os.environ.pop("TZ") if old is None else os.environ.__setitem__("TZ", old)
            time.tzset()
        rec.hit("summer time")
    elif "now" in case:
        old = os.environ.get("TZ")
        os.environ["TZ"] = case["tz"]
        time.tzset()
        try:
            with scripted_clock(lambda: case["now"]), lib("current time"):
                s = G.SystemTime.from_datetime()
                s2 = G.SystemTime.from_datetime(None)
        finally:
            os.environ.pop("TZ") if old is None else os.environ.__setitem__("TZ", old)
            time.tzset()
        for x in (s, s2):
            t = calendar.timegm((x.year, x.month, x.day, x.hour, x.minute, x.second)) + x.milliseconds / 1000
            expect(abs(t - case["now"]) <= 0.00101, f"current time {case['now']} stored as {x}")
        rec.hit("current time")
    else:
        fa, fb = clampday(case["a"]), clampday(case["b"])
        tz = zone(case["off"])
        cls = Stamp if case["off"] == "own" else DT
        a = cls(*fa, tzinfo=tz, fold=case["fold"])
        b = cls(*fb, tzinfo=tz)
        ka, kb = key(there_and_back(a)), key(there_and_back(b))
        a, b = a.replace(tzinfo=None, fold=0), b.replace(tzinfo=None)
        expect((a <= b and ka <= kb) or (b <= a and kb <= ka), f"{a!r} and {b!r} convert to {ka} and {kb}")
        over(fa, case["ms"])
        rec.count = 3
        if fa[6] % 1000 or fa[6] >= 998000 or (fa[1] == 12 and fa[2] == 31):
            rec.hit()
        if fa[:6] == fb[:6]:
            rec.label("same second")
        if tz is not None:
            rec.label("summer-time zone" if isinstance(case["off"], list) else "aware")
        if case["ms"] > 999:
            rec.label("over-range milliseconds")

"""C23: objects behave as plain values."""
import copy
import dataclasses
import pickle

from hypothesis import strategies as st

from .. import gen, model as m
from ..core import Search, Sweep, expect, fail, lib, mix
from ..vb import BlfReader, BlfWriter, Sink, Source, attrs, construct, decode, has_nan, klass
from . import codec

META = {
    "level": "exploration",
    "technique": "property-based testing: equality and copying laws over generated pairs, decided by the independent encoder",
    "rule": "One case = two objects (of one kind and differing in nothing, in one field, header field or payload"
            " byte, or of different kinds) and how each came to be (decoded, constructed, read from a log). They"
            " must compare equal exactly when the independent encodings are equal, in both directions and"
            " through their headers; copies (copy, deepcopy, pickle, dataclasses.replace) must equal the original,"
            " be of its class, encode to its bytes and, for deep copies, share no changeable part with it;"
            " replace with one field must change that field only.  The same holds for objects with values that do not fit"
            " their place (short or long data, numbers out of range).  Non-trivial: the objects differ in exactly"
            " one place, or one was copied and written to a log.",
    "assumptions": ["fields hold the types the decoder delivers (the values need not fit their place); objects holding a NaN are exempt from equality"],
}

HOWS = ["decode", "construct", "read"]


def make(o, how):
    if how == "construct":
        return construct(o)
    if how == "read":
        data = m.file_header(level=0) + m.container(m.encode(o), 0, m.osize(o))
        return BlfReader(Source(data)).read_object()
    return decode(o)


def log_of(objs):
    s = Sink()
    with BlfWriter(s) as w:
        for o in objs:
            w.write(o)
    return s.content


def mutations(o):
    """Model objects that differ from *o* in exactly one place."""
    if o["t"] == "OPAQUE":
        b = m.B(o["body"])
        for i in sorted({0, len(b) // 2, len(b) - 1} if b else ()):
            yield {**o, "body": b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]}
        yield {**o, "body": b + b"\0"}
        yield {**o, "hv": o["hv"] ^ 1}
        return
    k = m.KINDS[o["t"]]
    for i in range(5):
        h = list(o["h"])
        h[i] ^= 1
        yield {**o, "h": h}
    for n, c, e in k.fields:
        if n in k.derived:
            continue
        v = o["v"][n]
        if e in m.ENUMS:
            new = next(x for x in sorted(m.ENUMS[e].values()) if x != v) if len(m.ENUMS[e]) > 1 else v
        elif isinstance(v, (bytes, bytearray)):
            new = bytes(v[:-1]) + bytes([v[-1] ^ 0x80])
        elif isinstance(v, list):
            new = v[:-1] + [v[-1] ^ 1]
        elif c == "d":
            new = v ^ (1 << 52)
        elif c == "h":
            new = v ^ 1
        else:
            new = v ^ 1
        if new != v:
            yield {**o, "v": {**o["v"], n: new}}
    for s in m.STRINGS.get(o["t"], ()):
        t = m.T(o[s])
        yield {**o, s: t + "x"}
        if t:
            yield {**o, s: ("a" if t[0] != "a" else "b") + t[1:]}
    if o["t"] in m.DATA_TAIL and o.get("ext") != "beyond":
        d = m.B(o["data"])
        if d:
            yield {**o, "data": d[:-1] + bytes([d[-1] ^ 1])}
    if o.get("ext") == "room":
        yield {**o, "btr": [o["btr"][0] ^ 1, o["btr"][1]]}
        yield {**o, "btr": [o["btr"][0], o["btr"][1] ^ 1]}


ALIKE = [(0, -1), (1, -1), (0, 1), (5, 1005), (7, 1000007), (1, 1000000001), (0x12, 0x1200), (0x12, 0x120000), (3, 259), (3, 65539),
         (3, (1 << 32) + 3), (1 << 53, (1 << 53) + 1), (-2, -1), (127, 128), (32767, 32768), (0x0102, 0x0201), (10, 16), (1, 2)]


def alike(bits):
    """Pairs of numbers that a careless comparison may take for the same."""
    for a, b in ALIKE:
        a, b = (x & ((1 << bits) - 1) if x < 0 else x for x in (a, b))
        if a < b < 1 << bits:
            yield a, b


def small_differences(o):
    """Model objects that differ in one bit, byte or item of one field."""
    k = m.KINDS[o["t"]]
    for i, bits in enumerate((16, 32, 16, 16, 64)):
        for b in range(1, bits):
            h = list(o["h"])
            h[i] ^= 1 << b
            yield o, {**o, "h": h}
        for a, b in alike(bits):
            yield tuple({**o, "h": [x if j == i else y for j, y in enumerate(o["h"])]} for x in (a, b))
    for n, c, e in k.fields:
        if n in k.derived or e in m.ENUMS:
            continue
        v = o["v"][n]
        if isinstance(v, (bytes, bytearray)):
            for i in range(len(v)):
                yield o, {**o, "v": {**o["v"], n: bytes(v[:i]) + bytes([v[i] ^ 1]) + bytes(v[i + 1:])}}
        elif isinstance(v, list):
            for i in range(len(v)):
                yield o, {**o, "v": {**o["v"], n: [x ^ (j == i) for j, x in enumerate(v)]}}
        elif c == "d":  # the next number, the other sign
            for base in (0, 1, 0x3FF8000000000000, 0x40D2C00000000000, 0xC0D2C00000000000, 0x7FEFFFFFFFFFFFFE,
                         0x3E45798EE2308C3A):
                x = {**o, "v": {**o["v"], n: base}}
                yield x, {**o, "v": {**o["v"], n: base ^ 1}}
                if base:
                    yield x, {**o, "v": {**o["v"], n: base ^ (1 << 63)}}
        elif c == "h":
            for b in range(1, 15):
                yield o, {**o, "v": {**o["v"], n: v ^ (1 << b)}}
        else:
            for b in range(1, {"B": 8, "H": 16, "I": 32, "Q": 64}.get(c, 1)):
                yield o, {**o, "v": {**o["v"], n: v ^ (1 << b)}}
            if c in "BHIQ" and c:
                for pair in alike({"B": 8, "H": 16, "I": 32, "Q": 64}[c]):
                    yield tuple({**o, "v": {**o["v"], n: x}} for x in pair)


def ok(o):
    """The codec model can encode it (lengths fit their fields)."""
    try:
        m.encode(o)
    except OverflowError:
        return False
    return True


@st.composite
def pairs(draw):
    a = draw(gen.stream_object())
    kind = draw(st.sampled_from(["same", "mutated", "mutated", "mutated", "other"]))
    b = a
    if kind == "mutated":
        muts = list(mutations(a))
        b = muts[draw(st.integers(0, len(muts) - 1))]
        if not ok(b):
            b = a
    elif kind == "other":
        b = draw(gen.stream_object())
    return {"a": a, "b": b, "ha": draw(st.sampled_from(HOWS)), "hb": draw(st.sampled_from(HOWS))}


def sweep(tier):
    i = 0
    for k in m.KINDS.values():
        for v in codec.variants(k):
            yield {"a": v, "b": v, "ha": "decode", "hb": "construct"}
            yield {"a": v, "b": v, "ha": "read", "hb": "decode"}
            for mu in mutations(v):
                if ok(mu):
                    i += 1
                    yield {"a": v, "b": mu, "ha": HOWS[mix(i) % 3], "hb": HOWS[mix(i, 1) % 3]}
    for k in m.KINDS.values():
        for v, mu in (p for base in codec.variants(k)[1:] for p in small_differences(base)):
            if ok(v) and ok(mu):
                i += 1
                yield {"a": v, "b": mu, "ha": HOWS[mix(i) % 3], "hb": HOWS[mix(i, 1) % 3]}
    for n in (300, 5000, 70000, 1 << 20):
        spots = sorted({x for e in range(21) for x in ((1 << e) - 1, 1 << e) if x < n} | {0, n // 2 + 1, n - 1})
        body = bytes(x * 7 & 0xFF for x in range(251)) * (n // 251 + 1)
        text = "".join(chr(97 + x % 26) for x in range(n))
        blanks = [{"t": "OPAQUE", "code": 22, "hs": 32, "hv": 1, "body": body[:n]}]
        if n < 100000:
            blanks += [{**codec.blank(k), s: text} for k in m.KINDS.values() for s in m.STRINGS.get(k.name, ())]
            blanks += [{**codec.blank(k), "data": body[:n]} for k in m.KINDS.values() if k.name in m.DATA_TAIL]
        for o in blanks:
            if not ok(o):
                continue
            (part,) = [x for x in o if x in ("body", "data", *m.STRINGS.get(o["t"], ())) and len(o[x]) == n]
            big = o[part]
            for x in spots if o["t"] == "OPAQUE" else spots[mix(i) % 3 :: 3]:
                i += 1
                new = big[:x] + (bytes([big[x] ^ 1]) if isinstance(big, bytes) else "~") + big[x + 1:]
                yield {"a": o, "b": {**o, part: new}, "ha": HOWS[mix(i) % 3], "hb": HOWS[mix(i, 1) % 3]}
    base = [codec.blank(k) for k in m.KINDS.values()]
    for a in base:
        for b in base:
            yield {"a": a, "b": b, "ha": "decode", "hb": "decode"}


def odd(tier):
    """Objects whose fields hold values of the right type that need not fit their place."""
    for k in m.KINDS.values():
        for i, v in enumerate(codec.variants(k)[1:3]):
            fields = [n for n in cls_fields(v) if n != "header"]
            for n in [*fields, "header.object_time_stamp", "header.object_flags", "header.base.object_size",
                      "header.base.header_version"]:
                for j in range(6):
                    yield {"odd": v, "field": n, "j": j, "how": HOWS[mix(k.name, n, i, j) % 3]}


def cls_fields(o):
    return [f.name for f in dataclasses.fields(klass(o))]


def odd_value(old, j):
    """The j-th value of the type of *old*, or None if there are no more."""
    if isinstance(old, (bytes, bytearray)):
        vals = [b"", bytes(old[:-1]), bytes(old[:1]), bytes(old) + b"\0", bytes(old) + b"x" * 300, b"\0" * len(old)]
    elif isinstance(old, str):
        vals = ["", old + "\0", old + "\u0416", "\ud800", "\0", old * 50]
    elif isinstance(old, bool):
        return None
    elif isinstance(old, int):
        vals = [-1, 1 << 70, int(old) + 1, 255, 1 << 17, -(1 << 70)]
    elif isinstance(old, float):
        vals = [0.1, -0.0, 1e308, float("inf"), 5e-324, -1.5]
    elif isinstance(old, (list, tuple)):
        vals = [type(old)(x) for x in ([], old[:-1], [*old, 7], [0] * len(old), [-1] * len(old), [1 << 70])]
    else:
        return None
    return vals[j]


def with_odd(o, how, field, j):
    """-> (object with the value, same object without), or None."""
    x = make(o, how)
    *way, last = field.split(".")
    at = x
    for part in way:
        at = getattr(at, part)
    new = odd_value(getattr(at, last), j)
    if new is None:
        return None
    setattr(at, last, new)
    return x


def encoding(x):
    try:
        return bytes(x.pack())
    except Exception as e:  # noqa: BLE001 - does not fit
        return type(e).__name__


def check_odd(case, rec):
    o, field, j, how = case["odd"], case["field"], case["j"], case["how"]
    x = with_odd(o, how, field, j)
    if x is None:
        return
    rec.label("odd value")
    if has_nan(o):
        return
    rec.hit()
    what = f"{o['t']} with {field} of {odd_value_text(x, field)}"
    y, plain = with_odd(o, "construct", field, j), make(o, how)
    if type(value_at(y, field)) is not type(value_at(x, field)):
        return  # the field is absent from this revision
    before = repr(x)
    with lib(what):
        expect(bool(x == y) and not x != y, f"{what}: two of them are not equal")
        same = value_at(x, field) == value_at(plain, field)
        expect(bool(x == plain) == same and bool(plain != x) == (not same), f"{what}: compares {x == plain} with the object without that value")
        raw = encoding(x)
        for name, fn in COPIES:
            c = fn(x)
            expect(type(c) is type(x) and c == x and not c != x, f"{what}: {name} gives {c!r:.200}")
            expect(type(value_at(c, field)) is type(value_at(x, field)), f"{what}: {name} changes the type of the value")
            expect(encoding(c) == raw, f"{what}: the {name} encodes differently")
        expect(repr(x) == before, f"{what}: copying and encoding changed the object")


def value_at(x, field):
    for part in field.split("."):
        x = getattr(x, part)
    return x


def odd_value_text(x, field):
    return repr(value_at(x, field))[:40]


COPIES = (("copy", copy.copy), ("deep copy", copy.deepcopy), ("pickled copy", lambda y: pickle.loads(pickle.dumps(y))),
          ("protocol-2 pickled copy", lambda y: pickle.loads(pickle.dumps(y, 2))),
          ("replacement without change", dataclasses.replace))


def sweeps():
    return [Sweep("one difference", sweep), Sweep("odd values", odd)]


def searches():
    return [Search("pairs", pairs(), 6000, 400000)]


def mutable_parts(x, out):
    """ids of everything below *x* that can be changed in place."""
    if dataclasses.is_dataclass(x):
        out[id(x)] = type(x).__name__
        for v in attrs(x).values():
            mutable_parts(v, out)
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out[id(x)] = "list"
        for v in x:
            mutable_parts(v, out)
    elif isinstance(x, (bytearray, dict, set)):
        out[id(x)] = type(x).__name__
    return out


def copies(x, o, raw, rec):
    for name, fn in (("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy),
                     ("pickle", lambda y: pickle.loads(pickle.dumps(y))),
                     ("pickle protocol 0", lambda y: pickle.loads(pickle.dumps(y, 0))),
                     ("pickle protocol 1", lambda y: pickle.loads(pickle.dumps(y, 1))),
                     ("pickle protocol 2", lambda y: pickle.loads(pickle.dumps(y, 2))),
                     ("pickle protocol 5", lambda y: pickle.loads(pickle.dumps(y, 5))),
                     ("dataclasses.replace", dataclasses.replace)):
        with lib(f"{o['t']}: {name}"):
            c = fn(x)
            expect(type(c) is type(x), f"{name} gives a {type(c).__name__}")
            m.check_object(c, o)
            expect(bytes(c.pack()) == raw, f"{name}: the copy encodes differently")
            expect(has_nan(o) or (c == x and not c != x), f"{name}: the copy is not equal")
        if name in ("copy.deepcopy", "pickle"):
            shared = set(mutable_parts(c, {})) & set(mutable_parts(x, {}))
            expect(not shared, lambda: f"{name}: shares {[mutable_parts(x, {})[s] for s in shared]}")
    with lib(f"{o['t']}: header copies"):
        h = x.header
        expect(copy.deepcopy(h) == h and pickle.loads(pickle.dumps(h)) == h, "copied header is not equal")
    with lib(f"{o['t']}: repr"):
        r = repr(x)
    expect(type(x).__name__ in r, f"repr does not name the class: {r[:80]}")
    rec.label("copied")


def check(name, case, rec):
    if "odd" in case:
        return check_odd(case, rec)
    a, b = case["a"], case["b"]
    ra, rb = m.encode(a), m.encode(b)
    with lib("making objects"):
        x, y = make(a, case["ha"]), make(b, case["hb"])
    nan = has_nan(a) or has_nan(b)
    want = ra == rb
    with lib("comparing"):
        got, got2, ne = bool(x == y), bool(y == x), bool(x != y)
        hx, hy = bool(x.header == y.header), None
    if not nan:
        expect(got == want, lambda: f"{a['t']} and {b['t']}: encodings {'equal' if want else 'differ'},"
               f" == says {got}; first {str(x)[:200]} second {str(y)[:200]}")
        expect(got == got2 and ne != got, f"{a['t']}: == {got}, reversed {got2}, != {ne}")
    if a["t"] == b["t"] and a["t"] != "OPAQUE":
        expect(hx == (ra[:32] == rb[:32]), f"{a['t']}: headers compare {hx}")
    copies(x, a, ra, rec)
    # one field replaced by that of the other object
    if a["t"] == b["t"] and not want:
        for f in dataclasses.fields(x):
            vx, vy = getattr(x, f.name), getattr(y, f.name)
            if f.name == "header" or vx is vy or nan or vx == vy:
                continue
            with lib("dataclasses.replace with a field"):
                z = dataclasses.replace(x, **{f.name: vy})
                expect(getattr(z, f.name) == vy and z != x, f"replace did not replace {f.name}")
                expect(all(getattr(z, g.name) == getattr(x, g.name) for g in dataclasses.fields(x)
                           if g.name != f.name), f"replacing {f.name} changed another field")
                m.check_object(x, a)
        rec.hit("one difference")
    with lib("logging a copy"):
        data = log_of([copy.deepcopy(x), pickle.loads(pickle.dumps(x)), y])
    w = m.Written(data)
    m.match_stream(w.stream(), [ra, ra, rb], aligned=False)
    rec.label(a["t"])
    if want:
        rec.hit("equal")
    assert hy is None and fail

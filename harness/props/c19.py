"""C19: encoding and writing leave objects alone and fix the content at write time."""
import dataclasses
import random
import struct

from hypothesis import strategies as st

from .. import gen, model as m, session
from . import c23
from ..core import Search, Sweep, expect, lib, mix
from ..vb import BlfReader, BlfWriter, Sink, Source, attrs, construct, decode, klass, read_all, same_objects

META = {
    "level": "exploration",
    "technique": "model-based testing: histories of encode, write and change over shared objects against recorded values",
    "rule": "Histories: a pool of library objects and steps write, encode, change in place (every attribute, also"
            " nested ones and the header, takes the values of another object of the kind), change a list element,"
            " swap; the closed file must hold the values each object had when it was written, and after every"
            " encode or write all objects must be unchanged to the last attribute and type (payloads are also"
            " given as bytearrays)."
            " Twins: equal bytes are decoded repeatedly (directly, through readers); one copy is changed"
            " everywhere, the others must keep every value.  Non-trivial: an object is changed after it was"
            " written or a twin is changed.",
    "assumptions": ["objects are changed through their public attributes"],
}


@st.composite
def histories(draw):
    n = draw(st.integers(1, 4))
    pool = []
    for _ in range(n):
        k = draw(st.one_of(st.sampled_from(gen.KIND_LIST), st.just(None)))
        if k is None:
            pool.append([draw(gen.opaque(gen.sizes(600))) for _ in range(2)])
        else:
            pool.append(draw(st.lists(gen.kind_object(k, gen.sizes(600), overrides=1), min_size=2, max_size=3)))
            if draw(st.booleans()):
                near = [x for x in c23.mutations(pool[-1][0]) if c23.ok(x)]
                pool[-1][1] = near[draw(st.integers(0, len(near) - 1))]
    step = st.one_of(
        st.tuples(st.just("w"), st.integers(0, n - 1)),
        st.tuples(st.just("w"), st.integers(0, n - 1)),
        st.tuples(st.just("p"), st.integers(0, n - 1)),
        st.tuples(st.just("m"), st.integers(0, n - 1), st.integers(0, 2)),
        st.tuples(st.just("m"), st.integers(0, n - 1), st.integers(0, 2)),
    )
    ops = [list(x) for x in draw(st.lists(step, min_size=1, max_size=16))]
    total = 16 * max(m.osize(v) for p in pool for v in p)
    return {"pool": pool, "ops": ops, "lv": draw(gen.levels), "buf": draw(gen.buffer_for(total)),
            "via": draw(st.integers(0, 1)), "end": draw(st.booleans()), "ba": draw(st.integers(0, 3)) == 0}


@st.composite
def twins(draw):
    a = draw(st.one_of(gen.any_kind_object(), gen.opaque(gen.sizes(600))))
    return {"a": a, "n": draw(st.integers(2, 4)), "which": draw(st.integers(0, 3)),
            "how": draw(st.sampled_from(["unpack", "reader", "readers", "construct"]))}


def sweep(tier):
    from . import codec

    for i, k in enumerate(m.KINDS.values()):
        vs = list(codec.variants(k))
        for j, o in enumerate(vs):
            for how in ("unpack", "reader", "readers", "construct"):
                for which in (0, 1):
                    yield {"a": o, "n": 2, "which": which, "how": how}
            for buf in (1 << 17, 50):
                for ops in ([["w", 0], ["m", 0, 1], ["w", 0], ["m", 0, 0], ["w", 0]],
                            [["w", 0], ["w", 0], ["p", 0], ["w", 0]],
                            [["p", 0], ["m", 0, 1], ["p", 0], ["w", 0], ["p", 0], ["w", 1], ["m", 1, 1], ["w", 1]]):
                    yield {"pool": [[o, codec.ramp(k)], [codec.ramp(k), o]], "ops": ops, "lv": mix(i, j, ops) % 10, "buf": buf,
                           "via": mix(i, j, ops, 1) & 1, "end": bool(mix(i, j, ops, 2) & 1)}
                    yield {"pool": [[o, codec.ramp(k)], [codec.ramp(k), o]], "ops": ops, "lv": mix(i, j, ops, 3) % 10, "buf": buf,
                           "via": mix(i, j, ops, 4) & 1, "end": bool(mix(i, j, ops, 5) & 1), "ba": True}
    i = 0
    for k in m.KINDS.values():  # changes of a single field, also of the header
        for o in codec.variants(k)[1:]:
            for one in c23.mutations(o):
                if c23.ok(one):
                    i += 1
                    yield {"pool": [[o, one]], "ops": [["p", 0], ["w", 0], ["m", 0, 1], ["p", 0], ["w", 0], ["m", 0, 0], ["w", 0]],
                           "lv": 0, "buf": (1 << 17, 60)[mix(i) % 2], "via": mix(i, 1) & 1, "end": True, "ba": mix(i, 2) % 3 == 0}
    for j in range(3):
        u = [session.opaque_of(40 + j), session.opaque_of(57)]
        yield {"pool": [u], "ops": [["w", 0], ["m", 0, 1], ["w", 0], ["m", 0, 0], ["w", 0]], "lv": 0, "buf": 1 << 17,
               "via": j & 1, "end": True}
        yield {"a": u[0], "n": 3, "which": j, "how": ["unpack", "reader", "construct"][j]}


def stir_sweep(tier):
    from . import codec

    rnd = random.Random(19)
    for i in range(1500 if tier == "quick" else 60000):
        pool = []
        for _ in range(rnd.randrange(1, 6)):
            k = rnd.choice(session.KINDS)
            pool.append([session.opaque_of(16 + session.logint(rnd, 12)) if k.code % 9 == 0 else codec.row(k, rnd) for _ in range(3)])
            if rnd.random() < 0.3:
                pool.append([dict(o) for o in pool[-1]])  # equal, but another object
        ops = []
        for _ in range(session.logint(rnd, 6)):
            o = rnd.choice("wwwppmmm")
            ops.append([o, rnd.randrange(len(pool))] + ([rnd.randrange(3)] if o == "m" else []))
        yield {"pool": pool, "ops": ops, "lv": rnd.randrange(10), "buf": session.logint(rnd, 18), "via": rnd.randrange(2),
               "end": rnd.random() < 0.5, "ba": rnd.random() < 0.25}


def sweeps():
    return [Sweep("every kind", sweep), Sweep("stir", stir_sweep)]


def searches():
    return [Search("histories", histories(), 3000, 300000), Search("twins", twins(), 3000, 300000)]


def snap(x):
    """Deep value of a library object, with types; NaN-proof."""
    if dataclasses.is_dataclass(x):
        return (type(x).__name__, [(k, snap(v)) for k, v in sorted(attrs(x).items())])
    if isinstance(x, float):
        return ("float", struct.pack("<d", x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(i) for i in x])
    if isinstance(x, bytearray):
        return ("bytearray", bytes(x))
    return (type(x).__name__, x)


def morph(dst, src):
    """Give *dst* the values of *src* without replacing nested objects."""
    for k, v in attrs(src).items():
        old = getattr(dst, k)
        if dataclasses.is_dataclass(old) and type(old) is type(v):
            morph(old, v)
        elif isinstance(old, list) and isinstance(v, list):
            old[:] = v
        else:
            setattr(dst, k, v)


def scramble(x):
    """Change every attribute to something else, in place and deeply."""
    for k, v in attrs(x).items():
        if dataclasses.is_dataclass(v):
            scramble(v)
        elif isinstance(v, list):
            for i in range(len(v)):
                v[i] = -7
            v.append(99)
        elif isinstance(v, bytearray):
            v[:] = b"\xaa" * (len(v) + 3)
        elif isinstance(v, bytes):
            setattr(x, k, b"\xaa" + v)
        elif isinstance(v, str):
            setattr(x, k, "~" + v)
        elif isinstance(v, int):
            setattr(x, k, ~int(v))
        else:
            setattr(x, k, None)


def mutable(o):
    """Replace immutable payloads by equal bytearrays."""
    for k, v in attrs(o).items():
        if type(v) is bytes:
            setattr(o, k, bytearray(v))
    return o


def encode_pure(o, mo, what):
    before = snap(o)
    with lib(f"{what}: encoding"):
        raw = o.pack()
        first = bytes(raw)
        if isinstance(raw, bytearray):
            raw[:] = b"\xee" * len(raw)
        second = o.pack()
    expect(first == m.encode(mo), f"{what}: encoding differs from the object's values")
    expect(bytes(second) == first, f"{what}: second encoding differs from the first")
    expect(snap(o) == before, f"{what}: encoding changed the object")


def check(name, case, rec):
    if "a" in case:
        check_twins(case, rec)
        return
    made = construct if case["via"] else decode

    def make(o):
        return mutable(made(o)) if case.get("ba") and o["t"] != "OPAQUE" else made(o)

    with lib("preparing objects"):
        objs = [make(p[0]) for p in case["pool"]]
        alts = [[make(v) for v in p] for p in case["pool"]]
    now = [p[0] for p in case["pool"]]
    want = []
    with lib("opening"):
        sink = Sink()
        w = BlfWriter(sink, compression_level=case["lv"], buffer_size=case["buf"])
    written, changed = set(), False
    for op in case["ops"]:
        i = op[1] % len(objs)
        if op[0] == "w":
            before = [snap(o) for o in objs]
            with lib("writing"):
                w.write(objs[i])
            expect([snap(o) for o in objs] == before, "writing changed an object")
            want.append(now[i])
            if i in written:
                rec.label("written again")
            written.add(i)
        elif op[0] == "p":
            encode_pure(objs[i], now[i], m_desc(now[i]))
        else:
            j = op[2] % len(alts[i])
            with lib("changing an object"):
                morph(objs[i], make(case["pool"][i][j]))
            now[i] = case["pool"][i][j]
            changed = changed or i in written
            m.check_object(objs[i], now[i])
    if case["end"]:
        for o in objs:
            scramble(o)
        changed = changed or bool(written)
    with lib("closing"):
        w.close()
    same_objects(read_all(sink.content, len(want)), want, "file written from a history of changes")
    m.match_stream(m.Written(sink.content).stream(), [m.encode(o) for o in want], aligned=False)
    if changed:
        rec.hit("changed after it was written")


def m_desc(o):
    return o["t"]


def check_twins(case, rec):
    a, n = case["a"], case["n"]
    raw = m.encode(a)
    how = case["how"]
    with lib(f"{a['t']}: decoding"):
        if how == "unpack":
            objs = [klass(a).unpack(raw) for _ in range(n)]
        elif how == "construct":
            objs = [construct(a) for _ in range(n)]
        else:
            sink = Sink()
            w = BlfWriter(sink, 0, 1 << 20)
            first = decode(a)
            for _ in range(n):
                w.write(first)
            w.close()
            if how == "reader":
                objs = list(BlfReader(Source(sink.content)))
            else:
                objs = [BlfReader(Source(sink.content)).read_object() for _ in range(n)]
    which = case["which"] % n
    for i, o in enumerate(objs):
        m.check_object(o, a)
        for p in objs[i + 1 :]:
            expect(o is not p, f"{a['t']}: decoding equal bytes twice gives the same object")
    for o in objs:
        encode_pure(o, a, a["t"])
    scramble(objs[which])
    for i, o in enumerate(objs):
        if i != which:
            try:
                m.check_object(o, a)
            except m.Mismatch as e:
                expect(False, f"{a['t']}: changing one object changed another decoded from equal bytes: {e}")
            encode_pure(o, a, a["t"])
    with lib(f"{a['t']}: decoding again"):
        again = klass(a).unpack(raw)
    try:
        m.check_object(again, a)
    except m.Mismatch as e:
        expect(False, f"{a['t']}: changing an object changed what is decoded later: {e}")
    rec.hit("twins by " + how)
    rec.label(a["t"])

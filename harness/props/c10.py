"""C10: truncated logs."""
import random

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, Violation, expect, fail
from ..vb import BlfReader, Source, drain, same_objects
from . import c02

META = {
    "level": "fault_enumeration",
    "technique": "property-based testing: generated logs cut at enumerated byte positions, prefix oracle",
    "rule": "One case = a generated log (independent builder or the library's writer) and cut positions;"
            " sweeps cut fixed logs at every byte, the search cuts random logs near every structural border"
            " and at random places.  Every cut is one evaluation: the truncated file must yield an unaltered"
            " prefix holding every object complete before the cut, then end; cuts inside the file header"
            " must raise ValueError.  Non-trivial: at least one cut loses part of the objects.",
    "assumptions": [],
}


def fixed():
    T, U, K = c02.TXT, c02.UNK, c02.CAN
    big = session.opaque_of(700, fill=b"LOBJ\0")
    tiny = [session.opaque_of(n, fill=b"OBJ") for n in (17, 16, 18, 20, 31, 33)]
    for lv in (0, 6):
        yield {"level": lv, "segs": [c02.seg([K, T, U, K, big, K], [30, 33, 100, 103, 400], [b"", b"\0\0"],
                                             b"\0", pad=[b"", b"\0\0\0", b"LO"])], "tail": b"\0\0"}
        yield {"level": lv, "segs": [{"k": "bare", "objs": [K, T], "fill": [b"LOB", b""]},
                                     c02.seg([U, K, U], [20, 20, 60], store=[1, 0, 1]),
                                     {"k": "bare", "objs": [U, K], "fill": []}], "tail": b"LOB"}
        yield {"level": lv, "segs": [c02.seg([K] * 12, list(range(17, 580, 17)), hs=32)], "tail": b""}
        yield {"level": lv, "segs": [], "tail": b"\0\0\0\0\0"}
        inner = [session.opaque_of(n, fill=m.encode(x)) for n, x in ((32 + m.osize(K), K), (250, K), (150, U))]
        yield {"level": lv, "segs": [{"k": "bare", "objs": [*inner, K, *inner], "fill": []}, c02.seg(inner, [40, 130, 200])], "tail": b""}
        yield {"level": lv, "segs": [c02.seg([x for t in tiny for x in (t, t)], [16 + 17 * j for j in range(14)]), {"k": "bare", "objs": tiny, "fill": []}], "tail": b""}


def large():
    """Logs with objects and containers of many KiB: (spec, step between the cuts)."""
    K = c02.CAN
    for lv in (0, 6):
        for n, size, cuts in ((40, 1000, []), (40, 1000, [9000, 30000]), (12, 6000, [40, 20000]), (3, 70000, [100000]), (2, 1200000, [700000]),
                              (30, 4500, list(range(5000, 130000, 5000)))):
            body = [{**session.opaque_of(size + i), "body": noise(size + i - 32, i)} for i in range(n)]
            objs = [x for b in body for x in (b, K)]
            total = sum(map(m.osize, objs))
            yield {"level": lv, "segs": [c02.seg(objs, cuts), {"k": "bare", "objs": body[:3], "fill": []},
                                         c02.seg([K, body[-1], K], [])], "tail": b""}, max(97, total // 350)


def noise(n, seed):
    return random.Random(seed).randbytes(n)


def large_sweep(tier):
    for i, (spec, step) in enumerate(large()):
        n = len(m.build_file(spec)[0])
        cuts = sorted({*range(150 + i, n, step), *range(n - 12, n + 1), *(4096 * j + d for j in range(n // 4096 + 1) for d in (-1, 0, 1))})
        for a in range(0, len(cuts), 60):
            yield {"spec": spec, "cuts": [c for c in cuts[a : a + 60] if 0 <= c <= n]}


def sweep(tier):
    for spec in fixed():
        n = len(m.build_file(spec)[0])
        for a in range(0, n + 1, 40):
            yield {"spec": spec, "cuts": list(range(a, min(a + 40, n + 1)))}
    for i, s in enumerate(session.kind_sweep(tier)):
        if i % 5 in (2, 3):
            yield {"sess": s, "cuts": [144 + 7 * j for j in range(60)]}


@st.composite
def cases(draw):
    if draw(st.integers(0, 3)):
        spec = draw(gen.file_spec(6))
        data = m.build_file(spec)[0]
        c = {"spec": spec}
    else:
        c = {"sess": draw(session.sessions(8, tgt=False))}
        data = session.run(c["sess"])[0]
    marks = [144, len(data)]
    p = data.find(b"LOBJ", 144)
    while p >= 0 and len(marks) < 400:
        marks.append(p)
        size = int.from_bytes(data[p + 8 : p + 12], "little")
        marks.append(min(p + size, len(data)))
        p = data.find(b"LOBJ", p + 4)
    near = st.builds(lambda b, d: min(max(0, b + d), len(data)), st.sampled_from(marks),
                     st.integers(-6, 40))
    c["cuts"] = draw(st.lists(st.one_of(near, near, st.integers(144, max(144, len(data)))), min_size=1,
                              max_size=16, unique=True))
    return c


def stir_sweep(tier):
    rnd = random.Random(10)
    for i in range(700 if tier == "quick" else 20000):
        spec = session.stir_file(i + (1 << 20), 10, 5)
        n = len(m.build_file(spec)[0])
        yield {"spec": spec, "cuts": sorted({rnd.randrange(144, n + 1) for _ in range(12)})}


def sweeps():
    return [Sweep("every byte", sweep), Sweep("stir", stir_sweep), Sweep("large", large_sweep)]


def searches():
    return [Search("random", cases(), 1800, 150000)]


def ready_of_written(data, mo):
    """Offsets at which each object is complete in a file made by the writer (strict parser)."""
    w = m.Written(data)
    raws = [m.encode(o) for o in mo]
    m.match_stream(w.stream(), raws, aligned=False)
    parts = w.payloads()
    ends, pos, stream = [], 0, b"".join(parts)
    for r in raws:
        while stream[pos] == 0:
            pos += 1
        pos += len(r)
        ends.append(pos)
    ready, done, j = [], 0, 0
    borders = []
    for (_o, _m, _u, _s, end), p in zip(w.containers, parts):
        done += len(p)
        borders.append((done, end))
    for e in ends:
        while borders[j][0] < e:
            j += 1
        ready.append(borders[j][1])
    return ready


def check_cut(data, objs, ready, cut, what=""):
    part = data[:cut]
    what = f"{what}cut at {cut} of {len(data)}"
    if cut < 144:
        try:
            BlfReader(Source(part))
        except ValueError:
            return None
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{what}: {type(e).__name__} instead of ValueError: {e}") from e
        fail(f"{what}: accepted a file cut inside its header")
    got = []
    try:
        r = BlfReader(Source(part))
        got = drain(r, len(objs))
        expect(r.read_object() is None, f"{what}: an object after the end")
    except Violation as e:
        raise Violation(f"{what}: {e}") from None
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: {type(e).__name__}: {e}") from e
    same_objects(got, objs, what, prefix=True)
    need = sum(1 for x in ready if x <= cut)
    expect(len(got) >= need, f"{what}: {len(got)} objects, {need} are complete before the cut")
    return len(got)


def check(name, case, rec):
    if "spec" in case:
        data, objs, ready = m.build_file(case["spec"])
        lv = case["spec"]["level"]
    else:
        data, _lo, objs = session.run(case["sess"])
        ready = ready_of_written(data, objs)
        lv = case["sess"]["lv"]
        rec.label("written by the library")
    rec.count = 0
    for cut in case["cuts"]:
        if cut > len(data):
            continue
        n = check_cut(data, objs, ready, cut)
        rec.count += 1
        if n is None:
            rec.label("inside file header")
        elif n < len(objs):
            rec.hit("some objects lost")
            if n:
                rec.label("some objects kept")
    rec.label("compressed" if lv else "uncompressed")

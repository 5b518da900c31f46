"""Hypothesis strategies that produce plain-data cases."""
import ast
import functools
import os
import pathlib
import random

from hypothesis import strategies as st

from . import model as m

SRC = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")) / "src" / "vblf"


@functools.lru_cache(None)
def dictionary():
    """Integer and text constants found in the code under test (AFL-style auto dictionary).

    Only guides generation; no verdict depends on it."""
    ints, texts = set(), set()
    for f in sorted(SRC.rglob("*.py")):
        try:
            tree = ast.parse(f.read_bytes())
        except (SyntaxError, ValueError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if type(n.value) is int and 0 <= n.value < 1 << 64:
                    ints.add(n.value)
                elif type(n.value) is bytes and 0 < len(n.value) <= 16:
                    texts.add(n.value)
            elif isinstance(n, ast.BinOp):
                try:
                    val = eval(compile(ast.Expression(n), "", "eval"), {"__builtins__": {}})
                except Exception:  # noqa: BLE001 - not a constant expression
                    continue
                if type(val) is int and 0 <= val < 1 << 64:
                    ints.add(val)
    return sorted(ints), sorted(texts)


@functools.lru_cache(None)
def edge(bits):
    top = (1 << bits) - 1
    s = {0, 1, 2, top, top - 1, top >> 1, (top >> 1) + 1}
    s |= {1 << i for i in range(bits)} | {(1 << i) - 1 for i in range(bits)}
    s |= {v for v in (7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 48, 63, 64, 65, 99, 100, 127, 128, 144,
                      200, 255, 256, 1000, 4095, 4096, 65535, 65536, 0x4A424F4C) if v <= top}
    for c in dictionary()[0]:
        s |= {v for v in (c - 1, c, c + 1) if 0 <= v <= top}
    return sorted(s)


@functools.lru_cache(None)
def uint(bits):
    top = (1 << bits) - 1
    return st.one_of(st.sampled_from(edge(bits)), st.integers(0, top))


@functools.lru_cache(None)
def sizes(limit, small=24):
    """Payload lengths: mostly small, with every interesting boundary reachable."""
    pts = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512,
           513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65534,
           65535, 65536, 65537, 70000, 131071, 131072, 131073, 200000, 262144, 300001}
    for c in dictionary()[0]:
        pts |= {c - 1, c, c + 1, c - 48, c - 32, c - 64}
    pts = sorted(p for p in pts if 0 <= p <= limit)
    parts = [st.integers(0, min(small, limit)), st.integers(0, min(small, limit)),
             st.sampled_from([p for p in pts if p <= 600]), st.integers(0, min(300, limit))]
    if limit > 600:
        parts.append(st.sampled_from([p for p in pts if p <= 5000]))
    return st.one_of(*parts)


@functools.lru_cache(None)
def big_sizes(limit):
    pts = [p for p in (4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131071,
                       131072, 131073, 200000, 262144, 300001) if p <= limit]
    for c in dictionary()[0]:
        pts += [v for v in (c - 1, c, c + 1) if 4000 <= v <= limit]
    return st.sampled_from(sorted(set(pts)))


_CAN = m.encode({"t": "CAN_MESSAGE", "h": [1, 2, 0, 0, 5],
                 "v": {"channel": 1, "flags": 0, "dlc": 8, "frame_id": 0x123, "data": b"LOBJLOBJ"}})
_CONT = m.container(_CAN, 0, len(_CAN))
PATTERNS = [b"\0", b"\xff", b"LOBJ", b"LOB", b"\0LOBJ", b"L", b"JBOL", b"LOGG", _CAN, _CAN[:20],
            _CONT, bytes(range(256)), b"A", b"\0\xff"]


@functools.lru_cache(None)
def pattern():
    pats = list(PATTERNS) + [t for t in dictionary()[1] if t not in PATTERNS]
    return st.one_of(st.sampled_from(pats), st.binary(min_size=1, max_size=8))


@st.composite
def payload(draw, size):
    n = draw(size) if not isinstance(size, int) else size
    if n <= 80 and draw(st.booleans()):
        return draw(st.binary(min_size=n, max_size=n))
    return ["pat", draw(pattern()), n]


CP_EDGE = "\0\x01 az~\x7f\u20ac\u0160\u0178\u0192\u2122\xa0\xad\xe4\xff\r\n"


@st.composite
def text1252(draw, size):
    n = draw(size) if not isinstance(size, int) else size
    if n <= 40 and draw(st.booleans()):
        return draw(st.text(alphabet=st.sampled_from(m.CP1252), min_size=n, max_size=n))
    return ["pat", draw(st.text(alphabet=st.one_of(st.sampled_from(CP_EDGE),
                                                   st.sampled_from(m.CP1252)),
                                min_size=1, max_size=4)), n]


@st.composite
def text_utf8(draw, size):
    n = draw(size) if not isinstance(size, int) else size
    alpha = st.one_of(st.characters(exclude_categories=["Cs"]),
                      st.sampled_from("a\0\x7f\x80\u07ff\u0800\uffff\U00010000\U0010ffff\u20ac"))
    if n <= 40 and draw(st.booleans()):
        return draw(st.text(alphabet=alpha, min_size=n, max_size=n))
    return ["pat", draw(st.text(alphabet=alpha, min_size=1, max_size=3)), n]


def from_raw(kind, raw):
    """Field values of a kind from raw bytes; coded fields are folded onto valid codes."""
    v, pos = {}, 0
    for n, c, e in kind.fields:
        w = m.csize(c)
        v[n] = fold(c, e, m.cunpack(c, raw[pos : pos + w]))
        pos += w
    for d in kind.derived:
        v.pop(d, None)
    return v


def fold(code, enum, val):
    if enum in m.ENUMS:
        codes = sorted(m.ENUMS[enum].values())
        return val if val in codes else codes[val % len(codes)]
    if code == "d":
        return quiet(val)
    return val


def quiet(bits):
    """Make a signalling NaN quiet (the platform may do the same when moving doubles)."""
    if bits & 0x7FF0000000000000 == 0x7FF0000000000000 and bits & 0xFFFFFFFFFFFFF:
        bits |= 0x8000000000000
    return bits


def raw_block(n):
    return st.one_of(
        st.binary(min_size=n, max_size=n),
        st.sampled_from([b"\0", b"\xff", b"\x01", b"\x80", b"\x7f", b"LOBJ", bytes(range(1, 252))])
        .map(lambda p: (p * (n // len(p) + 1))[:n]),
    )


@functools.lru_cache(None)
def field_value(code, enum):
    if enum in m.ENUMS:
        return st.sampled_from(sorted(m.ENUMS[enum].values()))
    if code == "h":
        return st.one_of(st.sampled_from([-32768, -1, 0, 1, 32767, 0x7999]),
                         st.integers(-32768, 32767))
    if code == "d":
        return st.one_of(st.sampled_from([0, 1 << 63, 0x3FF0000000000000, 0x7FF0000000000000,
                                          0x7FF8000000000000, 1, 0xFFF8000000000001]),
                         st.integers(0, (1 << 64) - 1)).map(quiet)
    if code[:-1].isdigit():
        cnt = int(code[:-1])
        if code[-1] == "s":
            return raw_block(cnt)
        w = {"I": 32, "Q": 64}[code[-1]]
        return st.lists(uint(w), min_size=cnt, max_size=cnt)
    return uint({"B": 8, "H": 16, "I": 32, "Q": 64}[code])


@functools.lru_cache(None)
def header():
    return st.one_of(
        st.just([1, 2, 0, 0, 0]),
        st.binary(min_size=18, max_size=18).map(
            lambda b: [int.from_bytes(b[:2], "little"), int.from_bytes(b[2:6], "little"),
                       int.from_bytes(b[6:8], "little"), int.from_bytes(b[8:10], "little"),
                       int.from_bytes(b[10:], "little")]),
        st.tuples(uint(16), uint(32), uint(16), uint(16), uint(64)).map(list),
    )


@st.composite
def kind_object(draw, kind, size=None, overrides=3, tz=True):
    """An object of one kind; *size* is a strategy for variable-length parts."""
    size = size if size is not None else sizes(5000)
    o = {"t": kind.name, "h": draw(header()), "v": from_raw(kind, draw(raw_block(kind.size)))}
    free = [f for f in kind.fields if f[0] not in kind.derived]
    if overrides and free:
        for i, f in enumerate(draw(st.lists(st.sampled_from(free), max_size=overrides))):
            o["v"][f[0]] = draw(field_value(f[1], f[2]))
    zt = 0
    if tz and kind.name in m.ZERO_TAIL_OK and draw(st.integers(0, 5)) == 0:
        zt = draw(st.integers(1, 12))
    t = kind.name
    if t in ("CAN_FD_MESSAGE_64", "CAN_FD_ERROR_64"):
        fixed = m.HDR + kind.size
        mode = draw(st.sampled_from([None, "room", "room", "noroom", "beyond"]))
        err = t == "CAN_FD_ERROR_64"
        if mode is None:
            o["data"] = draw(payload(draw(st.integers(0, 255)) if err else size))
            if not err:
                zt = 0
        else:
            room = 255 - fixed - 1
            n = draw(st.one_of(st.integers(0, min(64, room)), st.integers(0, room)))
            o["data"] = draw(payload(n))
            if err and mode != "beyond" and draw(st.booleans()):
                o["gap"] = draw(st.integers(0, min(8, room - n)))
            if mode == "beyond":
                o["over"] = draw(st.integers(0, room - n))
                zt = 0 if not err else min(zt, 0)
            if mode == "noroom":
                zt = min(zt, 7)
        if err and mode in (None, "beyond") and zt == 0 and len(m.B(o["data"])) < 255:
            if draw(st.integers(0, 3)) == 0:
                o["miss"] = draw(st.integers(0, 255 - len(m.B(o["data"]))))
        o["ext"] = mode
        if mode == "room":
            o["btr"] = [draw(uint(32)), draw(uint(32))]
    elif t == "LIN_MESSAGE2":
        o["rev"] = draw(st.sampled_from([3, 3, 2, 1]))
        zt = min(zt, {1: 3, 2: 15, 3: 12}[o["rev"]])
    elif t in ("FR_RCVMESSAGE_EX", "ETHERNET_FRAME_EX"):
        lim = 65535
        n = draw(st.one_of(size, st.integers(0, 300)))
        n = min(n, lim)
        o["data"] = draw(payload(n))
        if draw(st.integers(0, 3)) == 0:
            o["miss"] = draw(st.one_of(st.integers(0, min(20, lim - n)), st.integers(0, lim - n)))
            if o["miss"]:
                zt = 0
    else:
        for s in m.STRINGS.get(t, ()):
            o[s] = draw(text_utf8(size) if t == "DIAG_REQUEST_INTERPRETATION" else text1252(size))
        if t == "APP_TEXT":
            o["term"] = draw(st.sampled_from([True, True, False]))
            if not o["term"] and m.T(o["text"]).endswith("\0"):
                o["term"] = True
        elif t in m.DATA_TAIL:
            o["data"] = draw(payload(size))
    if zt:
        o["tz"] = zt
    return o


@st.composite
def opaque(draw, size=None):
    size = size if size is not None else sizes(5000)
    code = draw(st.one_of(
        st.sampled_from([c for c in range(129) if c not in m.IMPLEMENTED and c != 10]),
        st.sampled_from([129, 130, 131, 255, 256, 257, 65535, 65536, 0x7FFFFFFF, 0xFFFFFFFF,
                         0x10001, 0x0101]),
        uint(32).filter(lambda c: c not in m.IMPLEMENTED and c != 10)))
    return {"t": "OPAQUE", "code": code, "hs": draw(st.one_of(st.sampled_from([32, 16, 40, 0, 24, 65535]), uint(16))),
            "hv": draw(st.one_of(st.sampled_from([1, 2, 0, 65535]), uint(16))), "body": draw(payload(size))}


KIND_LIST = list(m.KINDS.values())


def row_object(name, seed):
    """An object with few, small, related values (see codec.row)."""
    from .props import codec

    return codec.row(m.KINDS[name], random.Random(seed))


@functools.lru_cache(None)
def any_kind_object(big=False):
    size = st.one_of(sizes(5000), sizes(5000), big_sizes(300001)) if big else sizes(5000)
    return st.one_of(st.sampled_from(KIND_LIST).flatmap(lambda k: kind_object(k, size, overrides=1)),
                     st.builds(row_object, st.sampled_from(sorted(m.KINDS)), st.integers(0, 1 << 20)))


@functools.lru_cache(None)
def stream_object(big=False):
    """Objects for file-level properties: cheap to draw, rich in sizes and contents."""
    size = sizes(600)
    var = [m.KINDS[n] for n in ("APP_TEXT", "SYS_VARIABLE", "EVENT_COMMENT", "ETHERNET_FRAME_EX",
                                "FR_RCVMESSAGE_EX", "ENV_DATA", "GLOBAL_MARKER", "FUNCTION_BUS",
                                "TRIGGER_CONDITION", "CAN_FD_MESSAGE_64", "ENV_STRING",
                                "DIAG_REQUEST_INTERPRETATION")]
    parts = [
        opaque(size),
        st.sampled_from(KIND_LIST).flatmap(lambda k: kind_object(k, size, overrides=0)),
        st.sampled_from(var).flatmap(lambda k: kind_object(k, size, overrides=0)),
        st.builds(row_object, st.sampled_from(sorted(m.KINDS)), st.integers(0, 1 << 20)),
        st.builds(lambda ts, fid, d: {"t": "CAN_MESSAGE", "h": [1, 2, 0, 0, ts],
                                      "v": {"channel": 1, "flags": 0, "dlc": 8, "frame_id": fid,
                                            "data": d}},
                  st.integers(0, 1 << 40), st.integers(0, 0x7FF),
                  st.sampled_from([bytes(8), b"LOBJLOBJ", b"\xff" * 8, b"12345LOB"])),
    ]
    if big:
        parts.append(opaque(big_sizes(300001)))
        parts.append(st.sampled_from([m.KINDS["SYS_VARIABLE"], m.KINDS["APP_TEXT"]]).flatmap(
            lambda k: kind_object(k, st.one_of(st.integers(0, 20), big_sizes(140000)), overrides=0)))
    return st.one_of(*parts)


def objects(min_size=0, max_size=12, big=False):
    return st.lists(stream_object(big), min_size=min_size, max_size=max_size)


levels = st.one_of(st.sampled_from([0, 1, 6, 9]), st.integers(0, 9))


@st.composite
def buffer_for(draw, total, max_containers=1500):
    """A buffer size that is interesting for *total* bytes of objects."""
    lo = max(1, total // max_containers)
    opts = [st.integers(1, 64), st.integers(1, 600), st.sampled_from([128 * 1024, 1 << 20]),
            st.integers(1, max(2, total)),
            st.sampled_from(sorted({max(1, v) for v in (
                total - 8, total - 1, total, total + 1, total + 8, total // 2, total // 2 + 1,
                total // 3, 8, 16, 32, 48, 64, 128, 256, 512, 1024)}))]
    for c in dictionary()[0]:
        if 2 <= c <= 1 << 22:
            opts[2] = st.one_of(opts[2], st.just(c)) if c in (4096, 8192, 65536) else opts[2]
    return max(lo, draw(st.one_of(*opts)))


def stream_sizes(objs):
    return sum((m.osize(o) + 7) // 8 * 8 for o in objs)


filler = st.one_of(
    st.just(b""), st.just(b""),
    st.integers(0, 9).map(lambda n: bytes(n)),
    st.sampled_from([b"L", b"LO", b"LOB", b"LLOB", b"LOLOB", b"LOBLOB", b"\0LOB", b"OBJ", b"lobj",
                     b"\xff" * 5, b"\0" * 17, b"LOGG", b"\x4a\x42\x4f\x4c", b"\0" * 64]),
    st.binary(max_size=12),
    st.sampled_from([15, 16, 31, 33, 100, 300]).map(lambda n: ["pat", b"\0L", n]),
)


@st.composite
def run_segment(draw, objs, level, max_cuts=6):
    fills = draw(st.lists(filler, max_size=len(objs)))
    end = draw(filler)
    # cut positions: near object starts/ends or anywhere
    pos, marks = 0, [0]
    for i, o in enumerate(objs):
        pos += len(m.clean_filler(m.B(fills[i]))) if i < len(fills) else 0
        marks.append(pos)
        pos += m.osize(o)
        marks.append(pos)
    total = pos + len(m.B(end))
    near = st.builds(lambda b, d: max(0, b + d) % (total + 1), st.sampled_from(marks),
                     st.one_of(st.integers(-5, 36), st.integers(-20, 20)))
    cuts = draw(st.lists(st.one_of(near, near, st.integers(0, total)), max_size=max_cuts))
    if draw(st.integers(0, 7)) == 0 and total:
        # regular slicing into small pieces, at most ~400 containers
        step = draw(st.integers(max(1, total // 400), max(1, total // 400) + 40))
        cuts = list(range(step, total, step))
    seg = {"k": "run", "objs": objs, "fill": fills, "end": end, "cuts": cuts,
           "pad": draw(st.lists(filler, max_size=4)), "hs": draw(st.sampled_from([16, 32]))}
    if draw(st.booleans()):
        seg["store"] = draw(st.lists(st.integers(0, 1), max_size=6))
    if level:
        seg["lv"] = draw(st.sampled_from([min(level, 9), 1, 9, 0]))
        if draw(st.integers(0, 3)) == 0:
            seg["z"] = draw(zlib_form)
    if draw(st.integers(0, 3)) == 0:
        seg["spare"] = [draw(uint(16)), draw(uint(32)), draw(uint(32))]
        seg["hv"] = draw(st.sampled_from([1, 1, 0, 2, 65535]))
    return seg


zlib_form = st.tuples(st.integers(9, 15), st.integers(1, 9), st.integers(0, 4), st.sampled_from([0, 0, 1, 7, 100, 4096]),
                      st.integers(0, 2)).map(list)


@st.composite
def file_spec(draw, max_objs=10, big=False, bare=True, hdr=True):
    level = draw(levels)
    if level and draw(st.integers(0, 9)) == 0:
        level = draw(st.integers(10, 255))  # of a writer with levels of its own
    spec = {"level": level, "segs": []}
    for _ in range(draw(st.integers(0, 3))):
        objs = draw(objects(0, max_objs, big))
        if bare and draw(st.integers(0, 3)) == 0:
            spec["segs"].append({"k": "bare", "objs": objs,
                                 "fill": draw(st.lists(filler, max_size=len(objs)))})
        else:
            spec["segs"].append(draw(run_segment(objs, level)))
    if hdr and draw(st.booleans()):
        spec["hdr"] = draw(file_header_kwargs())
    spec["tail"] = draw(filler)
    return spec


@st.composite
def file_header_kwargs(draw):
    return {
        "api": draw(uint(32)), "app": draw(st.one_of(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 200]),
                                                     st.integers(0, 255))),
        "major": draw(uint(8)), "minor": draw(uint(8)), "fsize": draw(uint(64)),
        "usize": draw(uint(64)), "count": draw(uint(32)), "build": draw(uint(32)),
        "start": draw(st.lists(uint(16), min_size=8, max_size=8)),
        "last": draw(st.lists(uint(16), min_size=8, max_size=8)),
        "restore": draw(uint(64)), "reserved": draw(raw_block(64)),
    }

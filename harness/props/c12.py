"""C12: rejected writes leave no trace."""
import builtins
import contextlib
import random
import types

from hypothesis import strategies as st

from .. import gen, model as m, session
from ..core import Search, Sweep, Violation, expect, fail, lib
from ..vb import BlfWriter, Sink, attrs, decode, read_all, same_objects, scripted_clock

META = {
    "level": "exploration",
    "technique": "property-based testing: histories of accepted and rejected writes against a control without the rejected ones",
    "rule": "One case = a history of valid writes and writes that must be rejected (declared size off, field"
            " out of range or of a wrong type, text that cannot be encoded, length fields that disagree with"
            " the data, an encoder that raises or returns a wrong size, values that are not objects), plus"
            " writes after close.  Content, order and header statistics must equal a control session without"
            " the rejected calls (times masked; the last-object time must lie in the last accepted write)."
            "  Non-trivial: at least one rejected and one accepted write.",
    "assumptions": ["an object counts as not encodable when its own pack() raises or disagrees with its header"],
}

BAD_VALUES = [-1, 1 << 64, "x", None, 1.5, b"", [], 1 << 200]


class Interrupt(KeyboardInterrupt):
    pass


class Halt(BaseException):
    pass


RAISED = ["Overflow", "Recursion", "Assertion", "StopIteration", "GeneratorExit", "SystemExit", "Index", "Attribute",
          "Type", "Buffer", "EOF", "NotImplemented", "Lookup", "ZeroDivision", "UnicodeDecode", "Exception", "Timeout",
          "BrokenPipe", "BlockingIO", "StopAsyncIteration"]


class Custom:
    """Object whose encoder misbehaves."""

    def __init__(self, mode, sizes=None):
        self.mode = mode
        base = types.SimpleNamespace(object_size=sizes[0] if sizes else 40, object_type=22, header_size=32, header_version=1)
        self.header = types.SimpleNamespace(base=base, object_time_stamp=1)
        self.length = sizes and sizes[1]

    def pack(self):
        if self.mode == "sized":
            return b"LOBJ" * (self.length // 4) + bytes(self.length % 4)
        if self.mode in RAISED:
            if self.mode == "UnicodeDecode":
                raise UnicodeDecodeError("x", b"y", 0, 1, "z")
            raise (getattr(builtins, self.mode, None) or getattr(builtins, self.mode + "Error"))("planned")
        if self.mode == "short":
            return bytes(39)
        if self.mode == "long":
            return b"LOBJ" * 11
        if self.mode == "empty":
            return b""
        raise {"ValueError": ValueError, "struct": __import__("struct").error, "Key": KeyError,
               "Runtime": RuntimeError, "Unicode": lambda *_: UnicodeEncodeError("x", "y", 0, 1, "z"),
               "Memory": MemoryError, "OS": OSError, "Interrupt": Interrupt, "Halt": Halt}[self.mode]("planned")


def make_bad(op):
    """-> (library object that must be rejected, must it be ValueError) or None if harmless."""
    kind = op["bad"]
    if kind == "custom":
        return Custom(op["mode"], op.get("sizes")), op["mode"] in ("short", "long", "empty", "sized", "ValueError")
    if kind == "notobj":
        return {"none": None, "int": 5, "bytes": b"LOBJ", "str": "x", "object": object(), "list": []}[
            op["mode"]], False
    with lib("preparing objects"):
        obj = decode(op["obj"])
    if kind == "size":
        obj.header.base.object_size = (obj.header.base.object_size + op["delta"]) & 0xFFFFFFFF
        if obj.header.base.object_size > 1 << 20:
            return None
    elif kind == "header":
        names = ["object_time_stamp", "object_flags", "object_version"]
        n = names[op["i"] % len(names)]
        if not hasattr(obj.header, n):
            return None
        setattr(obj.header, n, BAD_VALUES[op["j"] % len(BAD_VALUES)])
    elif kind == "base":
        names = ["header_size", "header_version", "object_type", "signature"]
        setattr(obj.header.base, names[op["i"] % 4], BAD_VALUES[op["j"] % len(BAD_VALUES)])
    elif kind == "field":
        names = sorted(k for k in attrs(obj) if k != "header")
        n = names[op["i"] % len(names)]
        v = BAD_VALUES[op["j"] % len(BAD_VALUES)]
        if n.endswith("_length") or n == "ext_data_offset":
            v = -1
        setattr(obj, n, v)
    elif kind == "text":
        names = m.STRINGS.get(op["obj"]["t"])
        if not names:
            return None
        setattr(obj, names[op["i"] % len(names)],
                "\ud800" if op["obj"]["t"] == "DIAG_REQUEST_INTERPRETATION" else "ab\u0416\u4e00")
    elif kind == "grow":
        names = [n for n in (*m.STRINGS.get(op["obj"]["t"], ()), "data", "buffer", "frame_data", "data_bytes")
                 if isinstance(getattr(obj, n, None), (str, bytes))]
        if not names:
            return None
        n = names[op["i"] % len(names)]
        old = getattr(obj, n)
        setattr(obj, n, old + (b"\x77" if isinstance(old, bytes) else "w") * (1 + op["j"] % 70))
    # an object is not encodable exactly when its own encoder says so
    try:
        raw = obj.pack()
        ok = len(raw) == obj.header.base.object_size
    except Exception:  # noqa: BLE001
        return obj, False
    return None if ok else (obj, isinstance(raw, (bytes, bytearray)))


BADS = st.one_of(
    st.builds(lambda md: {"bad": "custom", "mode": md},
              st.sampled_from(["short", "long", "empty", "ValueError", "struct", "Key", "Runtime", "Unicode",
                               "Memory", "OS", "Interrupt", "Halt", *RAISED])),
    st.builds(lambda a, b: {"bad": "custom", "mode": "sized", "sizes": [a, b if a != b else b + 1]},
              st.one_of(st.integers(0, 300), st.integers(0, 1 << 32), gen.sizes(60000)), st.one_of(st.integers(0, 300), gen.sizes(60000))),
    st.builds(lambda md: {"bad": "notobj", "mode": md},
              st.sampled_from(["none", "int", "bytes", "str", "object", "list"])),
    st.builds(lambda k, o, i, j, d: {"bad": k, "obj": o, "i": i, "j": j, "delta": d},
              st.sampled_from(["size", "size", "header", "base", "field", "field", "text", "grow", "grow"]),
              gen.stream_object(), st.integers(0, 30), st.integers(0, 70),
              st.one_of(st.sampled_from([-1, 1, 8, -8, -16, 16, 4]), st.integers(-60, 60))),
)


@st.composite
def cases(draw):
    ops = draw(st.lists(st.one_of(gen.stream_object().map(lambda o: {"w": o}), BADS), min_size=1,
                        max_size=14))
    total = gen.stream_sizes([o["w"] for o in ops if "w" in o])
    return {"ops": ops, "lv": draw(gen.levels), "buf": draw(gen.buffer_for(total)),
            "late": draw(st.lists(st.one_of(gen.stream_object().map(lambda o: {"w": o}), BADS), max_size=2))}


def sweep(tier):
    from . import codec, c02

    good = [{"w": c02.CAN}, {"w": session.opaque_of(17)}, {"w": c02.TXT}]
    customs = [{"bad": "custom", "mode": x} for x in ("short", "long", "empty", "ValueError", "struct", "Key",
                                                      "Runtime", "Unicode", "Memory", "OS", "Interrupt", "Halt")]
    customs += [{"bad": "notobj", "mode": x} for x in ("none", "int", "bytes", "str", "object", "list")]
    customs += [{"bad": "custom", "mode": x} for x in RAISED]
    for b in customs:
        for buf in (1, 17, 40, 48, 64, 1 << 17):
            yield {"ops": [*good, b, b, good[1]], "lv": 0, "buf": buf, "late": [good[0], b]}
            yield {"ops": [b, *good[1:], b], "lv": 6, "buf": buf, "late": [b]}
            yield {"ops": [b], "lv": 1, "buf": buf, "late": []}
    # sizes, declared and true, up to and beyond the buffer
    sizes = [0, 1, 15, 16, 17, 32, 39, 41, 48, 100, 1000, 4096, 70000, 1 << 20]
    for decl in (*sizes, 1 << 31, (1 << 32) - 1):
        for n in sizes:
            if n != decl:
                for buf in (40, 4096, 1 << 17, 1 << 21):
                    b = {"bad": "custom", "mode": "sized", "sizes": [decl, n]}
                    yield {"ops": [*good, b, good[1], b], "lv": 1 if buf == 4096 else 0, "buf": buf, "late": [b]}
    # late in a long log
    for n in (12, 300, 2000):
        for buf in (100, 4096, 1 << 17, 1 << 21):
            for b in customs if n == 12 else customs[:6]:
                big = {"bad": "custom", "mode": "sized", "sizes": [buf, 5000]}
                yield {"ops": [*good * (n // 3), b, good[1], big, *good * (n // 6), big, b], "lv": n % 10, "buf": buf, "late": [b]}
    for k in m.KINDS.values():
        for v in codec.variants(k):
            for d in (-40, -9, -1, 1, 3, 8, 24):
                yield {"ops": [good[1], {"bad": "size", "obj": v, "i": 0, "j": 0, "delta": d}, {"w": v}],
                       "lv": 0, "buf": 50, "late": [{"w": v}]}
            for i in range(len(k.fields) + 3):
                for j in (0, 1, 2):
                    yield {"ops": [good[1], {"bad": "field", "obj": v, "i": i, "j": j, "delta": 0}, good[0]],
                           "lv": 0, "buf": 64, "late": []}
            for i in range(3):
                for kind in ("text", "grow", "header", "base"):
                    yield {"ops": [good[1], {"bad": kind, "obj": v, "i": i, "j": i * 8, "delta": 0}, good[0]],
                           "lv": 6, "buf": 4096, "late": []}


def closed_elsewhere(tier):
    from . import c02

    objs = [c02.CAN, session.opaque_of(17), c02.TXT, session.opaque_of(300)]
    for n in (0, 1, 3):
        for late in objs:
            for buf in (1, 40, 200, 1 << 17):
                for how in ("file", "file after close", "body"):
                    yield {"elsewhere": how, "objs": objs[:n], "late": late, "buf": buf, "lv": n}


def check_elsewhere(case, rec):
    """The file is closed by its owner: the writer cannot take another object."""
    sink = Sink()
    with lib("writing"):
        w = BlfWriter(sink, compression_level=case["lv"], buffer_size=case["buf"])
        for o in case["objs"]:
            w.write(decode(o))
        if case["elsewhere"] == "file after close":
            w.close()
    sink.close()
    content = sink.content
    for _ in range(2):
        try:
            w.write(decode(case["late"]))
        except ValueError:
            pass
        except Exception as e:  # noqa: BLE001
            raise Violation(f"write to a closed file: {type(e).__name__} instead of ValueError: {e}") from e
        else:
            fail("an object is accepted although the file is closed")
    with contextlib.suppress(Exception):  # it may complain that the file is gone
        w.close()
    expect(sink.content == content, "a write after close changed the file")
    rec.hit("file closed by its owner")


def snapshot(x):
    """What the object looks like."""
    if isinstance(x, Custom):
        return repr(x.header)
    return "" if type(x) is object else repr(x)


def stir_sweep(tier):
    """Sessions of any shape with rejected writes anywhere."""
    rnd = random.Random(12)
    modes = ["short", "long", "empty", "ValueError", "struct", "Key", "Runtime", "Unicode", "Memory", "OS", "Interrupt", "Halt", *RAISED]

    def bad(objs):
        x = rnd.random()
        if x < 0.4:
            return {"bad": "custom", "mode": rnd.choice(modes)}
        if x < 0.5:
            return {"bad": "notobj", "mode": rnd.choice(["none", "int", "bytes", "str", "object", "list"])}
        if x < 0.7 or not objs:
            a, b = session.logint(rnd, 18) - 1, session.logint(rnd, 16) - 1
            return {"bad": "custom", "mode": "sized", "sizes": [a + (a == b), b]}
        return {"bad": "size", "obj": rnd.choice(objs), "i": 0, "j": 0, "delta": rnd.choice([-40, -8, -1, 1, 2, 7, 8, 24, session.logint(rnd, 16)])}

    for i in range(1500 if tier == "quick" else 50000):
        c = session.stir(i + (1 << 26), 13, 6)
        ops, part = [], rnd.choice([0.1, 0.3, 0.6])
        for o in c["objs"]:
            while rnd.random() < part:
                ops.append(bad(c["objs"]))
            ops.append({"w": o})
        ops += [bad(c["objs"]) for _ in range(rnd.randrange(3))]
        yield {"ops": ops, "lv": c["lv"], "buf": c["buf"], "late": [bad(c["objs"]) for _ in range(rnd.randrange(3))]}


def sweeps():
    return [Sweep("kinds", sweep), Sweep("closed elsewhere", closed_elsewhere), Sweep("stir", stir_sweep)]


def searches():
    return [Search("histories", cases(), 2200, 200000)]


def mask(data):
    return data[:40] + bytes(32) + data[72:]


def check(name, case, rec):
    if "elsewhere" in case:
        return check_elsewhere(case, rec)
    ticks = [1.7e9]

    def clock():
        ticks[0] += 1.0
        return ticks[0]

    accepted, rejected = [], 0
    with scripted_clock(clock):
        with lib("opening"):
            sink = Sink()
            w = BlfWriter(sink, compression_level=case["lv"], buffer_size=case["buf"])
        window = (1.7e9, None)
        for n, op in enumerate(case["ops"]):
            if "w" in op:
                with lib("preparing objects"):
                    obj = decode(op["w"])
                t0 = clock()
                with lib(f"write {n}: valid {op['w']['t']}"):
                    w.write(obj)
                window = (t0, clock())
                accepted.append(op["w"])
                continue
            bad = make_bad(op)
            if bad is None:
                rec.label("harmless change, not written")
                continue
            looks = snapshot(bad[0])
            for _ in range(op.get("again", 2)):  # no better when it is tried again
                try:
                    w.write(bad[0])
                except ValueError:
                    pass
                except (Exception, Interrupt, Halt, GeneratorExit, SystemExit) as e:  # noqa: BLE001
                    if bad[1]:
                        raise Violation(f"write {n}: {type(e).__name__} instead of ValueError for {op['bad']}"
                                        f" {op.get('mode', '')}: {e}") from e
                else:
                    fail(f"write {n}: accepted an object that cannot be encoded ({op['bad']} {op.get('mode', '')})")
                expect(snapshot(bad[0]) == looks, lambda: f"write {n}: the rejected object was changed from {looks} to {snapshot(bad[0])}")
                rejected += 1
            rec.label("rejected: " + op["bad"])
            if bad[1]:
                rec.label("size mismatch")
        with lib("close"):
            w.close()
        if window[1] is None:
            window = (1.7e9, clock())
        content = sink.content
        for op in case["late"]:
            bad = (decode(op["w"]), True) if "w" in op else make_bad(op)
            if bad is None:
                continue
            try:
                w.write(bad[0])
            except ValueError:
                pass
            except (Exception, Interrupt, Halt, GeneratorExit, SystemExit) as e:  # noqa: BLE001
                if not bad[1]:  # neither encodable nor open: either may be reported
                    continue
                raise Violation(f"write after close: {type(e).__name__} instead of ValueError: {e}") from e
            else:
                fail("write after close is accepted")
            rec.label("write after close")
        with lib("second close"):
            w.close()
        expect(sink.content == content, "a write after close changed the file")
    with lib("control session"):
        ctl = Sink()
        w = BlfWriter(ctl, compression_level=case["lv"], buffer_size=case["buf"])
        for o in accepted:
            w.write(decode(o))
        w.close()
    same_objects(read_all(content, len(accepted)), accepted, "reading the accepted objects")
    a, b = m.parse_file_header(content), m.parse_file_header(ctl.content)
    for k in ("count", "usize", "fsize", "level"):
        expect(a[k] == b[k], f"header {k} is {a[k]}, {b[k]} without the rejected writes")
    expect(a["count"] == len(accepted), f"{a['count']} objects counted, {len(accepted)} accepted")
    expect(mask(content) == mask(ctl.content), "file differs from the one without the rejected writes")
    from .c04 import secs

    last = secs(a["last"], "last object time")
    expect(window[0] * 1000 - 1.01 <= last <= window[1] * 1000 + 1.01,
           "last object time is not that of the last accepted write")
    if rejected and accepted:
        rec.hit()
    assert session

"""C25: symbolic codes and flags mean what their documented names say."""
from hypothesis import strategies as st

from .. import gen, model as m
from ..core import Search, Sweep, expect, lib, mix
from ..vb import C, BlfReader, BlfWriter, Sink, Source, decode, klass
from . import codec

META = {
    "level": "exploration",
    "technique": "property-based testing: bits and codes of generated objects against a reference table of names",
    "rule": "One case = an object, one of its flag or code fields (also in the header), its recorded value (any"
            " combination of known and undocumented bits) and a change made with member names (set, clear, toggle,"
            " assign a combination, assign a code).  Every documented name must tell the state of its documented"
            " bit or code; after the change the encoding, also through a log, must differ in exactly those bits."
            "  Or: an integer given to the from_int conversions, or a table of names.  Non-trivial: the field is"
            " neither zero nor a single documented member.",
    "assumptions": ["the documented names and values are those of the reference tables in harness/model.py",
                    "CAN FD flags are named for 32-bit flag words; in an 8-bit field only names that fit apply"],
}
HEAD = "header.object_flags"


def fields_of(k):
    """[(field, code, table name)]"""
    out = [(HEAD, "I", "ObjFlags")]
    return out + [(n, c, e) for n, c, e in k.fields if e in m.FLAGS or e in m.ENUMS]


ALL = [(k.name, *f) for k in m.KINDS.values() for f in fields_of(k)]
FLAGGED = [a for a in ALL if a[3] in m.FLAGS]
CODED = [a for a in ALL if a[3] in m.ENUMS]
OPS = ["set", "clear", "toggle", "assign"]


def place(o, field, val):
    if field == HEAD:
        h = list(o["h"])
        h[1] = val
        return {**o, "h": h}
    return {**o, "v": {**o["v"], field: val}}


def names_for(table, code):
    top = (1 << 8 * m.csize(code)) - 1
    return [n for n, v in m.FLAGS[table].items() if v <= top]


def sweep(tier):
    for e in list(m.ENUMS) + list(m.FLAGS):
        yield {"k": "names", "enum": e}
    for i in list(range(4300)) + [-1, 1 << 31, 1 << 32, 1 << 63, 65535, 65536, 0x10001]:
        yield {"k": "int", "i": i}
    for t, f, c, e in FLAGGED:
        base = codec.ramp(m.KINDS[t])
        names = names_for(e, c)
        bits = 8 * m.csize(c)
        vals = [0, (1 << bits) - 1] + [1 << b for b in range(bits)] + [((1 << bits) - 1) ^ (1 << b) for b in range(bits)]
        if f == HEAD and t not in ("CAN_MESSAGE", "SYS_VARIABLE", "APP_TEXT"):
            vals = [0, 1, 2, 3, (1 << bits) - 1]
        for v in vals:
            for n in names:
                for op in OPS if tier != "quick" else (OPS[mix(t, f, v, n) % 4], OPS[mix(t, f, v, n) // 4 % 4]):
                    yield {"k": "flags", "o": place(base, f, v), "field": f, "op": op, "names": [n]}
            yield {"k": "flags", "o": place(base, f, v), "field": f, "op": "assign", "names": names}
            yield {"k": "flags", "o": place(base, f, v), "field": f, "op": "clear", "names": names}
    for t, f, c, e in CODED:
        base = codec.ramp(m.KINDS[t])
        for a in m.ENUMS[e].values():
            for b in m.ENUMS[e]:
                yield {"k": "code", "o": place(base, f, a), "field": f, "name": b}


@st.composite
def flags(draw):
    t, f, c, e = draw(st.sampled_from(FLAGGED))
    names = names_for(e, c)
    val = draw(gen.uint(8 * m.csize(c)))
    if draw(st.booleans()):
        val = 0
        for n in draw(st.lists(st.sampled_from(names), max_size=5)):
            val |= m.FLAGS[e][n]
    o = place(draw(gen.kind_object(m.KINDS[t])), f, val)
    return {"k": "flags", "o": o, "field": f, "op": draw(st.sampled_from(OPS)),
            "names": draw(st.lists(st.sampled_from(names), min_size=1, max_size=4))}


@st.composite
def codes(draw):
    t, f, c, e = draw(st.sampled_from(CODED))
    o = place(draw(gen.kind_object(m.KINDS[t])), f, draw(st.sampled_from(sorted(m.ENUMS[e].values()))))
    return {"k": "code", "o": o, "field": f, "name": draw(st.sampled_from(sorted(m.ENUMS[e])))}


ints = st.one_of(gen.uint(32), gen.uint(8), st.integers(-(1 << 70), 1 << 70)).map(lambda i: {"k": "int", "i": i})


def sweeps():
    return [Sweep("tables", sweep)]


def searches():
    return [Search("flags", flags(), 3000, 300000), Search("codes", codes(), 1000, 60000),
            Search("integers", ints, 1500, 100000)]


def get(obj, field):
    return obj.header.object_flags if field == HEAD else getattr(obj, field)


def put(obj, field, val):
    if field == HEAD:
        obj.header.object_flags = val
    else:
        setattr(obj, field, val)


def check(name, case, rec):
    {"names": check_names, "int": check_int, "flags": check_flags, "code": check_code}[case["k"]](case, rec)


def check_names(case, rec):
    e = case["enum"]
    table = m.ENUMS.get(e) or m.FLAGS[e]
    with lib(f"looking up {e}"):
        cls = getattr(C, e)
        for n, v in table.items():
            mem = cls[n]
            expect(mem == v and int(mem) == v and getattr(cls, n) is mem, f"{e}.{n} is {int(mem):#x}, want {v:#x}")
            expect(mem.name == n and cls(v) is mem, f"{e}({v:#x}) is {cls(v)!r}, want {n}")
    rec.hit("table " + e)


def check_int(case, rec):
    i = case["i"]
    with lib(f"converting {i}"):
        ot, app, lv = C.ObjType.from_int(i), C.AppId.from_int(i), C.Compression.from_int(i)
    m.check_enum("ObjType.from_int", ot, "ObjType", i if i in m.OBJ_NAMES else 0)
    apps = set(m.ENUMS["AppId"].values())
    m.check_enum("AppId.from_int", app, "AppId", i if i in apps else 0)
    expect(lv == i, f"Compression.from_int({i}) is {lv!r}")
    if i in m.ENUMS["Compression"].values():
        m.check_enum("Compression.from_int", lv, "Compression", i)
    if i in m.OBJ_NAMES or i in apps:
        rec.label("known code")
    else:
        rec.hit("unknown code")


def obtain(o, via):
    if not via:
        return decode(o)
    data = m.file_header(level=0) + m.container(m.encode(o), 0, m.osize(o))
    return BlfReader(Source(data)).read_object()


def recorded(obj):
    """The object's bytes as a log stores them."""
    s = Sink()
    w = BlfWriter(s)
    w.write(obj)
    w.close()
    return s.content


def check_tests(where, fl, bits, table):
    cls = getattr(C, table)
    expect(fl == bits and int(fl) == bits, f"{where}: {fl!r}, want {bits:#x}")
    for n, v in m.FLAGS[table].items():
        mem = getattr(cls, n)
        expect(bool(fl & mem) == bool(bits & v), f"{where} = {bits:#x}: test for {n} says {bool(fl & mem)}")
        expect((mem in fl) == (bits & v == v), f"{where} = {bits:#x}: '{n} in flags' says {mem in fl}")


def check_flags(case, rec):
    o, field = case["o"], case["field"]
    k = m.KINDS[o["t"]]
    code, table = next((c, e) for n, c, e in fields_of(k) if n == field)
    bits = o["h"][1] if field == HEAD else o["v"][field]
    where = f"{o['t']}.{field}"
    cls = getattr(C, table)
    with lib(f"{where}: flags"):
        obj = obtain(o, bits & 1)
        fl = get(obj, field)
        check_tests(where, fl, bits, table)
        mask, sym = 0, None
        for n in case["names"]:
            mask |= m.FLAGS[table][n]
            sym = getattr(cls, n) if sym is None else sym | getattr(cls, n)
        if case["op"] == "set":
            new, want = fl | sym, bits | mask
        elif case["op"] == "clear":
            # not fl & ~sym: the enum module's ~ is limited to the named bits and drops higher ones
            new, want = fl ^ (fl & sym), bits & ~mask
        elif case["op"] == "toggle":
            new, want = fl ^ sym, bits ^ mask
        else:
            new, want = sym, mask
        put(obj, field, new)
        wanted = place(o, field, want)
        raw = m.encode(wanted)
        back = bytes(obj.pack())
        expect(back == raw, f"{where}: {case['op']} {case['names']} on {bits:#x}: encoding differs"
                            f" {codec.diff(raw, back)}")
        log = recorded(obj)
        expect(bytes(m.Written(log).stream()) == raw, f"{where}: the log stores something else than the encoding")
        again = BlfReader(Source(log)).read_object()
        check_tests(where, get(again, field), want, table)
        m.check_object(again, wanted)
    rec.label(case["op"], table)
    if bits and bits not in m.FLAGS[table].values():
        rec.hit()


def check_code(case, rec):
    o, field = case["o"], case["field"]
    k = m.KINDS[o["t"]]
    table = next(e for n, c, e in fields_of(k) if n == field)
    where = f"{o['t']}.{field}"
    cls = getattr(C, table)
    with lib(f"{where}: code"):
        obj = obtain(o, o["v"][field] & 1)
        got = get(obj, field)
        for n, v in m.ENUMS[table].items():
            expect((got == getattr(cls, n)) == (o["v"][field] == v), f"{where} = {o['v'][field]}: == {n} is wrong")
        put(obj, field, getattr(cls, case["name"]))
        wanted = place(o, field, m.ENUMS[table][case["name"]])
        raw = m.encode(wanted)
        back = bytes(obj.pack())
        expect(back == raw, f"{where}: assigning {case['name']}: encoding differs {codec.diff(raw, back)}")
        again = klass(o).unpack(back)
        expect(get(again, field) is getattr(cls, case["name"]), f"{where}: {case['name']} reads back as {get(again, field)!r}")
        m.check_object(again, wanted)
    rec.label("assign code", table)
    if o["v"][field] != m.ENUMS[table][case["name"]]:
        rec.hit()

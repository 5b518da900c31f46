"""C01: write, then read: same objects, complete and in order."""
from hypothesis import strategies as st  # noqa: F401

from .. import session
from ..core import Search, Sweep, expect, lib
from ..vb import BlfReader, BlfWriter, Sink, drain, lib as _lib, read_all, same_objects  # noqa: F401
from ..vb import m

META = {
    "level": "exploration",
    "technique": "property-based testing: write/read round-trip against the list of objects written",
    "rule": "One case = a list of objects (all 33 supported kinds, unknown kinds and kinds the user defined, payloads with"
            " signatures and whole encoded objects, sizes 16 bytes to 300 KiB), a compression level 0-9,"
            " a buffer size from 1 byte to more than the whole log, and a target (memory or path)."
            " Written, closed, read back; every attribute is compared with the independent model and the"
            " objects with those written.  Non-trivial: at least two objects, or more than one container,"
            " or an object at least as large as the buffer.",
    "assumptions": ["objects are valid: documented codes, texts in their encoding, true length fields"],
}


def sweeps():
    return [Sweep("kinds", session.kind_sweep), Sweep("lookalikes", session.lookalike_sweep), Sweep("sizes", session.size_sweep),
            Sweep("edges", session.edge_sweep), Sweep("scale", session.scale_sweep),
            Sweep("grid", session.grid_sweep), Sweep("stir", session.stir_sweep)]


def searches():
    return [Search("mixed", session.sessions(), 2200, 200000),
            Search("big", session.sessions(4, big=True), 300, 30000),
            Search("many", session.many(), 40, 3000)]


def check(name, case, rec):
    data, lo, mo = session.run(case)
    got = read_all(data, len(mo))
    same_objects(got, mo, "read back", eq=lo if case.get("via") != 2 else None)
    with lib("encoding what was read"):
        for i, (g, o) in enumerate(zip(got, mo)):
            if isinstance(case["objs"], list):
                expect(bytes(g.pack()) == m.encode(o), f"object {i} re-encodes differently")
    session.classify(rec, case, mo if isinstance(case["objs"], list) else mo[:50])

"""C06: LIN, FlexRay, Ethernet and diagnostic object codec."""
from . import codec

META = {
    "level": "exploration",
    "technique": "property-based testing: generated objects against an independent byte layout model",
    "rule": "One case = one LIN, FlexRay, Ethernet and diagnostic object (all field values, payloads and texts) encoded by the"
            " independent layout model; decoded by the library, compared field by field, re-encoded,"
            " rebuilt through the constructors and encoded again.  Systematic sweeps (every field over"
            " its boundary values, field pairs, rows of several fields, header fields, lengths, characters, both"
            " ends of texts and payloads, bytes behind the known layout) plus random search."
            "  Non-trivial: at least one field is non-zero, counted distinct by content.",
    "assumptions": [
        "the layout tables of harness/model.py state the BLF layout (cross-checked with the fixture files)",
        "coded fields (enumerations that the library decodes strictly) hold documented codes;"
        " doubles are not signalling NaNs",
    ],
}


def sweeps():
    return codec.sweeps("bus")


def searches():
    return codec.searches("bus", 8000, 400000)


def check(name, case, rec):
    codec.check_codec(case, rec)

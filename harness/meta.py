"""Per-property facts shared by the runner and the manifest generator."""
import pathlib
import re

PROPS = {}
for _p in sorted((pathlib.Path(__file__).parent / "props").glob("c[0-9][0-9].py")):
    _src = _p.read_text()
    _ns = {}
    _m = re.search(r"^META = \{.*?^\}", _src, re.S | re.M)
    exec(_m.group(0), _ns)  # noqa: S102 - our own file
    PROPS[_p.stem.upper()] = _ns["META"]

"""Coverage-guided search (atheris/libFuzzer) over the Hypothesis strategy of one search.

argv: <property> <search index> <tier> <seed> <seconds> <result file>.  libFuzzer mutates the choices of
the strategy, guided by the coverage and the comparisons of the library's code; the check decides.  A
failing case is shrunk by Hypothesis.  The result file holds counts and, if there is one, the violation.
"""
import json
import os
import sys
import time

import atheris

pid, idx, tier, seed, seconds, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), float(sys.argv[5]), sys.argv[6]
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.argv = sys.argv[:1]
with atheris.instrument_imports(include=["vblf"]):
    from harness import core
    from harness import vb  # noqa: F401

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis.database import InMemoryExampleDatabase  # noqa: E402

sh = core.Shard(pid, tier, seed, 0, 1, os.devnull, 10**9)
search = sh.mod.searches()[idx]
db = InMemoryExampleDatabase()
failing = []
start = time.monotonic()
units = 0


def body(case):
    try:
        sh.run_case(search.name, case)
    except core.Violation as e:
        failing.append((case, e))
        raise


def make(**kw):
    return settings(database=db, deadline=None, report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck), **kw)(given(search.strategy)(body))


def finish(error=None):
    res = sh.result(error)
    res["units"] = units
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def hang(_sig, _frm):
    sh.record(search.name, sh.current[1], core.no_end(_sig))
    finish()


core.guards(hang)
target = make().hypothesis.fuzz_one_input


def one(data):
    global units
    units += 1
    if time.monotonic() - start > seconds:
        finish()
    try:
        target(data)
    except core.Violation as e:
        case, err = failing[-1]
        try:
            make(phases=(Phase.reuse, Phase.shrink))()
        except core.Violation:
            case, err = failing[-1]
        except BaseException:  # noqa: BLE001 - the unshrunk case is good enough
            err = e
        sh.record(search.name, case, err, "found by coverage-guided search")
        finish()
    except BaseException:  # noqa: BLE001
        import traceback

        finish(traceback.format_exc() + "\ncase: " + core.short(sh.current and sh.current[1], 3000))


import hypothesis.internal.conjecture.engine as eng  # noqa: E402

eng.MAX_SHRINKING_SECONDS = 60
atheris.Setup([sys.argv[0], f"-seed={seed * 8191 + 1}", "-max_len=6000", "-len_control=20", "-verbosity=0",
               "-rss_limit_mb=0", "-timeout=3600", "-handle_segv=0"], one)
atheris.Fuzz()

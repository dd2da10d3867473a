"""Runs one harness on one concrete assignment against the unmodified code in
/repo/src (no instrumentation, no solver).

    python replay.py REPLAY.json [--src DIR]

exit 1 + "VIOLATION-REPRODUCED ..."  the real code breaks the property
exit 0                               it does not
exit 3                               the assignment does not fit the harness
"""

from __future__ import annotations

import importlib
import json
import math
import os
import signal
import sys
import traceback
from typing import Any

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(BaseException):
    pass


class Assumption(BaseException):
    pass


class Diverged(BaseException):
    pass


class Concrete:
    symbolic = False

    def __init__(self, inputs: dict[str, Any]):
        self.inputs = inputs
        self.path_covers: list[str] = []

    def _get(self, name):
        if name not in self.inputs:
            raise Diverged(name)
        return self.inputs[name]

    def int(self, name, lo=None, hi=None):
        return int(self._get(name))

    def int64(self, name):
        return int(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def float(self, name, finite=True):
        return float.fromhex(self._get(name))

    def str(self, name, maxlen, domain="ascii", minlen=0, chars=None):
        return "".join(map(chr, self._get(name)))

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def assume(self, cond):
        if not cond:
            raise Assumption()

    def check(self, cond, msg):
        if not cond:
            raise Broken(msg)

    def fail(self, msg):
        raise Broken(msg)

    def cover(self, label):
        self.path_covers.append(label)

    def all(self, *c):
        return all(c)

    def any(self, *c):
        return any(c)

    def no(self, c):
        return not c

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return bool(not a or b)

    def ite(self, c, a, b):
        return a if c else b

    def same(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self.same(a[k], b[k]) for k in a)
        if type(a) is not type(b):
            return False
        if isinstance(a, float) and math.isnan(a) and math.isnan(b):
            return True
        return a is b or bool(a == b)

    def concrete(self, x):
        return x

    def parse(self, script, subs=None):
        from wizard.utils import make_parse_wizard_context

        for k, v in (subs or {}).items():
            if k not in script:
                raise RuntimeError(f"no {k!r} in {script!r}")
            script = script.replace(k, v)
        return make_parse_wizard_context(script)


def setup(src: str) -> None:
    sys.dont_write_bytecode = True
    sys.path.insert(0, src)
    sys.path.insert(0, HERE)


class _Timeout(BaseException):
    pass


def run(module: str, func: str, kwargs: dict[str, Any], inputs: dict[str, Any], limit: int = 20):
    """('ok'|'broken'|'assume'|'diverged', message, covers)"""
    m = importlib.import_module(module)
    s = Concrete(inputs)

    def on_alarm(*_):
        raise _Timeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        getattr(m, func)(s, **kwargs)
        return "ok", "", s.path_covers
    except Broken as b:
        return "broken", str(b), s.path_covers
    except Assumption:
        return "assume", "", s.path_covers
    except Diverged as d:
        return "diverged", str(d), s.path_covers
    except _Timeout:
        return "broken", f"does not terminate (stopped after {limit} s)", s.path_covers
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
        return "broken", f"unexpected {type(e).__name__}: {e} ({where})", s.path_covers
    finally:
        signal.alarm(0)


def main(argv) -> int:
    src = "/repo/src"
    if "--src" in argv:
        src = argv[argv.index("--src") + 1]
    setup(src)
    with open(argv[1]) as fp:
        doc = json.load(fp)
    if "batch" in doc:
        out = []
        for c in doc["batch"]:
            try:
                r = run(c["module"], c["func"], c["kwargs"], c["inputs"])
            except Exception as e:  # import errors and the like
                r = ("error", f"{type(e).__name__}: {e}", [])
            out.append(r)
        print("RESULT " + json.dumps(out))
        return 0
    st, msg, _ = run(doc["module"], doc["func"], doc["kwargs"], doc["inputs"])
    print(f"inputs: {json.dumps(doc['inputs'])}")
    if st == "broken":
        print(f"VIOLATION-REPRODUCED {msg}")
        return 1
    print(f"not reproduced: {st} {msg}")
    return 0 if st == "ok" else 3


if __name__ == "__main__":
    sys.exit(main(sys.argv))

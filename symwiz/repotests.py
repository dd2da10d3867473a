"""Runs the project's own tests on the instrumented modules and on the plain
ones: both must have the same results.    python -m symwiz.repotests"""

import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Results:
    def __init__(self):
        self.got = {}

    def pytest_runtest_logreport(self, report):
        if report.when == "call":
            self.got[report.nodeid] = report.outcome


def child(how):
    sys.dont_write_bytecode = True
    loaded = None
    if how == "instrumented":
        sys.path.insert(0, HERE)
        from symwiz import instrument

        loaded = instrument.install("/repo/src").loaded
    else:
        sys.path.insert(0, "/repo/src")
        sys.path.append("/opt/venv/lib/python3.12/site-packages")
    import pytest

    r = Results()
    os.chdir("/repo")
    pytest.main(["-q", "-q", "-p", "no:cacheprovider", "--no-header", "tests"], plugins=[r])
    print("RESULTS", sorted(r.got.items()))
    if loaded is not None and not any(m == "wizard.expr" for m in loaded):
        print("RESULTS the modules were not instrumented")


def main():
    got = []
    for how in ("plain", "instrumented"):
        p = subprocess.run(
            [sys.executable, os.path.abspath(__file__), how], capture_output=True, text=True, timeout=300,
            env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"},
        )
        got.append([line for line in p.stdout.splitlines() if line.startswith("RESULTS")])
    same = got[0] == got[1] and len(got[0]) == 1
    n = got[0][0].count("'passed'") if got[0] else 0
    print(f"repotests: {n} passed on the plain code, {'the same' if same else 'others'} on the instrumented code")
    if not same:
        print(*got[0], *got[1], sep="\n")
    return 0 if same else 1


if __name__ == "__main__":
    if len(sys.argv) > 1:
        child(sys.argv[1])
    else:
        sys.exit(main())

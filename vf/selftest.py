"""
Setup: nothing to build. Checks that solver and symbolic executor work, incl. that a violation is found.
"""

import os
import sys

_root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, _root)
sys.dont_write_bytecode = True

from vf import symx  # noqa
from vf.harness import SymH  # noqa


def _run(f):
    eng = symx.Engine()
    return eng.explore(lambda e: f(SymH(e)))


def _ok(h):
    a = h.int("a", 0, 100)
    b = (a // 3) * 3 + a % 3
    h.check(b == a, "divmod")
    if a > 50:
        h.check(a * 2 > 100, "branch")


def _bad(h):
    a = h.int("a", 0, 100)
    if a > 50:
        h.check(a * 3 != 3 * 77, "must be violated")


assert _run(_ok) is None
assert _run(_bad) is not None
print("selftest ok, z3", symx.z3.get_version_string())

sys.path.insert(0, "/repo")
from vf import symtorch_test  # noqa

symtorch_test.main()

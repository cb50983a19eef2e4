#!/usr/bin/env python3-vt
"""Setup: nothing is compiled ahead of time (every check instruments /repo/src from the working tree).
Checks that the solver is there, and validates the instrumentation on concrete runs: the repository's own tests are run on the
instrumented modules (builtins and operators replaced by the symbolic-aware models) and must behave as on the plain ones."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    import z3
    x = z3.Int('x')
    s = z3.Solver()
    s.add(x * x == 49, x > 0)
    assert s.check() == z3.sat and s.model()[x].as_long() == 7
    print('z3', z3.get_version_string())
    import pytest
    from se import instr, runner
    instr.install('melodia', runner.SRC)
    root = os.path.dirname(runner.SRC)
    os.chdir(root)
    sys.path.insert(0, root)
    rc = pytest.main(['-q', '-x', '-p', 'no:cacheprovider', '--import-mode=importlib', os.path.join(root, 'tests')])
    import melodia.core.track as m
    print('instrumented:', m.__loader__.__class__.__name__, '- repository tests on the instrumented code: %s' % ('pass' if rc == 0 else 'FAIL (rc %s)' % rc))
    return 0


if __name__ == '__main__':
    sys.exit(main())

"""Import hypothesis from the tooling venv without letting its numpy/scipy shadow
the ones the repository runs with."""
import sys

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append(_P)
    import hypothesis  # noqa: F401
    import hypothesis.strategies  # noqa: F401
    import sortedcontainers  # noqa: F401
    sys.path.remove(_P)
from hypothesis import strategies as st  # noqa: F401
from hypothesis import given, settings, HealthCheck, Phase, seed  # noqa: F401

"""Makes the pre-installed z3 bindings importable without shadowing the project's own numpy/scipy."""
import sys

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402,F401

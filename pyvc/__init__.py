"""pyvc: a verification-condition generator for the Python/numpy subset that
cloudnetpy is written in.  See /verif/DESIGN.md."""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

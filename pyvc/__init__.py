"""pyvc: deductive verification of the real pykeepass source by instrumented symbolic execution."""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)

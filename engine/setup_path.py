"""z3 and mpmath come from the verification tools' environment, appended so the project's own packages win."""
import sys

P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if P not in sys.path:
    sys.path.append(P)

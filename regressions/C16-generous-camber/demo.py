import sys
from pySailingVLM.thin_airfoil.vlm_airfoil import VlmAirfoil
try:
    VlmAirfoil(.3006, .4, 0., 5)
except SystemExit:
    sys.exit(0)
print("BROKEN: accepted"); sys.exit(1)

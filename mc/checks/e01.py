"""E01 differential operators."""
import explore
from opsreg import OPS

BOUNDS = explore.BOUNDS
EXPLANATION = ("Every generated differential-operator kernel of the real code is executed on every "
               "state of the bounded input space and compared with an independent NumPy reference.")
ASSUMPTIONS = ["finite inputs without denormals (the code is compiled with -Ofast)"]


def units(tier):
    return explore.units_for([o for o in OPS.values() if o.group == "diffop"], tier)


def run_unit(ctx, params):
    explore.run(ctx, params)

from .kernel import *
from .steps import mutate_units
from .c17 import evidence
from .c27 import count_units


def prove():
    return run_units("C08", units(("count",)) + mutate_units("count") + [Unit("_compute_evidence", ["pocomc.sampler.Sampler._compute_evidence"], evidence(True, True))] + count_units(), assumptions=ASSUME)

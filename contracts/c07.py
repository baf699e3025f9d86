from .kernel import *
from .steps import mutate_units


def prove():
    return run_units("C07", units(("whole",)) + mutate_units("state"), assumptions=ASSUME)

from .kernel import *
from .steps import mutate_units


def prove():
    return run_units("C06", units(("law", "accept")) + mutate_units("law"), assumptions=ASSUME)

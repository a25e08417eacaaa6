"""C02: a parsed problem means what the text says."""
from checks import c01 as _base

ID = "C02"
KIND = "problem"
TECH, RULE, N = _base.TECH, _base.RULE, {"quick": 12000, "thorough": 250000}
REQUIRE = ["generated", "fixtures", "mutants_accepted"]


def _as(f):
    def g(*args):
        saved, _base.KIND = _base.KIND, KIND
        try:
            return f(*args)
        finally:
            _base.KIND = saved

    return g


cases, setup, case = _as(_base.cases), _as(_base.setup), _as(_base.case)

"""What each property's check does: models, case generators, assumptions."""
PROPS = {}


def prop(pid, rule, assumptions):
    def deco(f):
        PROPS[pid] = {"run": f, "rule": rule, "assumptions": assumptions}
        return f
    return deco


def chunks(lst, n):
    return [lst[i::n] for i in range(n) if lst[i::n]]


def join(v):
    return ",".join(str(x) for x in v)


class Cases:
    """builds case lines with ids"""
    def __init__(self):
        self.k = 0

    def line(self, name, **kv):
        self.k += 1
        return "%s id=%d %s" % (name, self.k, " ".join(
            "%s=%s" % (a, join(b) if isinstance(b, (list, tuple)) else b) for a, b in kv.items()))


from p_operators import *   # noqa
from p_solve import *   # noqa
from p_mesh import *   # noqa
from p_vec import *   # noqa
from p_geo import *   # noqa
from p_io import *   # noqa
from p_part import *   # noqa
from p_sing import *   # noqa
from p_real import *   # noqa
from p_tri import *   # noqa
from p_res import *   # noqa

"""Builder of parameter trees for C05 (also used by its server process)."""
from collections import OrderedDict
import numpy as np
from spectrocrunch.utils import lut
from spectrocrunch.patch.pint import ureg


def build(t, choose=lambda seq: seq[0], perm=lambda lst: lst):
    """Python object of a tree. choose/perm select equivalent variants."""
    kind, v = t
    if kind == "num":
        variants = [v]
        if v == int(v) if np.isfinite(v) else False:
            i = int(v)
            variants += [float(i)] if float(i) == i else []
            if abs(i) < 2**31:
                variants += [i, np.int64(i), np.float64(i), np.int32(i)]
            if abs(i) < 2**24:
                variants += [np.float32(i)]
            if i in (0, 1):
                variants += [bool(i), np.bool_(i)]
        else:
            variants += [np.float64(v)]
        return choose(variants)
    if kind == "text":
        return choose([v, v.encode("utf8")])
    if kind == "none":
        return None
    if kind == "quantity":
        m, u = v
        m = build(("num", m), choose)
        if isinstance(m, (bool, np.bool_)):
            m = int(m)  # pint refuses booleans
        return ureg.Quantity(m, u)
    if kind == "array":
        return choose([np.array(v), list(v), tuple(v), np.array(v, dtype=float), np.array(v, dtype=np.int8)] + ([np.array(v, dtype=bool)] if set(v) <= {0, 1} else []))
    if kind == "lut":
        o = lut.LUT()
        for x, y in perm(v):
            o.add(float(x), float(y))
        return o
    if kind == "list":
        lst = [build(c, choose, perm) for c in v]
        return choose([lst, tuple(lst)]) if lst else lst
    if kind == "set":
        items = perm([build(c) for c in v])
        return choose([set(items), frozenset(items)]) if items else set()
    if kind == "dict":
        return dict(perm([(build(k, hchoose(choose)), build(c, choose, perm)) for k, c in v]))
    if kind == "odict":
        return OrderedDict([(build(k), build(c, choose, perm)) for k, c in v])
    raise ValueError(kind)


def hchoose(choose):
    return choose

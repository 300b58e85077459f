"""Content of HDF5 files."""
import os
import h5py
import numpy as np

TIMES = ("date", "start_time", "end_time")


def content(filename, top="/"):
    """All nodes below a group: values and attributes (time stamps without value)"""
    out = {}

    def val(v):
        if isinstance(v, np.ndarray):
            return (str(v.dtype), v.shape, v.tobytes() if v.dtype.kind in "biufc" else str(v.tolist()))
        return v.decode() if isinstance(v, bytes) else str(v)

    def attrs(n):
        return {k: val(v) for k, v in n.attrs.items() if k not in ("file_update_time", "file_time")}

    def walk(g, path):
        out[path or "/"] = ("group", attrs(g))
        for name in g:
            p = path + "/" + name
            lnk = g.get(name, getlink=True)
            if isinstance(lnk, h5py.SoftLink):
                out[p] = ("link", lnk.path)
            elif isinstance(lnk, h5py.ExternalLink):
                out[p] = ("link", lnk.filename, lnk.path)
            elif isinstance(g[name], h5py.Group):
                walk(g[name], p)
            elif name in TIMES:
                out[p] = ("time",)
            else:
                out[p] = ("data", val(g[name][()]), attrs(g[name]))

    if os.path.exists(filename):
        with h5py.File(filename, "r") as f:
            if top in f:
                walk(f[top], "" if top == "/" else top)
    return out


def diff(a, b):
    """Nodes which differ"""
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))

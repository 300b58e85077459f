"""Build processed data files without the code under test (except for the skeleton)."""
import os
import tempfile
import h5py
import numpy as np
from spectrocrunch.io import nxfs

_skeleton = {}


def skeleton(entries=1):
    if entries not in _skeleton:
        f = os.path.join(tempfile.mkdtemp(), "data.h5")
        root = nxfs.Path("/", h5file=f).nxroot()
        for _ in range(entries):
            p = root.new_nxentry().nxprocess("raw", parameters={"name": "raw"}, dependencies=None)
            p.results.mkdir()
        with open(f, "rb") as fh:
            _skeleton[entries] = fh.read()
    return _skeleton[entries]


def build(axs, data, filename=None, entry=1, entries=1):
    """
    Args:
        axs: [(name, values, units or None, title or None)]
        data: [(group, signal, array)]
    Returns:
        nxfs.Path: process "raw" of the entry
    """
    if filename is None:
        filename = os.path.join(tempfile.mkdtemp(), "data.h5")
    if not os.path.exists(filename):
        with open(filename, "wb") as fh:
            fh.write(skeleton(entries))
    name = "/entry%04d/raw" % entry
    with h5py.File(filename, "a") as f:
        res = f[name].require_group("results")
        res.attrs["NX_class"] = "NXcollection"
        pos = res.require_group("positioners")
        pos.attrs["NX_class"] = "NXcollection"
        for n, v, u, t in axs:
            pos[n] = np.asarray(v)
            if u:
                pos[n].attrs["units"] = u
            pos[n].attrs["long_name"] = (t or n) + (" (%s)" % u if u else "")
        for g in dict.fromkeys(d[0] for d in data):
            nd = res.create_group(g)
            nd.attrs["NX_class"] = "NXdata"
            names = [n for g2, n, _ in data if g2 == g]
            nd.attrs["signal"] = names[0]
            if names[1:]:
                nd.attrs["auxiliary_signals"] = np.array(names[1:], dtype=h5py.string_dtype())
            for g2, n, v in data:
                if g2 == g:
                    nd[n] = v
                    nd[n].attrs["long_name"] = n
                    nd[n].attrs["interpretation"] = "image"
            nd.attrs["axes"] = np.array([a[0] for a in axs], dtype=h5py.string_dtype())
            for a in axs:
                nd[a[0]] = h5py.SoftLink(name + "/results/positioners/" + a[0])
    return nxfs.factory(nxfs.Path(name, h5file=filename))

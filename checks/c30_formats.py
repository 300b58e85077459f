"""C30: measured data files are read back as written."""
import contextlib
import io as stdio
import logging
import os
import re
import string
import tempfile
import warnings
import numpy as np
import pandas as pd
from vh import st, given, assume, check, rec, rule
from spectrocrunch.io import edf, mca, spe, spec, ascii, excel, target
from spectrocrunch.io import utils as ioutils
from spectrocrunch.patch.pint import ureg

rule(
    "Generated images (shape, data type, byte order, header), spectra (length, calibration, first channel), spec "
    "files (motors, counters, comments, zapimage/puzzle/mesh/ascan/zapline/zapenergy scans), SPE spectra, text "
    "tables, spreadsheets with formulas, scan commands, EDF scan headers and lists of existing names. Non-trivial: "
    "more than one element in the data, or more than one scan or name."
)
logging.disable(logging.WARNING)
B = st.booleans()
LETTERS = string.ascii_letters


def F(lo, hi):
    return st.floats(lo, hi, allow_nan=False)


def near(a, b, rtol=1e-9, atol=0.0, msg=""):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, (a.shape, b.shape, msg)
    np.testing.assert_allclose(a, b, rtol=rtol, atol=atol, err_msg=msg)


def word(lo=1, hi=8, chars=LETTERS):
    return st.text(chars, min_size=lo, max_size=hi)


def words(lo, hi, **kw):
    return st.lists(word(**kw), min_size=lo, max_size=hi, unique_by=lambda s: s.lower())


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(stdio.StringIO()):
        with contextlib.redirect_stderr(stdio.StringIO()):
            warnings.simplefilter("ignore")
            yield


def content(filename):
    with open(filename, "rb") as f:
        return f.read()


# ---------------------------------------------------------------- EDF
EDFTYPES = {
    "uint8": "UnsignedByte", "int8": "SignedByte", "uint16": "UnsignedShort", "int16": "SignedShort",
    "uint32": "UnsignedInteger", "int32": "SignedInteger", "float32": "FloatValue", "float64": "DoubleValue",
    "uint64": "Unsigned64", "int64": "Signed64",
}


@st.composite
def image(draw):
    dtype = np.dtype(draw(st.sampled_from(sorted(EDFTYPES))))
    shape = draw(st.integers(1, 6)), draw(st.integers(1, 7))
    rng = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    if dtype.kind == "f":
        data = rng.normal(size=shape) * 10.0 ** draw(st.integers(-6, 6))
    else:
        info = np.iinfo(dtype)
        data = rng.randint(max(info.min, -(2**62)), min(info.max, 2**62), size=shape)
    return data.astype(dtype)


HEADERVALUE = st.one_of(
    st.integers(-1000, 1000).map(str), F(-1e3, 1e3).map(repr), word(1, 10, LETTERS + string.digits + "_/.-")
)


@st.composite
def edfindex(draw, shape):
    def one(n):
        kind = draw(st.sampled_from(["int", "slice", "all"]))
        if kind == "int":
            return draw(st.integers(-n, n - 1))
        if kind == "all":
            return slice(None)
        a, b = draw(st.integers(-n, n)), draw(st.integers(-n, n))
        return slice(a, b, draw(st.sampled_from([None, 1, 2, -1])))

    k = draw(st.integers(0, 2))
    if k == 0:
        return Ellipsis
    if k == 1:
        return one(shape[0])
    return one(shape[0]), one(shape[1])


def check_edf_readers(filename, data, header, index):
    before = content(filename)
    with quiet():
        for cls in edf.edfimage, edf.edfmemmap:
            img = cls(filename)
            assert img.ndim == 2, cls
            assert tuple(img.shape) == data.shape, (cls, img.shape)
            assert np.dtype(img.dtype) == data.dtype.newbyteorder("="), (cls, img.dtype)
            np.testing.assert_array_equal(img.data, data)
            assert np.dtype(img.data.dtype).newbyteorder("=") == data.dtype.newbyteorder("=")
            np.testing.assert_array_equal(img[index], data[index])
            np.testing.assert_array_equal(img.data, data)
            if cls is edf.edfimage:
                for k, v in header.items():
                    assert img.header[k].strip() == v, (k, v, img.header)
                assert int(img.header["Dim_1"]) == data.shape[1]
                assert int(img.header["Dim_2"]) == data.shape[0]
    assert content(filename) == before, "reading modifies the file"


@check(quick=400, thorough=5000, shards={"quick": 1, "thorough": 3})
@given(st.data())
def edf_images(data):
    draw = data.draw
    img = draw(image())
    header = draw(st.dictionaries(word(1, 8).map(lambda s: "k" + s), HEADERVALUE, max_size=4))
    index = draw(edfindex(img.shape))
    mode = draw(st.sampled_from(["save", "save", "overwrite", "foreign"]))
    rec.current = repr((img.dtype, img.shape, header, index, mode))
    d = tempfile.mkdtemp()
    filename = os.path.join(d, "img.edf")
    if mode == "foreign":
        # as written by another acquisition computer
        big = draw(B)
        rec.label("big endian" if big else "little endian")
        lines = [
            ("HeaderID", "EH:000001:000000:000000"), ("Image", "1"),
            ("ByteOrder", "HighByteFirst" if big else "LowByteFirst"), ("DataType", EDFTYPES[img.dtype.name]),
            ("Dim_1", img.shape[1]), ("Dim_2", img.shape[0]), ("Size", img.nbytes),
        ]
        text = "{\n" + "".join("{} = {} ;\n".format(*kv) for kv in lines + list(header.items()))
        size = 512 * draw(st.integers(2, 3))
        text = text.ljust(size - 2) + "}\n"
        assert len(text) == size
        raw = img.astype(img.dtype.newbyteorder(">" if big else "<")).tobytes()
        with open(filename, "wb") as f:
            f.write(text.encode("ascii") + raw)
    else:
        rec.label(mode)
        original = img.copy()
        with quiet():
            edf.saveedf(filename, img, dict(header))
        np.testing.assert_array_equal(img, original)
        if mode == "overwrite":
            before = content(filename)
            img2 = draw(image())
            with quiet():
                try:
                    edf.saveedf(filename, img2, dict(header))
                except IOError:
                    pass
                else:
                    raise AssertionError("existing file overwritten")
                assert content(filename) == before
                edf.saveedf(filename, img2, dict(header), overwrite=True)
            img = img2
            if index is not Ellipsis:
                index = 0
    rec.case((img.shape, str(img.dtype), len(header), mode), nontrivial=img.size > 1)
    check_edf_readers(filename, img, header, index)
    missing = os.path.join(d, "missing.edf")
    with quiet():
        try:
            edf.edfimage(missing)
        except OSError:
            pass
        else:
            raise AssertionError("no exception on a missing file")


# ---------------------------------------------------------------- spectra
@check(quick=200, thorough=4000)
@given(st.data())
def mca_spectra(data):
    draw = data.draw
    n = draw(st.one_of(st.integers(2, 20), st.sampled_from([16, 32, 17, 33, 48, 64, 100])))
    rng = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    kind = draw(st.sampled_from(["counts", "floats", "zeros"]))
    if kind == "counts":
        y = rng.randint(0, 10 ** draw(st.integers(1, 7)), size=n)
    elif kind == "floats":
        y = rng.uniform(0, 1, size=n) * 10.0 ** draw(st.integers(-8, 12))
    else:
        y = np.zeros(n)
    zero = draw(st.one_of(st.just(0), F(-1, 1)))
    gain = draw(st.one_of(st.just(1), F(1e-4, 1)))
    ch0 = draw(st.sampled_from([None, None, 0, 5, 100]))
    fmt = draw(st.sampled_from(["mca", "mca", "spe"]))
    d = tempfile.mkdtemp()
    rec.current = repr((fmt, n, kind, zero, gain, ch0))
    rec.case((fmt, n, kind, ch0), nontrivial=True)
    rec.label(fmt)
    if fmt == "mca":
        filename = os.path.join(d, draw(st.sampled_from(["", "sub/"])) + "x.mca")
        y0 = np.array(y)
        kw = {} if ch0 is None else {"ch0": ch0}
        mca.save(y, filename, zero=zero, gain=gain, **kw)
        np.testing.assert_array_equal(y, y0)
        got, channels, energy, coeff = mca.read(filename)
        c = np.arange(n) + (ch0 or 0)
        near(coeff, [zero, gain, 0], rtol=1e-6, atol=1e-12)
    else:
        filename = os.path.join(d, "x.spe")
        ncoeff = draw(st.integers(0, 3))
        co = [zero, gain, 1e-6][:ncoeff]
        percol = draw(st.sampled_from([1, 8, 10]))
        date = draw(B)
        text = "$SPEC_ID:\nsimulated\n"
        if co:
            text += "$MCA_CAL:\n{}\n{}\n".format(len(co), " ".join(map(repr, map(float, co))))
        if date:
            text += "$DATE_MEA:\n12/24/2020 10:11:12\n"
        text += "$DATA:\n0 {}\n".format(n - 1)
        for i in range(0, n, percol):
            text += " ".join("{:.10g}".format(v) for v in y[i : i + percol]) + "\n"
        with open(filename, "w") as f:
            f.write(text)
        got, channels, energy, coeff = spe.read(filename)
        c = np.arange(n)
        near(coeff, co if co else [0, 1], rtol=1e-9)
    near(got, y, rtol=1e-6)
    near(channels, c)
    near(energy, sum(k * c.astype(float) ** i for i, k in enumerate(np.asarray(coeff, float))), rtol=1e-9, atol=1e-12)


# ---------------------------------------------------------------- text
@check(quick=200, thorough=3000)
@given(st.data())
def texttables(data):
    draw = data.draw
    ncol, nrow = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    cols = draw(st.lists(word(1, 8, LETTERS + "_"), min_size=ncol, max_size=ncol))
    fmt = draw(st.sampled_from(["{:.6f}", "{!r}", "{:d}", "{:+.3e}"]))
    vals = np.array(draw(st.lists(F(-1e5, 1e5), min_size=ncol * nrow, max_size=ncol * nrow))).reshape(nrow, ncol)
    if fmt == "{:d}":
        vals = np.round(vals)
    sep = draw(st.sampled_from([" ", "\t", "   ", " \t"]))
    lead = draw(st.sampled_from(["", " ", "  "]))
    tail = draw(st.sampled_from(["", " "]))
    eol = draw(st.sampled_from(["\n", "\r\n"]))
    head = draw(st.lists(st.text(LETTERS + " :=#", min_size=1, max_size=20), max_size=3))
    last = draw(B)
    lines = head + [sep.join(cols)]

    def txt(v):
        return fmt.format(int(v) if fmt == "{:d}" else float(v))

    lines += [lead + sep.join(txt(v) for v in row) + tail for row in vals]
    text = eol.join(lines) + (eol if last else "")
    filename = os.path.join(tempfile.mkdtemp(), "t.txt")
    with open(filename, "w", newline="") as f:
        f.write(text)
    rec.current = repr(text)
    rec.case((ncol, nrow, fmt, sep, lead, tail, eol, len(head), last), nontrivial=vals.size > 1)
    dtype = draw(st.sampled_from([None, np.float64]))
    kw = {} if dtype is None else {"dtype": dtype}
    with quiet():
        got, names = ascii.asciifile(filename).autoread_alphatable(**kw)
    exp = np.array([[float(txt(v)) for v in row] for row in vals])
    assert list(names) == cols, (names, cols)
    assert got.dtype == (dtype or np.float32)
    near(got, exp, rtol=1e-6 if dtype is None else 1e-14, atol=1e-40)
    with open(filename, "w") as f:
        f.write("only text\nwithout a table\n")
    for bad in filename, filename + "x":
        try:
            ascii.asciifile(bad).autoread_alphatable()
        except IOError:
            pass
        else:
            raise AssertionError("no exception without a table")


@check(quick=100, thorough=1500)
@given(st.data())
def textwriters(data):
    draw = data.draw
    d = tempfile.mkdtemp()
    filename = os.path.join(d, "sub", "log.txt") if draw(st.integers(0, 5)) else None
    tab = draw(st.integers(0, 6))
    cls = draw(st.sampled_from(["writer", "logger"]))
    nsessions = draw(st.integers(1, 2))
    line = st.text(LETTERS + " .,", max_size=12)
    expected, printed = [], []
    out = stdio.StringIO()
    rec.case((cls, nsessions, filename is None), nontrivial=nsessions > 1)
    plan = [
        draw(st.lists(st.tuples(st.lists(line, min_size=1, max_size=3), st.integers(0, 2), B), max_size=4))
        for _ in range(nsessions)
    ]
    rec.current = repr((cls, plan, tab))
    for i, session in enumerate(plan):
        mode = "w" if i == 0 else "a"
        w = ascii.Writer(filename, mode=mode) if cls == "writer" else ascii.Logger(filename, tab=tab, mode=mode)
        with contextlib.redirect_stdout(out), w:
            for lines, level, single in session:
                if cls == "writer":
                    if single:
                        for s in lines:
                            w.write(s)
                    else:
                        w.writelines(lines)
                    expected += lines
                else:
                    if single:
                        w.write("\n".join(lines), tab=level)
                    else:
                        w.writelines(lines, tab=level)
                    lines = [" " * (tab * level) + s for s in lines]
                    expected += lines
                    printed += lines
    if filename:
        assert content(filename).decode() == "".join(s + "\n" for s in expected)
    else:
        assert os.listdir(d) == []
    assert out.getvalue() == "".join(s + "\n" for s in printed)


# ---------------------------------------------------------------- spreadsheets
def sheetnames(draw, n, kind, prefix):
    if kind == "int":
        start = draw(st.integers(0, 5))
        return [start + 2 * i for i in range(n)]
    out = [prefix + s for s in draw(st.lists(word(1, 5), min_size=n, max_size=n, unique_by=lambda s: s.lower()))]
    return out


@check(quick=90, thorough=1500, shards={"quick": 1, "thorough": 3})
@given(st.data())
def spreadsheets(data):
    draw = data.draw
    nsheets = draw(st.integers(1, 3))
    filename = os.path.join(tempfile.mkdtemp(), "t.xlsx")
    frames = {}
    with quiet(), excel.Writer(filename) as writer:
        for i in range(nsheets):
            name = "Sheet%d" % (i + 1)
            nrow, ncol = draw(st.integers(1, 5)), draw(st.integers(1, 4))
            kr, kc = draw(st.sampled_from(["str", "str", "int"])), draw(st.sampled_from(["str", "str", "int"]))
            rows, cols = sheetnames(draw, nrow, kr, "r"), sheetnames(draw, ncol, kc, "c")
            v = np.array(draw(st.lists(F(-1e6, 1e6), min_size=nrow * ncol, max_size=nrow * ncol)))
            v = v.reshape(nrow, ncol)
            holes = draw(B)
            if holes:
                v[draw(st.integers(0, nrow - 1)), draw(st.integers(0, ncol - 1))] = np.nan
            if draw(B):
                frame = excel.DataFrame(writer=writer, sheet_name=name, data=v, index=rows, columns=cols)
            else:
                frame = excel.DataFrame(writer=writer, sheet_name=name, df=pd.DataFrame(v, rows, cols))
            for _ in range(draw(st.integers(0, 3))):
                what = draw(st.sampled_from(["colfmt", "rowfmt", "outliers", "between", "colorscale"]))
                col = draw(B)
                idx = draw(st.sampled_from(cols if col else rows))
                if what == "colfmt":
                    frame.addcolumnformat(draw(st.sampled_from(cols)), draw(st.sampled_from(["good", "scientific"])))
                elif what == "rowfmt":
                    frame.addrowformat(draw(st.sampled_from(rows)), {"bold": True})
                elif what == "outliers":
                    arr = v[:, cols.index(idx)] if col else v[rows.index(idx)]
                    if not np.isnan(arr).any():
                        frame.addcriterium_outliers(idx, column=col, sided=draw(st.sampled_from(["single", "double"])))
                elif what == "colorscale":
                    frame.addcriterium_colorscale(idx, column=col)
            sort = draw(st.sampled_from(["", "", "rows", "columns"]))
            df = pd.DataFrame(v, rows, cols)
            if sort == "rows":
                frame.sortrows()
                df = df.loc[sorted(rows)]
            elif sort == "columns":
                frame.sortcolumns()
                df = df[sorted(cols)]
            frames[name] = df
            if draw(B):
                frame.save()
            else:
                with frame:
                    pass
    rec.current = repr(frames)
    rec.case((nsheets, tuple(f.shape for f in frames.values())), nontrivial=any(f.size > 1 for f in frames.values()))
    with quiet():
        every = excel.DataFrame.fromexcel(filename, index_col=0)
        name = draw(st.sampled_from(sorted(frames)))
        single = excel.DataFrame.fromexcel(filename, sheet_name=name, index_col=0)
    assert list(every) == list(frames)
    assert list(single) == [name]
    for got, names in (every, list(frames)), (single, [name]):
        for n in names:
            df, exp = got[n].df, frames[n]
            assert got[n].sheet_name == n
            assert list(df.index) == list(exp.index), (df.index, exp.index)
            assert list(df.columns) == list(exp.columns), (df.columns, exp.columns)
            near(df.values, exp.values, rtol=1e-14)
    assert excel.DataFrame.fromexcel(filename + "x.xlsx") == {}


FORMULAE = {
    "({}+{})/2.": lambda a, b: (a + b) / 2.0, "{}-{}": lambda a, b: a - b, "2*{}": lambda a: 2 * a,
    "{}": lambda a: a + 0.0, "{}*{}": lambda a, b: a * b,
}


@check(quick=250, thorough=2500, shards={"quick": 1, "thorough": 3})
@given(st.data())
def formulas(data):
    draw = data.draw
    nrow, ncol = draw(st.integers(3, 5)), draw(st.integers(3, 5))
    rows, cols = sheetnames(draw, nrow, "str", "r"), sheetnames(draw, ncol, "str", "c")
    priority = draw(st.sampled_from(["row", "column"]))
    v = draw(st.lists(F(-9, 9), min_size=nrow * ncol, max_size=nrow * ncol))
    frame = excel.DataFrame(
        data=np.array(v).reshape(nrow, ncol), index=rows, columns=cols, priority=priority
    )
    T = {(r, c): v[i * ncol + j] for i, r in enumerate(rows) for j, c in enumerate(cols)}
    rform, cform, xform = {}, {}, {}

    def apply_column(c):
        f, args = cform[c]
        for r in rows:
            T[r, c] = FORMULAE[f](*(T[r, a] for a in args))

    def apply_row(r):
        f, args = rform[r]
        new = {c: FORMULAE[f](*(T[a, c] for a in args)) for c in cols}
        for c in cols:
            T[r, c] = new[c]

    def apply_cell(r, c):
        f, rs, cs = xform[r, c]
        T[r, c] = FORMULAE[f](*(T[a, b] for a, b in zip(rs, cs)))

    def apply_all():
        order = [(cform, apply_column), (rform, apply_row)]
        if priority == "column":
            order.reverse()
        for forms, func in order:
            for k in forms:
                func(k)
        for k in xform:
            apply_cell(*k)

    history = []
    for _ in range(draw(st.integers(1, 7))):
        op = draw(st.sampled_from(["value", "row", "rowdict", "column", "columndict", "rowf", "columnf", "cellf"]))
        r, c = draw(st.sampled_from(rows)), draw(st.sampled_from(cols))
        f = draw(st.sampled_from(sorted(FORMULAE)))
        nargs = f.count("{}")
        orow = draw(st.permutations([x for x in rows if x != r]))[:nargs]
        ocol = draw(st.permutations([x for x in cols if x != c]))[:nargs]
        history.append((op, r, c, f, orow, ocol))
        rec.current = repr((priority, rows, cols, v, history))
        num = F(-9, 9)
        with quiet():
            if op == "value":
                x = draw(num)
                frame.addvalue(r, c, x)
                T[r, c] = x
            elif op == "row":
                x = draw(st.lists(num, min_size=ncol, max_size=ncol))
                frame.addrow(r, x)
                T.update({(r, k): y for k, y in zip(cols, x)})
            elif op == "rowdict":
                x = draw(st.dictionaries(st.sampled_from(cols), num, min_size=1))
                frame.addrow(r, x)
                T.update({(r, k): y for k, y in x.items()})
            elif op == "column":
                x = draw(st.lists(num, min_size=nrow, max_size=nrow))
                frame.addcolumn(c, x)
                T.update({(k, c): y for k, y in zip(rows, x)})
            elif op == "columndict":
                x = draw(st.dictionaries(st.sampled_from(rows), num, min_size=1))
                frame.addcolumn(c, x)
                T.update({(k, c): y for k, y in x.items()})
            elif op == "rowf":
                frame.addrow_formula(r, f, orow if nargs > 1 else orow[0])
                rform[r] = f, orow
                apply_row(r)
            elif op == "columnf":
                frame.addcolumn_formula(c, f, ocol if nargs > 1 else ocol[0])
                cform[c] = f, ocol
                apply_column(c)
            else:
                frame.addcell_formula(r, c, f, orow if nargs > 1 else orow[0], ocol if nargs > 1 else ocol[0])
                xform[r, c] = f, orow, ocol
                apply_cell(r, c)
        if op.startswith("row") and op != "rowf":
            xform = {k: x for k, x in xform.items() if k[0] != r}
        if op.startswith("column") and op != "columnf":
            xform = {k: x for k, x in xform.items() if k[1] != c}
        apply_all()
        got = frame.df.loc[rows, cols].values.astype(float)
        exp = np.array([[T[a, b] for b in cols] for a in rows])
        big = np.abs(exp) > 1e100
        assume(not big.any())
        np.testing.assert_allclose(got, exp, rtol=1e-9, atol=1e-9 * max(1, np.abs(exp).max()))
    nf = len(rform) + len(cform) + len(xform)
    rec.case((nrow, ncol, priority, len(history), nf), nontrivial=nf > 0)
    if nf > 1:
        rec.label("several formulas")
    for bad in (
        lambda: frame.addrow_formula(rows[0], "2*{}", rows[0]),
        lambda: frame.addcolumn_formula(cols[0], "2*{}", [cols[0]]),
        lambda: frame.addcell_formula(rows[0], cols[0], "2*{}", rows[0], cols[0]),
    ):
        try:
            bad()
        except RuntimeError:
            pass
        else:
            raise AssertionError("self reference accepted")


# ---------------------------------------------------------------- scan commands
@st.composite
def number(draw):
    """(text, value)"""
    kind = draw(st.sampled_from(["int", "fixed", "g", "exp"]))
    if kind == "int":
        s = str(draw(st.integers(-500, 500)))
    elif kind == "fixed":
        s = "{:.4f}".format(draw(F(-90, 90)))
    elif kind == "g":
        s = "{:g}".format(draw(st.sampled_from([1, -1])) * 10 ** draw(F(-7, 3)))
    else:
        s = "{:.3e}".format(draw(F(-90, 90)))
    return s


@st.composite
def distinct(draw, motor=None):
    a = draw(number())
    b = draw(number())
    if float(a) == float(b):
        b = str(float(a) + 1)
    return a, b


SCANS = ["zapimage", "zapimage2", "puzzle", "mesh", "ascan", "zapline", "zapenergy", "sum2"]


@st.composite
def command(draw, kinds=SCANS, motors=None):
    kind = draw(st.sampled_from(kinds))
    if motors is None:
        fast, slow = draw(words(2, 2))
    else:
        fast, slow = draw(st.permutations(motors))[:2]
    a, b = draw(distinct())
    c, d = draw(distinct())
    n, m = draw(st.integers(1, 50)), draw(st.integers(1, 50))
    ms = draw(st.integers(1, 5000))
    if kind in ("mesh", "ascan", "zapline", "zapenergy", "sum2"):
        t = draw(st.sampled_from(["0.1", "1", "0.25", "10", "1e-05", "2.5e-3", ".5"]))
    else:
        t = str(ms)
    sp = draw(st.sampled_from([" ", "  "]))
    trail = draw(st.sampled_from(["", " 0"]))
    exp = {"motfast": fast, "startfast": float(a), "endfast": float(b)}
    two = {"motslow": slow, "startslow": float(c), "endslow": float(d), "nstepsslow": m}
    if kind == "zapimage":
        parts = ["zapimage", fast, a, b, n, slow, c, d, m, t]
        exp.update(two, name="zapimage", npixelsfast=n)
    elif kind == "zapimage2":
        parts = ["zapimage", fast, a, b, n, t, slow, c, d, m]
        exp.update(two, name="zapimage", npixelsfast=n)
    elif kind == "puzzle":
        if draw(B) and motors is None:
            fast, slow = fast + "1", slow + "2"
            exp["motfast"], two["motslow"] = fast, slow
        parts = ["puzzle", fast, a, b, n, slow, c, d, m, t]
        exp.update(two, name="puzzle", npixelsfast=n)
    elif kind == "mesh":
        parts = ["mesh", fast, a, b, n, slow, c, d, m, t]
        exp.update(two, name="mesh", nstepsfast=n)
    elif kind == "ascan":
        parts = ["ascan", fast, a, b, n, t]
        exp.update(name="ascan", nstepsfast=n)
    elif kind == "zapline":
        parts = ["zapline", fast, a, b, n, t]
        exp.update(name="zapline", npixelsfast=n)
    else:
        parts = ["zapenergy", "SUM" if kind == "zapenergy" else "SUM2", n, t]
        exp = {"name": "zapenergy", "repeats": n}
    exp["time"] = float(t) * (1 if kind in ("mesh", "ascan") else 1e-3)
    cmd = parts[0] + " " + sp.join(map(str, parts[1:])) + trail
    return kind, cmd, exp


def check_command(got, exp):
    assert set(got) == set(exp), (got, exp)
    for k, v in exp.items():
        if k == "time":
            near(got[k].to("s").magnitude, v, rtol=1e-12)
        elif isinstance(v, float):
            near(got[k], v, rtol=1e-12)
        else:
            assert got[k] == v and type(got[k]) is type(v), (k, got[k], v)


@check(quick=1200, thorough=20000)
@given(st.data())
def commands(data):
    kind, cmd, exp = data.draw(command())
    rec.current = repr(cmd)
    rec.label(kind)
    rec.case(cmd, nontrivial=True)
    p = spec.cmd_parser()
    check_command(p.parse(cmd), exp)
    check_command(p(cmd), exp)
    cut = cmd.rsplit(" ", data.draw(st.integers(3, 5)))[0]
    other = data.draw(st.sampled_from(["timescan 1 0.1", "loopscan 10 1", "zapimag x 0 1 2", cut]))
    got = p.parse(other)
    if other == "timescan 1 0.1" or other.startswith(("loop", "zapimag ")):
        assert got == {"name": "unknown"}
    # pixel positions
    if "startfast" not in exp:
        return
    a, b = exp["startfast"], exp["endfast"]
    scale = max(abs(a), abs(b))
    if "npixelsfast" in exp:
        n = exp["npixelsfast"]
        edges = np.linspace(a, b, n + 1)
        values = spec.zapline_values(a, b, n)
        near(values, (edges[1:] + edges[:-1]) / 2, rtol=1e-9, atol=1e-12 * scale)
        rng, size, pix = spec.zapline_range(a, b, n), spec.zapline_scansize(a, b, n), spec.zapline_pixelsize(a, b, n)
        npts = n
    else:
        n = exp["nstepsfast"]
        values = spec.ascan_values(a, b, n)
        near(values, np.linspace(a, b, n + 1), rtol=1e-9, atol=1e-12 * scale)
        rng, size, pix = spec.ascan_range(a, b, n), spec.ascan_scansize(a, b, n), spec.ascan_pixelsize(a, b, n)
        npts = n + 1
    assert len(values) == npts
    near(rng, [values[0], values[-1]], rtol=1e-9, atol=1e-12 * scale)
    near(size, values[-1] - values[0], rtol=1e-9, atol=1e-11 * scale)
    if npts > 1:
        near(np.diff(values), np.full(npts - 1, pix), rtol=1e-7, atol=1e-11 * scale)


@check(quick=300, thorough=6000)
@given(st.data())
def submap(data):
    draw = data.draw
    fast, slow, other = draw(words(3, 3))
    a, c = draw(F(-5, 5)), draw(F(-5, 5))
    n, m = draw(st.integers(2, 20)), draw(st.integers(2, 20))
    inc = draw(F(0.01, 1)) * draw(st.sampled_from([1, -1]))
    incs = draw(F(0.01, 1)) * draw(st.sampled_from([1, -1]))
    b, d = a + inc * n, c + incs * m
    cmd = "zapimage {} {!r} {!r} {} {} {!r} {!r} {} 100".format(fast, a, b, n, slow, c, d, m)
    # a region around a point of the map
    tomot = {fast: draw(st.sampled_from([1.0, 1e-3])), slow: draw(st.sampled_from([1.0, 1e-3]))}
    pos = {
        fast: a + (b - a) * draw(F(0, 1)), slow: c + (d - c) * draw(F(0, 1)), other: 0.5,
    }
    width = draw(F(0.0, 1.2)) * abs(b - a) / tomot[fast]
    header = {"Title": cmd, fast: 0.0, slow: 0.0, other: draw(st.sampled_from([0.5, 0.7]))}
    rec.current = repr((cmd, width, pos, tomot))
    with quiet():
        scan, mv, slices = spec.zapimage_submap(dict(header), "Title", width, dict(pos), tomot)
    new = spec.cmd_parser().parse(scan)
    assert new["name"] == "zapimage" and new["motfast"] == fast and new["motslow"] == slow
    near(new["time"].to("ms").magnitude, 100)
    oldf, olds = spec.zapline_values(a, b, n), spec.ascan_values(c, d, m)
    (f0, f1, fs), (s0, s1, ss) = slices
    self_, sels = oldf[slice(f0, f1, fs)], olds[slice(s0, s1, ss)]
    newf = spec.zapline_values(new["startfast"], new["endfast"], new["npixelsfast"])
    if new["nstepsslow"]:
        news = spec.ascan_values(new["startslow"], new["endslow"], new["nstepsslow"])
    else:
        news = np.array([new["startslow"]])
        near(new["startslow"], new["endslow"])
    rec.case((n, m, len(self_), len(sels)), nontrivial=len(self_) > 1)
    rec.label("reversed" if fs < 0 or ss < 0 else "same direction")
    near(newf, self_, rtol=1e-9, atol=1e-9)
    near(news, sels, rtol=1e-9, atol=1e-9)
    # the pixels closest to the limits of the requested region
    for sel, old, mot in (self_, oldf, fast), (sels, olds, slow):
        h = width * tomot[mot] / 2
        for x, got in (pos[mot] - h, sel[0]), (pos[mot] + h, sel[-1]):
            assert abs(got - x) <= np.abs(old - x).min() + 1e-9, (mot, x, got)
    moves = mv.split(" ")
    assert moves[0] == "mv"
    moves = {moves[i]: float(moves[i + 1]) for i in range(1, len(moves), 2)}
    assert moves == {fast: self_[0], slow: sels[0], other: header[other]}, (moves, self_, sels)


# ---------------------------------------------------------------- EDF scan headers
@check(quick=400, thorough=8000)
@given(st.data())
def scanheaders(data):
    draw = data.draw
    names = draw(words(5, 5))
    fast, slow, comp1, comp2, en = names
    kind, cmd, exp = draw(command(kinds=["zapimage", "zapimage2", "mesh", "zapenergy"], motors=[fast, slow]))
    use = {k: draw(B) for k in ("spec", "fast", "slow", "units", "comp", "energy", "rename")}
    use["hasenergy"] = draw(B)
    a, b = exp.get("startfast", 1.0), exp.get("endfast", 2.0)
    c, d = exp.get("startslow", 3.0), exp.get("endslow", 5.0)
    nf, ns = draw(st.integers(1, 30)), draw(st.integers(1, 30))
    motf, mots = exp.get("motfast", fast), exp.get("motslow", slow)
    header = {
        "Title": cmd, "fast_mot": motf, "fast_start": repr(a), "fast_end": repr(b), "fast_nbp": str(nf),
        "slow_mot": mots, "slow_start": repr(c), "slow_end": repr(d), "slow_nbp": str(ns),
        "Dim_1": str(draw(st.integers(2, 9))), "Dim_2": str(draw(st.integers(2, 9))),
    }
    hf = draw(B)
    hs = draw(B)
    if not hf:
        header.pop("fast_mot")
    if not hs:
        header.pop("slow_end")
    p1, p2, e = draw(F(-50, 50)), draw(F(-50, 50)), draw(F(1, 20))
    header[comp1] = repr(p1)
    if draw(B):
        header[comp2] = repr(p2)
    if use["hasenergy"]:
        header[en] = repr(e)
    unit = {fast: "mm", slow: "mm", comp1: "um", comp2: "um", en: "keV"} if use["units"] else {}
    compmot = {motf: [comp1], mots: [comp2]} if use["comp"] else {}
    rename = {fast: "y", slow: "z"} if use["rename"] else {}
    kw = {}
    if use["spec"]:
        kw["speclabel"] = "Title"
    if use["fast"]:
        kw["fastlabel"] = "fast"
    if use["slow"]:
        kw["slowlabel"] = "slow"
    if use["energy"]:
        kw["energy"] = en
    if unit:
        kw["units"] = unit
    if compmot:
        kw["compensationmotors"] = compmot
    if rename:
        kw["axesnamemap"] = rename
    default = draw(st.sampled_from([None, None, (6, 7)]))
    rec.current = repr((header, kw, default))
    rec.case((tuple(use.values()), kind, hf, hs, default is None), nontrivial=use["spec"] or use["fast"] or use["slow"])
    out = spec.edfheader_parser(**kw).parse(dict(header), defaultdims=default)
    # expected
    e_ = dict(exp) if use["spec"] else {}
    if use["fast"] and hf:
        e_.update(motfast=motf, startfast=a, endfast=b, npixelsfast=nf)
    elif use["fast"]:
        rec.label("incomplete header")
    if use["slow"] and hs:
        e_.update(motslow=mots, startslow=c, endslow=d, nstepsslow=ns)
    elif use["slow"]:
        # what is there is used
        e_.update(motslow=mots, startslow=c)
    axes = out["axes"]
    assert len(axes) == 2
    assert out["name"] == e_.get("name", "zapimage")
    for ax, label, nkey, dim in zip(axes, ("slow", "fast"), ("nstepsslow", "npixelsfast"), ("Dim_2", "Dim_1")):
        full = all(k in e_ for k in ("start" + label, "end" + label, nkey))
        if full:
            mot = e_["mot" + label]
            lo, hi, n = e_["start" + label], e_["end" + label], e_[nkey]
            if label == "fast":
                v = lo + (hi - lo) * (np.arange(n) + 0.5) / n
            else:
                v = np.linspace(lo, hi, n + 1)
            name = mot
            if use["comp"]:
                mc = compmot[mot][0]
                if mc in header:
                    v = v + float(header[mc]) * (1e-3 if use["units"] else 1)
                    name = rename.get(mot, mot)
            got = ax.magnitude
            near(np.atleast_1d(got), v, rtol=1e-9, atol=1e-9)
            assert ax.units == ureg.parse_units("mm" if use["units"] else "dimensionless"), ax.units
            assert ax.name == name, (ax.name, name)
            rec.label("axis")
        else:
            n = default[0 if label == "slow" else 1] if default else int(header[dim])
            assert ax.size == n, (ax.size, n)
            assert ax.name == label
            rec.label("default axis")
    if use["energy"]:
        if use["hasenergy"]:
            near(out["energy"].magnitude, e, rtol=1e-12)
        else:
            assert np.isnan(out["energy"].magnitude)
        assert out["energy"].units == ureg.parse_units("keV" if use["units"] else "dimensionless")
    if "time" in e_:
        near(out["time"].to("s").magnitude, e_["time"], rtol=1e-12)


# ---------------------------------------------------------------- spec files
@st.composite
def specscan(draw, nr, motors, i):
    """One scan: dict with the expected content and its text"""
    kind = draw(st.sampled_from(["zapimage", "puzzle", "mesh", "ascan", "mono", "mono", "sum", "sum2", "ct"]))
    s = {"kind": kind, "nr": nr}
    plain = [m for m in motors if m.isalpha()]
    if kind == "mono":
        a, b = draw(distinct())
        n, t = draw(st.integers(1, 50)), draw(st.sampled_from(["100", "0.1"]))
        s["cmd"] = "zapline mono {} {} {} {}".format(a, b, n, t)
        s["exp"] = {
            "name": "zapline", "motfast": "mono", "startfast": float(a), "endfast": float(b), "npixelsfast": n,
            "time": float(t) * 1e-3,
        }
        s["repeats"] = 1
    elif kind in ("sum", "sum2"):
        n = draw(st.integers(1, 4))
        s["cmd"] = "zapenergy {} {} 100".format(kind.upper(), n)
        s["exp"] = {"name": "zapenergy", "repeats": n, "time": 0.1}
        s["repeats"] = n
    elif kind == "ct":
        s["cmd"], s["exp"] = "timescan 1 0.1", {"name": "unknown"}
    else:
        _, s["cmd"], s["exp"] = draw(command(kinds=[kind], motors=plain))
    s["labels"] = draw(words(1, 4, chars=LETTERS + "_"))
    s["npoints"] = draw(st.sampled_from([0, 1, 2, 3, 5]))
    nlab = len(s["labels"])
    v = draw(st.lists(F(-1e4, 1e4), min_size=nlab * s["npoints"], max_size=nlab * s["npoints"]))
    txt = ["{:.8g}".format(x) for x in v]
    s["data"] = np.array([float(x) for x in txt]).reshape(s["npoints"], nlab)
    pos = [draw(F(-100, 100)) for _ in motors]
    ptxt = ["{:.8g}".format(x) for x in pos]
    s["pos"] = [float(x) for x in ptxt]
    loc = draw(st.integers(0, 2)) if kind not in ("zapimage", "puzzle") else 1
    s["loc"] = {"DIRECTORY": "", "RADIX": "", "ZAP SCAN NUMBER": "", "ZAP IMAGE NUMBER": ""}
    lines = ["#S {} {}".format(nr, s["cmd"]), "#D Thu Nov 19 02:30:00 2020"]
    if loc == 1:
        s["loc"] = {
            "DIRECTORY": "/data/" + draw(word()), "RADIX": draw(word(chars=LETTERS + "_")) + "x" + str(i),
            "ZAP SCAN NUMBER": draw(st.sampled_from(["{}", "{:04d}"])).format(draw(st.integers(0, 500))), "ZAP IMAGE NUMBER": str(draw(st.integers(0, 5))),
        }
        sp = draw(st.sampled_from([" ", ""]))
        lines += ["#C {}{}:{}{}".format(k, sp, sp, v) for k, v in s["loc"].items()]
    elif loc == 2:
        radix, num = draw(word()) + "_r", draw(st.integers(0, 999))
        dirname = "/data/" + draw(word())
        s["loc"] = {"DIRECTORY": dirname, "RADIX": radix, "ZAP SCAN NUMBER": num, "ZAP IMAGE NUMBER": 0}
        lines.append("#@XIAFILE {}/{}_xiaXX_{:04d}_0000_XXXX.edf".format(dirname, radix, num))
    for j in range(0, len(motors), 8):
        lines.append("#P{} {}".format(j // 8, " ".join(ptxt[j : j + 8])))
    lines.append("#N {}".format(nlab))
    lines.append("#L " + "  ".join(s["labels"]))
    for r in range(s["npoints"]):
        lines.append(" ".join(txt[r * nlab : (r + 1) * nlab]))
    s["text"] = "\n".join(lines) + "\n\n"
    return s


@st.composite
def specfile(draw):
    motors = draw(words(2, 10))
    extra = draw(B)
    if extra:
        motors = motors + ["Energy MONO"]
    nums, nr = [], 0
    for _ in range(draw(st.integers(1, 6))):
        nr += draw(st.sampled_from([1, 1, 1, 2, 5]))
        nums.append(nr)
    scans = [draw(specscan(nr, motors, i)) for i, nr in enumerate(nums)]
    # the sum of interpolated repeats follows the sum of the repeats
    for i, s in enumerate(scans):
        prev = scans[i - 1] if i else None
        if s["kind"] == "sum2" and not (prev and prev["kind"] == "sum" and prev["npoints"]):
            s["kind"] = "sum"
            s["cmd"] = s["cmd"].replace("SUM2", "SUM")
            s["text"] = s["text"].replace("SUM2", "SUM")
    text = "#F file\n#E 1605700000\n#D Thu Nov 19 02:30:00 2020\n#C user  User = opid\n"
    for j in range(0, len(motors), 8):
        text += "#O{} {}\n".format(j // 8, "  ".join(motors[j : j + 8]))
    text += "\n" + "".join(s["text"] for s in scans)
    return motors, scans, text


def randcase(draw, s):
    return draw(st.sampled_from([s, s.lower(), s.upper()]))


@check(quick=400, thorough=5000, shards={"quick": 2, "thorough": 4})
@given(st.data())
def specfiles(data):
    draw = data.draw
    motors, scans, text = draw(specfile())
    rec.current = text
    rec.case((len(motors), tuple(s["kind"] for s in scans)), nontrivial=len(scans) > 1)
    filename = os.path.join(tempfile.mkdtemp(), "f.dat")
    with open(filename, "w") as f:
        f.write(text)
    before = content(filename)
    with quiet():
        f = spec.spec(filename)
    for s in draw(st.permutations(scans)):
        nr, labels = s["nr"], s["labels"]
        rec.label(s["kind"])
        exp = dict(s["exp"])
        check_command(f.scancommand(nr), exp)
        loc = f.getxialocation(nr)
        assert loc == s["loc"], (loc, s["loc"])
        # motors
        sel = draw(st.lists(st.sampled_from(motors), min_size=1, max_size=3, unique=True))
        asked = [randcase(draw, m) for m in sel]
        values = [s["pos"][motors.index(m)] for m in sel]
        near(f.getmotorvalues(nr, asked), values, rtol=1e-6, atol=1e-9)
        near(f.getmotorvalues(nr, asked[0]), values[0], rtol=1e-6, atol=1e-9)
        assert f.hasmotors(nr, asked + ["nomotor0"]) == [True] * len(asked) + [False]
        assert f.hasmotors(nr, asked[0]) is True and f.hasmotors(nr, "nomotor0") is False
        # scan dimensions
        dims = f.getdimensions(nr, asked)
        assert set(dims) == set(asked)
        for m, q, v in zip(sel, asked, values):
            if exp["name"] == "zapimage" and m == exp["motfast"]:
                d = (exp["endfast"] - exp["startfast"]) / exp["npixelsfast"]
                near(dims[q], [exp["startfast"] + d / 2, exp["endfast"] - d / 2], rtol=1e-9, atol=1e-9)
                rec.label("fast motor")
            elif exp["name"] in ("mesh", "ascan") and m == exp["motfast"]:
                near(dims[q], [exp["startfast"], exp["endfast"]])
            elif exp["name"] in ("mesh", "zapimage") and m == exp["motslow"]:
                near(dims[q], [exp["startslow"], exp["endslow"]])
            elif exp["name"] in ("zapline", "puzzle"):
                pass
            else:
                near(dims[q], v, rtol=1e-6, atol=1e-9)
        # counters
        if s["npoints"] == 0:
            rec.label("empty scan")
            continue
        assert list(f.labels(nr)) == labels
        ask = draw(st.permutations(labels))[: draw(st.integers(1, len(labels)))]
        query = [randcase(draw, m) for m in ask]
        sub = s["data"][:, [labels.index(m) for m in ask]]
        near(f.getdata2(nr, query), sub, rtol=1e-6, atol=1e-9)
        near(f.getdata2(nr), s["data"], rtol=1e-6, atol=1e-9)
        got, info = f.getdata(nr, query)
        near(got, sub, rtol=1e-6, atol=1e-9)
        assert info == s["loc"]
        near(f.getdata(nr)[0], s["data"], rtol=1e-6, atol=1e-9)
        assert f.haslabels(nr, query + ["nolabel0"]) == [True] * len(query) + [False]
        assert f.haslabels(nr, query[0]) is True and f.haslabels(nr, "nolabel0") is False
    for func in f.labels, f.getdata, f.getdata2, f.scancommand, f.getxialocation:
        try:
            func(scans[-1]["nr"] + 1)
        except KeyError:
            pass
        else:
            raise AssertionError("no KeyError for a missing scan")
    # images
    sel = draw(st.lists(st.sampled_from(motors), max_size=3, unique=True))
    unit = {m: draw(st.sampled_from(["mm", "um"])) for m in motors if draw(B)}
    images = f.getimages(motors=[randcase(draw, m) for m in sel] + ["nomotor0"] if sel else None, units=unit)
    exp = {}
    for s in scans:
        if s["kind"] in ("zapimage", "puzzle"):
            exp["{}_{}".format(s["loc"]["RADIX"], int(s["loc"]["ZAP SCAN NUMBER"]))] = s
    assert list(images) == list(exp), (list(images), list(exp))
    for k, s in exp.items():
        rec.label("image")
        got, e = images[k], s["exp"]
        assert got["specnumber"] == str(s["nr"])
        assert got["scansize"] == "{} x {}".format(e["npixelsfast"], e["nstepsslow"] + 1)
        assert got["puzzle"] == (s["kind"] == "puzzle") and got["mesh"] is False
        assert (got["scandir"], got["scanname"], got["scannumber"]) == tuple(s["loc"].values())[:3]
        if sel:
            near(got["motors"][:-1], [s["pos"][motors.index(m)] for m in sel], rtol=1e-6, atol=1e-9)
            assert np.isnan(got["motors"][-1])
        else:
            assert got["motors"] == []
        dfast = (e["endfast"] - e["startfast"]) / e["npixelsfast"]
        dslow = (e["endslow"] - e["startslow"]) / e["nstepsslow"]
        for key, a, b in (
            ("pixelsize", dfast, dslow),
            ("scansize_units", dfast * (e["npixelsfast"] - 1), dslow * e["nstepsslow"]),
        ):
            for txt, mot, v in zip(got[key].split(" x "), (e["motfast"], e["motslow"]), (a, b)):
                scale = max(abs(e["endfast"]), abs(e["startfast"]), abs(e["endslow"]), abs(e["startslow"]))
                num, _, u = txt.partition(" ")
                near(float(num), v, rtol=1e-6, atol=1e-9 * scale)
                if mot in unit:
                    assert ureg.parse_units(u) == ureg.parse_units(unit[mot]), (txt, unit[mot])
                else:
                    assert u in ("", "dimensionless"), txt
    # scans by pattern
    name = draw(st.sampled_from(["zapimage", "ascan", "zapline", "zapenergy"]))
    got = f.getregexscans(r"(?P<name>{}) (?P<first>[^ ]+)".format(name))
    exp = {s["nr"]: s["cmd"].split(" ")[1] for s in scans if s["cmd"].startswith(name + " ")}
    assert {k: v["first"] for k, v in got.items() if v["first"]} == {k: v for k, v in exp.items() if v}
    assert list(got) == list(exp)
    assert content(filename) == before


@check(quick=400, thorough=5000, shards={"quick": 1, "thorough": 3})
@given(st.data())
def xanes(data):
    """Repeated spectra and their sums"""
    draw = data.draw
    kinds = draw(st.lists(st.sampled_from(["mono", "mono", "mono", "sum", "both", "other", "empty"]), min_size=1, max_size=9))
    text = "#F file\n#D Thu Nov 19 02:30:00 2020\n#O0 a  b\n\n"
    nr, scans = 0, []
    for k in kinds:
        for cmd in {
            "mono": ["zapline mono {} {} 10 {}"], "sum": ["zapenergy SUM {n} {t}"], "other": ["ascan a 0 1 10 0.1"],
            "empty": ["zapline mono 7 8 10 100"], "both": ["zapenergy SUM {n} {t}", "zapenergy SUM2 {n} {t}"],
        }[k]:
            nr += draw(st.sampled_from([1, 1, 1, 3]))
            n = draw(st.integers(1, 4)) if "SUM2" not in cmd else n
            t = draw(st.sampled_from([100, 250]))
            cmd = cmd.format(7, 8, t, n=n, t=t)
            pts = 0 if k == "empty" else draw(st.integers(1, 3))
            d = np.arange(2 * pts).reshape(pts, 2) + 10.0 * nr
            text += "#S {} {}\n#D Thu Nov 19 02:30:00 2020\n#P0 1 2\n#N 2\n#L arr_energy  arr_fdt\n".format(nr, cmd)
            text += "".join("{} {}\n".format(*row) for row in d) + "\n"
            if "ascan" not in cmd and pts:
                scans.append({"nr": nr, "n": 1 if "mono" in cmd else n, "t": t, "d": d, "sum2": "SUM2" in cmd})
    filename = os.path.join(tempfile.mkdtemp(), "f.dat")
    with open(filename, "w") as f:
        f.write(text)
    rec.current = text
    skip = draw(st.lists(st.integers(1, max(nr, 1)), max_size=2))
    if any(s["sum2"] for s in scans):
        skip = []
    nrmin = draw(st.sampled_from([None, None, 1, 2])) if not any(s["sum2"] for s in scans) else None
    nrmax = draw(st.sampled_from([None, None, nr, nr - 1]))
    with quiet():
        f = spec.spec(filename)
    exp = []
    for s in scans:
        if s["nr"] in skip or (nrmin is not None and s["nr"] < nrmin) or (nrmax is not None and s["nr"] > nrmax):
            continue
        if s["sum2"]:
            exp[-1] = s
        else:
            exp.append(s)
    kw = {"skip": skip or None, "nrmin": nrmin, "nrmax": nrmax}
    got = f.extractxanesinfo(**kw)
    assert got == [{"scannumber": s["nr"], "repeats": s["n"]} for s in exp], (got, exp)
    labels = draw(st.sampled_from([["arr_energy", "arr_fdt"], ["arr_fdt"], ["ARR_FDT", "arr_energy"]]))
    out = f.extractxanes([g["scannumber"] for g in got], labels)
    assert list(out) == [s["nr"] for s in exp]
    for s in exp:
        o = out[s["nr"]]
        assert o["repeats"] == s["n"]
        near(o["time"].to("ms").magnitude, s["t"])
        near(o["data"], s["d"][:, [["arr_energy", "arr_fdt"].index(x.lower()) for x in labels]], rtol=1e-6)
        assert o["labels"] == ["{}.{}".format(x, s["nr"]) for x in labels]
    rec.case((tuple(kinds), len(exp)), nontrivial=len(exp) > 1)
    # groups: the repeats right before a sum belong to the sum
    owner = {}
    for i, s in enumerate(exp):
        if s["n"] > 1:
            j = i - 1
            while j >= 0 and i - j <= s["n"] and exp[j]["n"] == 1:
                owner.setdefault(i, []).insert(0, j)
                j -= 1
    used = {j for v in owner.values() for j in v}
    numbers = [s["nr"] for s in exp]
    single = [i for i, s in enumerate(exp) if s["n"] == 1 and i not in used]
    sums = [i for i, s in enumerate(exp) if s["n"] > 1]
    default = f.extractxanesginfo(**kw)
    groups = [[numbers[j] for j in owner[i]] for i in sums if i in owner]
    assert default == groups + [[numbers[i]] for i in single], (default, groups, single)
    if groups:
        rec.label("groups")
    withsum = f.extractxanesginfo(keepsum=True, sumingroups=True, **kw)
    g2 = [[numbers[j] for j in owner.get(i, [])] + [numbers[i]] for i in sums]
    assert withsum == g2 + [[numbers[i]] for i in single], withsum
    sep = f.extractxanesginfo(keepsum=True, **kw)
    assert sep == groups + [[numbers[i]] for i in sorted(single + sums)], sep
    ind = f.extractxanesginfo(keepindividual=True, **kw)
    assert ind == groups + [[numbers[i]] for i in range(len(exp)) if i not in sums], ind


# ---------------------------------------------------------------- names
@check(quick=400, thorough=8000)
@given(st.data())
def names(data):
    draw = data.draw
    base = draw(st.text("ab_.-{}% 019", min_size=1, max_size=8))
    rec.current = repr(base)
    existing, order = [], []
    exists = set(draw(st.lists(st.sampled_from([base, base + ".1", base + ".2", target.increment(base)]), max_size=3)))
    name = target.Name(base)
    match = target.match(base)
    n = draw(st.integers(2, 12))
    for _ in range(n):
        while str(name) in exists:
            name += 1
        s = str(name)
        assert s not in exists
        assert match(s), (base, s)
        exists.add(s)
        order.append(name.num)
        existing.append(s)
    assert order == sorted(set(order))
    assert len(set(existing)) == n
    assert target.prepare(existing[0]) == existing[0]
    digits = list(re.finditer("[0-9]+", base))
    if digits:
        m = digits[-1]
        pre, post, width = base[: m.start()], base[m.end() :], m.end() - m.start()
        start = int(m.group())
        assert target.prepare(base) == base
    else:
        pre, post, width, start = base + ".", "", 1, 1
        assert target.prepare(base) == base + ".1"
    for s, k in zip(existing, order):
        assert s == pre + str(k).zfill(width) + post, (base, s)
        assert k >= start
        assert target.increment(s) == pre + str(k + 1).zfill(width) + post
    rec.case((len(base), bool(digits), n), nontrivial=True)
    name.reset()
    assert name.num == start
    name.lock()
    name += 3
    assert name.num == start
    name.unlock()
    name += 3
    assert name.num == start + 3 and str(name + 2) == pre + str(start + 5).zfill(width) + post
    assert not match("x" + existing[0])
    # temporary names
    d = tempfile.mkdtemp()
    tmp = {ioutils.temporary_filename(d, suffix=".h5", prefix="p") for _ in range(20)}
    assert len(tmp) == 20
    for t in tmp:
        assert os.path.dirname(t) == d and os.path.basename(t).startswith("p") and t.endswith(".h5")
        assert not os.path.exists(t)

"""C05: interpolation of tables"""
import math
import os
import numpy as np
from scipy.interpolate import make_interp_spline
from dispersion import Spectrum, Interpolation, Material
from mc import ref

BOUNDS = {'quick': "9 table units x 9 request units x 14 lengths x 3 grids x row "
                   "orders x interpolation orders 1-3 x 10 kinds of table",
          'thorough': "lengths 2..60 and up to 5000; orders 0..5"}
ASSUMPTIONS = ["between rows an order >= 2 spline is the not-a-knot spline "
               "(as for scipy interp1d); order 0 is one of "
               "the neighbouring rows"]
KINDS = ['Interpolation', 'tabulated_n', 'tabulated_nk', 'tabulated_eps',
         'tabulated_n_alpha', 'file nk', 'file two tables',
         'file eps two tables', 'file n_alpha', 'file eps']
QUICK_LEN = [2, 3, 4, 5, 6, 8, 10, 13, 21, 50, 101, 200, 513, 1001]


def grid(tu, count, shape):
    """ascending positions in unit tu between 0.2 and 2 micrometre"""
    low, high = sorted([ref.from_m(tu, 2e-7), ref.from_m(tu, 2e-6)])
    if count == 1:
        return np.array([low])
    t = np.arange(count) / (count - 1.0)
    if shape == 'clustered':
        t = t ** 3 * 0.6 + t * 0.4
    elif shape == 'steps':
        # alternating wide and narrow steps
        w = np.where(np.arange(count - 1) % 2 == 0, 1.0, 0.05)
        t = np.concatenate([[0], np.cumsum(w)]) / w.sum()
    out = low + (high - low) * t
    out[-1] = high
    return out


def columns(count, phase):
    i = np.arange(count)
    return (1.7 + 0.4 * np.sin(0.9 * i + phase) + 0.003 * i,
            0.35 + 0.3 * np.cos(1.7 * i + 0.3 + phase))


def shuffled(tab, how):
    n = len(tab)
    if how == 'ascending':
        return tab.copy()
    if how == 'descending':
        return tab[::-1].copy()
    idx = (np.arange(n) * (7 if math.gcd(7, n) == 1 else 1 if n < 3 else
                           next(k for k in (11, 13, 17, 19) if math.gcd(k, n) == 1))
           + n // 3) % n
    return tab[idx].copy()


def make(kind, tab, tu, order):
    """material or data set and the expected columns"""
    kws = {'spectrum_type': tu[0], 'unit': tu[1]}
    if order is not None:
        kws['interp_order'] = order
    if kind == 'Interpolation':
        data = Interpolation(tab[:, :2].copy(), **kws)
        return (lambda s: data.evaluate(s)), tab[:, 1], None
    if kind == 'tabulated_n':
        mat = Material(tabulated_n=tab[:, :2].copy(), **kws)
        return mat.get_nk_data, tab[:, 1], np.zeros(len(tab))
    if kind == 'tabulated_nk':
        mat = Material(tabulated_nk=tab.copy(), **kws)
        return mat.get_nk_data, tab[:, 1], tab[:, 2]
    if kind == 'tabulated_eps':
        mat = Material(tabulated_eps=tab.copy(), **kws)
        return mat.get_permittivity, tab[:, 1], tab[:, 2]
    if kind == 'tabulated_n_alpha':
        mat = Material(tabulated_n_alpha=tab.copy(), **kws)
        lam_cm = ref.to_m(tu, tab[:, 0]) * 100
        return mat.get_nk_data, tab[:, 1], tab[:, 2] * lam_cm / (4 * np.pi)
    path = os.path.join(os.environ['MC_WORK'], 'c05.yml' if 'two' in kind
                        else 'c05.txt')
    if 'two' not in kind:
        with open(path, 'w') as fpt:
            fpt.write("# SPECTRUMTYPE: {}\n# UNIT: {}\n".format(*tu))
            if kind != 'file nk':
                fpt.write("# DATATYPE: tabulated {}\n".format(kind.split()[1]))
            for row in tab:
                fpt.write(" ".join(repr(float(v)) for v in row) + "\n")
    else:
        with open(path, 'w') as fpt:
            fpt.write("DATA:\n")
            for name, col in ((('eps_i', 2), ('eps_r', 1)) if 'eps' in kind
                              else (('k', 2), ('n', 1))):
                fpt.write("  - type: tabulated {}\n    SpectrumType: {}\n"
                          "    Unit: {}\n    data: |\n".format(name, *tu))
                for row in tab:
                    fpt.write("        {!r} {!r}\n".format(float(row[0]),
                                                           float(row[col])))
    okw = {} if order is None else {'interp_order': order}
    mat = Material(file_path=path, **okw)
    if 'eps' in kind:
        return mat.get_permittivity, tab[:, 1], tab[:, 2]
    if 'alpha' in kind:
        lam_cm = ref.to_m(tu, tab[:, 0]) * 100
        return mat.get_nk_data, tab[:, 1], tab[:, 2] * lam_cm / (4 * np.pi)
    return mat.get_nk_data, tab[:, 1], tab[:, 2]


def slope(xs, ys):
    srt = np.argsort(xs)
    return np.max(np.abs(np.diff(ys[srt]) / np.diff(xs[srt])))


def curve(xs, ys, order):
    srt = np.argsort(xs)
    xs, ys = xs[srt], ys[srt]
    if order in (None, 1):
        return lambda x: np.interp(x, xs, ys)
    return make_interp_spline(xs, ys, k=order)


def compare(c, got, xs, re_col, im_col, at, order, tu, what):
    order_f = 1 if order is None else order
    tol_x = 1.1 * (ref.ROUNDING[tu[1]] + 1e-11 * np.max(np.abs(xs)))
    for part, col in ((np.real(got), re_col), (np.imag(got), im_col)):
        if col is None:
            continue
        exp = curve(xs, col, order)(at)
        # an absorption coefficient is converted with a rounded wavelength
        tol = (1e-8 * np.max(np.abs(col)) + slope(xs, col) * tol_x *
               (1 if order_f == 1 else 60))
        c.check(np.shape(part) == np.shape(exp) and
                np.all(np.abs(part - exp) <= tol),
                "{}: at {} {}: got {}, expected {}", what, at[:4], tu, part[:4],
                exp[:4])


def interpolation(c):
    """rows and points between rows"""
    kind = c.choose('kind', KINDS)
    tu = c.choose('table unit', ref.TU)
    order = c.choose('interpolation order',
                     [None, 1, 2, 3] + ([4, 5] if c.thorough else []))
    arr = c.choose('rows', ['ascending'] if kind.startswith('file') else
                   ['ascending', 'descending', 'mixed'])
    shape = c.choose('grid', ['uniform', 'clustered', 'steps'])
    lengths = QUICK_LEN if not c.thorough else (list(range(2, 61)) +
                                                QUICK_LEN + [5000])
    for count in lengths:
        if count < (order or 1) + 1:
            continue
        if shape == 'steps' and order not in (None, 1) and count > 60:
            continue
        xs = grid(tu, count, shape)
        cols = columns(count, 0.1 * len(kind))
        tab = shuffled(np.column_stack([xs, cols[0], cols[1]]), arr)
        func, re_col, im_col = make(kind, tab, tu, order)
        inner = np.concatenate([xs[:-1] + f * np.diff(xs)
                                for f in (0.5, 0.123, 0.97)])
        if count > 60:
            inner = inner[::max(1, len(inner) // 60)]
        nodes = xs if count <= 60 else xs[np.r_[0:20, count // 2:count // 2 + 10,
                                                count - 20:count]]
        qtus = ref.TU if count in (5, 101) else [
            tu, ref.TU[(count + ref.TU.index(tu)) % 9]]
        for qtu in qtus:
            for at, what in ((nodes, 'row'), (inner, 'between rows')):
                req = Spectrum(ref.convert(tu, qtu, at), qtu[0], qtu[1])
                got = func(req)
                c.op()
                if what == 'row' and order not in (None, 1):
                    # rows are reproduced whatever the spline does in between
                    pass
                compare(c, got, tab[:, 0], re_col, im_col, at, order, tu,
                        "{} rows, {}, {}".format(count, what, qtu))
        c.state(kind, tu, order, arr, shape, count)
    c.outcome(kind, order)


def polynomial(c):
    """order k splines continue polynomials of degree k between the rows"""
    kind = c.choose('kind', ['Interpolation', 'tabulated_nk', 'tabulated_eps',
                             'file nk'])
    tu = c.choose('table unit', ref.TU)
    order = c.choose('interpolation order', [None, 1, 2, 3])
    count = c.choose('rows', [5, 9, 30])
    low, high = sorted([ref.from_m(tu, 2e-7), ref.from_m(tu, 2e-6)])
    xs = grid(tu, count, 'clustered')
    t = (xs - low) / (high - low)
    deg = order or 1
    coef = [1.5, 0.3, -0.45, 0.7][:deg + 1]
    coef2 = [0.4, 0.2, 0.33, -0.2][:deg + 1]

    def poly(cf, t):
        return sum(k * t ** i for i, k in enumerate(cf))
    tab = np.column_stack([xs, poly(coef, t), poly(coef2, t)])
    func, re_col, im_col = make(kind, tab, tu, order)
    tt = np.linspace(0.001, 0.999, 57)
    for qtu in ref.TU:
        got = func(Spectrum(ref.convert(tu, qtu, low + (high - low) * tt), *qtu))
        c.op()
        tol = 1e-7
        c.check(np.all(np.abs(np.real(got) - poly(coef, tt)) < tol),
                "real part off by {}", np.max(np.abs(np.real(got) -
                                                     poly(coef, tt))))
        if im_col is not None:
            c.check(np.all(np.abs(np.imag(got) - poly(coef2, tt)) < tol),
                    "imaginary part off by {}",
                    np.max(np.abs(np.imag(got) - poly(coef2, tt))))
        c.state(kind, tu, order, count, qtu)


def one_row(c):
    """a table with one row is a constant at this point"""
    kind = c.choose('kind', ['tabulated_n', 'tabulated_nk', 'tabulated_eps',
                             'tabulated_n_alpha', 'file nk'])
    tu = c.choose('table unit', ref.TU)
    order = c.choose('interpolation order', [None, 1, 3])
    tab = np.array([[ref.from_m(tu, 5e-7), 1.62, 0.37]])
    func, re_col, im_col = make(kind, tab, tu, order)
    for qtu in ref.TU:
        val = ref.from_m(qtu, 5e-7)
        for arg in (val, [val], [val, val, val]):
            got = func(Spectrum(arg, *qtu))
            c.op()
            exp = (re_col[0] + 1j * im_col[0]) * np.ones(np.shape(arg))
            c.check(ref.close(got, exp, 1e-8), "{} instead of {}", got, exp)
        for bad in (5.01e-7, 4.9e-7):
            try:
                func(Spectrum(ref.from_m(qtu, bad), *qtu))
            except ValueError:
                continue
            c.fail("one row table evaluated at another point")
        c.state(kind, tu, order, qtu)


def independent_parts(c):
    """real and imaginary part never influence each other"""
    kind = c.choose('kind', ['tabulated_nk', 'tabulated_eps',
                             'tabulated_n_alpha', 'file nk'])
    tu = c.choose('table unit', ref.TU)
    order = c.choose('interpolation order', [1, 2, 3])
    count = 7
    xs = grid(tu, count, 'uniform')
    at = np.concatenate([xs, 0.5 * (xs[1:] + xs[:-1])])
    for which in range(count):
        for part in (0, 1):
            cols = [np.full(count, 1.0), np.full(count, 1.0)]
            cols[part][which] = 2.0
            tab = np.column_stack([xs] + cols)
            func, re_col, im_col = make(kind, tab, tu, order)
            got = func(Spectrum(at, *tu))
            c.op()
            compare(c, got, xs, re_col, im_col, at, order, tu,
                    "bump in row {} of part {}".format(which, part))
            c.state(kind, tu, order, which, part)


def extremes(c):
    """magnitudes of positions and values"""
    decade = c.choose('metres', [1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-5, 1e-4,
                                 1e-3, 1e-2, 1.0])
    tu = c.choose('table unit', [('wavelength', 'm'), ('frequency', 'hz'),
                                 ('angularfrequency', '1/s'),
                                 ('wavenumber', '1/cm'), ('wavelength', 'nm')])
    scale = c.choose('value', [1e-8, 1e-4, 1.0, 1e3, -1.0])
    kind = c.choose('kind', ['Interpolation', 'tabulated_eps'])
    xs = np.sort(ref.from_m(tu, decade * np.array([1., 1.3, 2.1, 2.9, 5.])))
    tab = np.column_stack([xs, scale * np.array([1., 3., 2., 5., 4.]),
                           abs(scale) * np.array([.3, .1, .2, .7, .5])])
    func, re_col, im_col = make(kind, tab, tu, None)
    at = np.concatenate([xs, 0.5 * (xs[1:] + xs[:-1])])
    got = func(Spectrum(at, *tu))
    c.op()
    for part, col in ((np.real(got), re_col), (np.imag(got), im_col)):
        if col is None:
            continue
        exp = np.array([ref.linear(xs, col, v) for v in at])
        dx = ref.ROUNDING[tu[1]] + 1e-11 * xs.max()
        c.check(np.all(np.abs(part - exp) <= 1e-9 * abs(scale) * 5 +
                       slope(xs, col) * dx), "{} instead of {}", part, exp)
    c.state(decade, tu, scale, kind)


def order_zero(c):
    """order 0 reproduces the rows"""
    kind = c.choose('kind', ['Interpolation', 'tabulated_nk'])
    arr = c.choose('rows', ['ascending', 'descending', 'mixed'])
    tu = c.choose('table unit', [('wavelength', 'nm'), ('energy', 'ev')])
    xs = np.array([1., 2., 3., 4.5, 7.])
    cols = columns(5, 0.2)
    tab = shuffled(np.column_stack([xs, cols[0], cols[1]]), arr)
    func, re_col, im_col = make(kind, tab, tu, 0)
    got = func(Spectrum(xs, *tu))
    c.op()
    c.check(ref.close(np.real(got), cols[0]), "{} instead of {}", got, cols[0])
    if im_col is not None:
        c.check(ref.close(np.imag(got), cols[1]), "{} instead of {}", got, cols[1])
    # between rows: one of the neighbours
    for frac in (.01, .3, .5, .7, .99):
        got = func(Spectrum(xs[:-1] + frac * np.diff(xs), *tu))
        c.op()
        for part, col, used in ((np.real(got), cols[0], True),
                                (np.imag(got), cols[1], im_col is not None)):
            near = np.minimum(abs(part - col[:-1]), abs(part - col[1:]))
            c.check(not used or np.all(near < 1e-9), "{} between rows {}", part,
                    col)
    c.state(kind, arr, tu)


def flat(c):
    """equal values are still a table over its whole range"""
    kind = c.choose('kind', KINDS)
    tu = c.choose('table unit', ref.TU)
    count = c.choose('rows', [2, 3, 4, 7])
    real = c.choose('real part', ['flat', 'zero', 'bump', 'negative'])
    imag = c.choose('imaginary part', ['flat', 'zero', 'bump'])
    order = c.choose('interpolation order', [None] if count == 2 else [None, 2])
    xs = grid(tu, count, 'clustered')
    cols = []
    for how, base in ((real, 1.5), (imag, .25)):
        col = np.full(count, {'zero': 0.0, 'negative': -base}.get(how, base))
        if how == 'bump':
            col[count // 2] += .5
        cols.append(col)
    if real == 'negative' and 'eps' not in kind and kind != 'Interpolation':
        c.prune()
    tab = np.column_stack([xs] + cols)
    func, re_col, im_col = make(kind, tab, tu, order)
    at = np.concatenate([xs, xs[:-1] + .4 * np.diff(xs)])
    for qtu in (tu, ('wavelength', 'um'), ('energy', 'ev')):
        got = func(Spectrum(ref.convert(tu, qtu, at), *qtu))
        c.op()
        compare(c, got, xs, re_col, im_col, at, order, tu, (kind, count, qtu))
        single = func(Spectrum(float(ref.convert(tu, qtu, at[-1])), *qtu))
        compare(c, np.array([single]), xs, re_col, im_col, at[-1:], order, tu,
                (kind, count, qtu))
    c.state(kind, tu, count, real, imag, order)


def alpha(c):
    """absorption coefficients of any size at any wavelength"""
    tu = c.choose('table unit', ref.TU)
    decade = c.choose('metres', [1e-9, 3e-8, 1e-7, 5e-7, 1e-5, 1e-3])
    rows = c.choose('rows', [1, 2, 4])
    arr = c.choose('order', ['ascending', 'descending'])
    for size in (1e-6, .03, 1.0, 2e4, 1e7, -40.0):
        met = decade * np.array([1., 1.7, 2.2, 9.])[:rows]
        xs = np.sort(ref.from_m(tu, met))
        tab = np.column_stack([xs, 1.5 + .1 * np.arange(rows),
                               size * np.array([1., 0., .3, 2.])[:rows]])
        if arr == 'descending':
            tab = tab[::-1].copy()
        func, re_col, im_col = make('tabulated_n_alpha', tab, tu, None)
        got = func(Spectrum(tab[:, 0], *tu))
        c.op()
        lam = ref.to_m(tu, tab[:, 0])
        off = 2e-9 + 2 * (1e-15 + ref.pos_error(tu, lam.min())) / lam.min()
        near = slope(xs, im_col) * ref.ROUNDING[tu[1]] * 1.1 if rows > 1 else 0.0
        c.check(np.all(abs(np.imag(got) - im_col) <= off * np.max(abs(im_col)) + near),
                "{} 1/cm at {} m: k is {} instead of {}", tab[:, 2], lam,
                np.imag(got), im_col)
        c.check(ref.close(np.real(got), re_col, 1e-6), "n is {}", np.real(got))
        c.state(tu, decade, rows, arr, size)


def unequal(c):
    """one part many orders of magnitude smaller than the other"""
    kind = c.choose('kind', [k for k in KINDS if k not in ('Interpolation',
                                                           'tabulated_n')])
    tu = c.choose('table unit', ref.TU)
    order = c.choose('interpolation order', [None, 3])
    xs = grid(tu, 7, 'clustered')
    at = np.concatenate([xs, xs[:-1] + .4 * np.diff(xs)])
    one, two = columns(7, 0.7)
    for size in (1e-30, 1e-15, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e4, 1e9):
        for part in (0, 1):
            tab = np.column_stack([xs, one * (1.0 if part else size),
                                   two * (size if part else 1.0)])
            func, re_col, im_col = make(kind, tab, tu, order)
            got = func(Spectrum(at, *tu))
            c.op()
            compare(c, got, xs, re_col, im_col, at, order, tu, (kind, size, part))
            c.state(kind, tu, order, size, part)


def too_few(c):
    """a table with too few rows for the order has no such spline"""
    kind = c.choose('kind', KINDS)
    tu = c.choose('table unit', ref.TU)
    order = c.choose('interpolation order', [2, 3, 4, 5])
    for count in range(2, order + 1):
        xs = grid(tu, count, 'uniform')
        tab = np.column_stack((xs,) + columns(count, 0.3))
        for at in (xs[0], xs, 0.5 * (xs[0] + xs[1])):
            try:
                got = make(kind, tab, tu, order)[0](Spectrum(at, *tu))
            except Exception:
                c.op()
                continue
            c.fail("{} rows, order {}: {}".format(count, order, got))
        c.state(kind, tu, order, count)


SCENARIOS = {'interpolation': interpolation, 'polynomial': polynomial,
             'one row': one_row, 'independent parts': independent_parts,
             'extremes': extremes, 'order zero': order_zero, 'flat': flat,
             'alpha': alpha, 'too few rows': too_few,
             'unequal parts': unequal}

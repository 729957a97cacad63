"""C11: extrapolation and removal of absorption"""
import numpy as np
from dispersion import Spectrum, Constant, Interpolation, Extrapolation, Material
import dispersion.spectral_data as sd
from mc import ref, subjects

BOUNDS = {'quick': "polynomials up to degree 4 x spline orders 1-4 x 9 data units x "
                   "9 target units x 10 target shapes; all histories of 3 operations; "
                   "straight lines in 5 spectral regions",
          'thorough': "all histories of 4 operations, more lengths"}
ASSUMPTIONS = []
LOW, HIGH = 4e-7, 8e-7
ENDS = {'far': (3.1e-7, 1.1e-6), 'middle': (3.7e-7, 8.7e-7),
        'near': (3.9e-7, 8.2e-7)}


class Poly:
    """polynomial in the data's own unit, scaled to the range"""

    def __init__(self, tu, coeff):
        self.tu = tu
        self.low, self.high = sorted([ref.from_m(tu, LOW), ref.from_m(tu, HIGH)])
        self.coeff = coeff

    def __call__(self, values):
        t = (np.asarray(values, dtype=float) - self.low) / (self.high - self.low)
        return sum(a * t ** i for i, a in enumerate(self.coeff))

    def at(self, metres):
        return self(ref.from_m(self.tu, metres))


COEFF = {0: [1.7], 1: [1.5, .4], 2: [1.5, .3, -.2], 3: [1.6, -.2, .3, .15],
         4: [1.6, -.2, .3, .15, 2.5]}


def base(kind, tu, deg, order):
    pol = Poly(tu, COEFF[deg])
    if kind.startswith('model'):
        # Cauchy with positive exponents is a polynomial in micrometre
        if deg == 0:
            par = [1.7]
        else:
            # expand in powers of x
            p = np.polynomial.Polynomial(pol.coeff)(np.polynomial.Polynomial(
                [-pol.low / (pol.high - pol.low), 1 / (pol.high - pol.low)]))
            par = [p.coef[0]]
            for i, a in enumerate(p.coef[1:], 1):
                par += [a, float(i)]
        ends = [pol.low, pol.high]
        if kind == 'model reversed':
            ends = ends[::-1]
        return sd.Cauchy(np.array(par), ends,
                         spectrum_type='wavelength', unit='um'), pol
    rows = 40 if deg > 1 else 7
    xs = np.linspace(pol.low, pol.high, rows)
    xs[-1] = pol.high
    tab = np.column_stack([xs, pol(xs)])
    if kind == 'descending':
        tab = tab[::-1].copy()
    return Interpolation(tab, spectrum_type=tu[0], unit=tu[1],
                         interp_order=max(1, deg)), pol


def targets(shape, ends):
    return {'low': (ends[0], (ends[0], HIGH)),
            'high': (ends[1], (LOW, ends[1])),
            'low in array': ([ends[0]], (ends[0], HIGH)),
            'high in array': ([ends[1]], (LOW, ends[1])),
            'both': ([ends[0], ends[1]], tuple(ends)),
            'both reversed': ([ends[1], ends[0]], tuple(ends)),
            'two low': ([ends[0], .5 * (ends[0] + LOW)], (ends[0], HIGH)),
            'two low reversed': ([.5 * (ends[0] + LOW), ends[0]], (ends[0], HIGH)),
            'two high': ([ends[1], .5 * (ends[1] + HIGH)], (LOW, ends[1])),
            'two high reversed': ([.5 * (ends[1] + HIGH), ends[1]],
                                  (LOW, ends[1]))}[shape]


SHAPES = ['low', 'high', 'low in array', 'high in array', 'both', 'both reversed',
          'two low', 'two low reversed', 'two high', 'two high reversed']


def refused(func, *args):
    try:
        func(*args)
    except ValueError:
        return True
    return False


def precision(tu, order, low, high):
    """error of the continuation: noise of the fitted values (rounding of the
    unit) amplified over the distance from the last 1/1000 of the range"""
    ends = np.array(sorted(ref.from_m(tu, m) for m in (LOW, HIGH)))
    width = ends[1] - ends[0]
    noise = ref.ROUNDING[tu[1]] / width + 1e-15
    new = np.array(sorted(ref.from_m(tu, m) for m in (low, high)))
    growth = np.log(ends[1] / ends[0]) / 999
    amp = max(((ends[0] - new[0]) / (growth * ends[0]) + 1) ** order,
              ((new[1] - ends[1]) / (growth * ends[1]) + 1) ** order)
    return 4 * 2 ** order * noise * amp + 1e-7


def single(c):
    """one extrapolation of one data set"""
    kind = c.choose('data', ['table', 'descending', 'model',
                             'model reversed'])
    tu = c.choose('unit', ref.TU if 'model' not in kind else [('wavelength', 'um')])
    deg = c.choose('degree', [0, 1, 2, 3, 4])
    order = c.choose('spline order', [o for o in (1, 2, 3, 4) if o >= deg])
    kws = {'spline_order': order}
    if order == 2 and c.choose('order given', [True, False]) is False:
        kws = {}                # two is the default
    # the farthest reach at which the continuation is still well defined
    good = [r for r, e in ENDS.items() if precision(tu, order, *e) < 1e-2]
    if c.thorough:
        reach = c.choose('ends', list(ENDS))
    else:
        reach = (good or ['near'])[0]
    for shape in SHAPES:
        for ttu in ref.TU:
            data, pol = base(kind, tu, deg, order)
            met, (low, high) = targets(shape, ENDS[reach])
            vals = ref.from_m(ttu, np.array(met) if isinstance(met, list) else met)
            spec = Spectrum(vals, *ttu)
            before = (np.copy(spec.values), spec.spectrum_type, spec.unit)
            inner = ref.spread(LOW, HIGH, 41)
            orig = data.evaluate(Spectrum(inner))
            ext = Extrapolation(data, spec, **kws)
            c.op(2)
            c.check(np.array_equal(before[0], spec.values) and
                    before[1:] == (spec.spectrum_type, spec.unit),
                    "the target spectrum was changed")
            tag = (kind, tu, deg, order, shape, ttu)
            got = ext.evaluate(Spectrum(inner))
            c.check(ref.close(got, orig, 1e-10), "{}: values inside changed", tag)
            # inside points in one request with outside points, and alone
            tol = ref.pos_error(tu, 1e-6) + ref.pos_error(ttu, 1e-6)
            lo, hi = low + tol, high - tol
            outer = np.array([lo, .5 * (low + LOW) if low < LOW else 5e-7, 6e-7,
                              .5 * (high + HIGH) if high > HIGH else 7e-7, hi])
            prec = precision(tu, order, low, high)
            if prec > 1e-2:
                c.state(tag)
                continue
            want = pol.at(outer)
            got = ext.evaluate(Spectrum(outer))
            c.check(ref.close(got, want, prec, prec), "{}: {} instead of {}", tag,
                    got, want)
            c.check(abs(got[2] - pol.at(6e-7)) < 1e-3 * prec + 1e-8 if
                    deg < 2 else True, "{}: inside point is {}", tag, got[2])
            got = ext.evaluate(Spectrum(outer[::-1].copy()))
            c.check(ref.close(got, want[::-1], prec, prec),
                    "{}: {} instead of {}", tag, got, want[::-1])
            for m, w in zip(outer, want):
                got = ext.evaluate(Spectrum(float(m)))
                c.check(np.ndim(got) == 0 and abs(got - w) <= prec * (1 + abs(w)),
                        "{}: {} instead of {} at {}", tag, got, w, m)
            c.op(8)
            # unchanged base data set
            c.check(ref.close(data.evaluate(Spectrum(inner)), orig, 1e-12),
                    "base data changed")
            for bad in (low * (1 - 1e-6) - tol, high * (1 + 1e-6) + tol, low / 2,
                        high * 2):
                c.check(refused(ext.evaluate, Spectrum(float(bad))),
                        "{}: evaluated at {}", tag, bad)
                c.check(refused(ext.evaluate, Spectrum([6e-7, float(bad)])),
                        "{}: evaluated at {}", tag, bad)
                c.op(2)
            c.state(tag)
    c.outcome(kind, deg, order)


def rejected(c):
    """targets that are not outside"""
    kind = c.choose('data', ['table', 'descending', 'model', 'model reversed',
                             'material nk', 'material eps'])
    tu = c.choose('unit', ref.TU if 'model' not in kind else [('wavelength', 'um')])
    points = {'low end': LOW, 'high end': HIGH, 'middle': 6e-7, 'below': 3e-7,
              'above': 9e-7}
    for names in ([(a,) for a in points] + [(a, b) for a in points for b in points]
                  + [('below', 'middle', 'above'), ('below', 'above', 'above'),
                     ('below', 'below', 'above', 'above')]):
        outside = [n for n in names if n in ('below', 'above')]
        if len(names) <= 2 and len(outside) == len(names):
            continue
        for ttu in ref.TU if c.thorough else [tu, ref.TU[(ref.TU.index(tu) + 4) % 9]]:
            met = np.array([points[n] for n in names])
            # an end point is only the end point to floating point accuracy
            met = np.where((met == LOW), LOW * 1.000001, met)
            met = np.where((met == HIGH), HIGH / 1.000001, met)
            vals = ref.from_m(ttu, met)
            for spec in [Spectrum(vals, *ttu)] + (
                    [Spectrum(float(vals[0]), *ttu)] if len(vals) == 1 else []):
                before = np.copy(spec.values)
                if kind.startswith('material'):
                    mat, _ = linear_material('table ' + kind[9:], tu)
                    func = mat.extrapolate
                    args = (spec,)
                else:
                    data, _ = base(kind, tu, 1, 1)
                    func = Extrapolation
                    args = (data, spec)
                c.check(refused(func, *args), "accepted targets {} in {} for "
                        "data in {}", names, ttu, tu)
                c.op()
                c.check(np.array_equal(spec.values, before), "target changed")
                if kind.startswith('material'):
                    for bad in (3.5e-7, 8.5e-7):
                        c.check(refused(mat.get_nk_data, bad),
                                "range extended by a rejected extrapolation")
                    mat.get_nk_data(np.array([4e-7, 8e-7]))
        c.state(kind, tu, names)


# ------------------------------------------------------------ histories
def linear_material(name, tu):
    """material whose parts are linear in their own unit"""
    real = Poly(tu, [1.6, .3])
    imag = Poly(tu, [.2, .1])
    xs = np.linspace(real.low, real.high, 6)
    xs[-1] = real.high
    parts = {'real': [real, LOW, HIGH], 'imag': [imag, LOW, HIGH]}
    kws = {'spectrum_type': tu[0], 'unit': tu[1]}
    tab = np.column_stack([xs, real(xs), imag(xs)])
    if name in ('table nk', 'table eps'):
        mat = Material(**{'tabulated_' + name[6:]: tab}, **kws)
    elif name in ('zero k', 'zero eps_i', 'equal columns'):
        imag = parts['imag'][0] = Poly(tu, [1.6, .3] if name[0] == 'e' else [0., 0.])
        tab[:, 2] = imag(xs)
        mat = Material(**{'tabulated_eps' if 'eps' in name else
                          'tabulated_nk': tab}, **kws)
    elif name == 'table n':
        mat = Material(tabulated_n=tab[:, :2].copy(), **kws)
        parts['imag'] = [lambda x: 0.0 * np.asarray(x), 0.0, ref.INF]
    elif name == 'fixed':
        mat = Material(fixed_nk=1.5 + .25j)
        parts = {'real': [lambda x: 1.5 + 0.0 * np.asarray(x), 0.0, ref.INF],
                 'imag': [lambda x: .25 + 0.0 * np.asarray(x), 0.0, ref.INF]}
    elif name == 'different ranges':
        mat = Material(tabulated_nk=tab, **kws)
        pol = Poly(('wavelength', 'nm'), [.3, .2])
        t2 = np.array([[450., 0], [900., 0]])
        t2[:, 1] = pol(t2[:, 0])
        mat.data['imag'] = Interpolation(t2, unit='nm')
        parts['imag'] = [pol, 4.5e-7, 9e-7]
    return mat, parts


def at(func, met):
    return func.at(met) if isinstance(func, Poly) else func(met)


def histories(c):
    """sequences of extrapolation and absorption removal on a material"""
    name = c.choose('material', ['table nk', 'table eps', 'table n', 'fixed',
                                 'different ranges', 'zero k', 'zero eps_i',
                                 'equal columns'])
    tu = c.choose('unit', [('wavelength', 'nm'), ('energy', 'ev')] if
                  name != 'fixed' else [('wavelength', 'nm')])
    order = c.choose('order', [{'spline_order': 1}] +
                     ([{}] if tu[1] == 'nm' else []))
    mat, parts = linear_material(name, tu)
    for i in range(4 if c.thorough else 3):
        step = c.choose('step{}'.format(i), [
            'stop', 'down', 'up', 'both', 'inside', 'one inside', 'three', 'between',
            'remove absorption', 'evaluate'])
        if step == 'stop':
            break
        c.op()
        moving = [p for p in parts.values() if p[1:] != [0.0, ref.INF]]
        bottom = min([p[1] for p in moving] or [LOW])
        top = max([p[2] for p in moving] or [HIGH])
        if step == 'remove absorption':
            mat.remove_absorption()
            parts['imag'] = [lambda x: 0.0 * np.asarray(x), 0.0, ref.INF]
            continue
        if step == 'evaluate':
            verify(c, mat, parts, name)
            continue
        tgt = {'down': [bottom * .94], 'up': [top * 1.05],
               'both': [bottom * .95, top * 1.04], 'inside': [.5 * (bottom + top)],
               'one inside': [bottom * .9, .5 * (bottom + top)],
               'three': [bottom * .9, top * 1.1, top * 1.2],
               'between': [.5 * (HIGH + 9e-7)]}[step]
        if step == 'between':
            if name != 'different ranges':
                c.prune()
        spec = Spectrum(np.array(tgt)) if len(tgt) > 1 else Spectrum(tgt[0])
        keep = np.copy(spec.values)
        # every part that is not a constant must lie inside all targets
        good = all(sum(t < p[1] or t > p[2] for t in tgt) == len(tgt)
                   for p in moving) and (len(tgt) <= 2 or not moving)
        try:
            mat.extrapolate(spec, **order)
            done = True
        except ValueError:
            done = False
        c.check(done == good, "extrapolation to {} {}", tgt,
                "accepted" if done else "refused")
        c.check(np.array_equal(keep, spec.values) and spec.unit == 'm',
                "target spectrum changed")
        if done:
            for p in moving:
                for t in tgt:
                    if t < p[1]:
                        p[1] = t
                    elif t > p[2]:
                        p[2] = t
    verify(c, mat, parts, name)
    c.state(name, tu, [p[1:] for p in parts.values()])


def verify(c, mat, parts, name):
    low = max(p[1] for p in parts.values())
    high = min(p[2] for p in parts.values())
    view = mat.get_permittivity if 'eps' in name else mat.get_nk_data
    lo = low * (1 + 2e-9) if low > 0 else 2e-7
    hi = high * (1 - 2e-9) if np.isfinite(high) else 2e-6
    met = ref.spread(lo, hi, 13)
    got = view(met)
    want = at(parts['real'][0], met) + 1j * at(parts['imag'][0], met)
    c.check(ref.close(got, want, 1e-6, 1e-7), "values {} instead of {}", got, want)
    inner = met[(met >= LOW) & (met <= HIGH)]
    c.check(ref.close(view(inner), at(parts['real'][0], inner) +
                      1j * at(parts['imag'][0], inner), 1e-8, 1e-9),
            "values inside the original range changed")
    for m, w in zip(met[::4], want[::4]):
        g = view(float(m))
        c.check(np.ndim(g) == 0 and abs(g - w) < 1e-6, "{} instead of {}", g, w)
    if low > 0:
        c.check(refused(view, float(low * (1 - 1e-6))), "accepted below {}", low)
    if np.isfinite(high):
        c.check(refused(view, float(high * (1 + 1e-6))), "accepted above {}", high)
    c.op(7)


def complex_models(c):
    """complex valued models cannot be extrapolated"""
    name = c.choose('model', ref.MODELS_EPS)
    tgt = c.choose('target', [3e-7, 9e-7, [3e-7, 9e-7], [3e-7], 6e-7])
    before = c.choose('before', ['nothing', 'remove absorption', 'evaluate'])
    mat, low, high = subjects.MATERIALS['model ' + name]()
    met = ref.spread(low, high, 7)
    want = mat.get_permittivity(met)
    if before == 'remove absorption':
        mat.remove_absorption()
        want = mat.get_permittivity(met)
    elif before == 'evaluate':
        mat.get_nk_data(met)
    spec = Spectrum(tgt)
    try:
        mat.extrapolate(spec)
        c.fail("accepted")
    except NotImplementedError:
        pass
    c.op(3)
    c.check(ref.close(mat.get_permittivity(met), want, 1e-12), "values changed")
    c.check(np.array_equal(np.asarray(spec.values), np.asarray(tgt, float)),
            "target changed")
    for bad in (3.5e-7, 8.5e-7):
        c.check(refused(mat.get_permittivity, bad), "range changed")
    c.state(name, tgt, before)


def absorption(c):
    """removal of absorption from every kind of material with separate parts"""
    name = c.choose('material', [m for m in subjects.MATERIALS
                                 if m[6:] not in ref.MODELS_EPS])
    times = c.choose('times', [1, 2])
    mat, low, high = subjects.MATERIALS[name]()
    view = mat.get_permittivity if ('eps' in name or name in (
        'Simple', 'MaxwellGarnett', 'Bruggeman', 'no absorption')) \
        else mat.get_nk_data
    met = subjects.inside(low, high, 11)
    before = view(met)
    rng = mat.get_maximum_valid_range()
    for _ in range(times):
        mat.remove_absorption()
        c.op()
    after = view(met)
    c.check(np.all(np.imag(after) == 0), "absorption left: {}", after)
    c.check(np.array_equal(np.real(after), np.real(before)), "real part changed")
    new = mat.get_maximum_valid_range()
    c.check(new[0] <= rng[0] and new[1] >= rng[1], "range {} became {}", rng, new)
    one = view(float(met[3]))
    c.check(np.imag(one) == 0 and np.real(one) == np.real(before[3]) or
            abs(np.real(one) - np.real(before[3])) < 1e-12, "scalar {}", one)
    c.state(name, times)
    c.outcome(name)


def rough(c):
    """tables with kinks: requests of any length reaching out of the range"""
    kind = c.choose('data', ['Interpolation', 'tabulated_nk', 'tabulated_eps'])
    tu = c.choose('unit', [('wavelength', 'nm'), ('energy', 'ev'),
                           ('frequency', 'hz')])
    order = c.choose('spline order', [1, 2, 3])
    rows = c.choose('rows', [2, 3, 9])
    shape = c.choose('targets', ['low', 'high', 'both', 'low, high', 'high, low'])
    tab = subjects.table(tu, rows, LOW, HIGH)
    tab[1::2, 1] += .8
    if kind == 'Interpolation':
        data = Interpolation(tab[:, :2].copy(), spectrum_type=tu[0], unit=tu[1])
        func, cols = (lambda s: data.evaluate(s)), (1, None)
        for part in shape.split(', '):
            data = Extrapolation(data, Spectrum(targets(part, ENDS['near'])[0]),
                                 spline_order=order)
    else:
        mat = Material(**{kind: tab.copy(), 'spectrum_type': tu[0], 'unit': tu[1]})
        func = (mat.get_permittivity if kind.endswith('eps') else mat.get_nk_data)
        cols = (1, 2)
        for part in shape.split(', '):
            mat.extrapolate(Spectrum(targets(part, ENDS['near'])[0]),
                            spline_order=order)
    c.op(2)
    low = ENDS['near'][0] if 'low' in shape or shape == 'both' else LOW
    high = ENDS['near'][1] if 'high' in shape or shape == 'both' else HIGH
    nodes = ref.to_m(tu, tab[:, 0])
    near = np.concatenate([nodes[1:-1], nodes[1:-1] * (1 + 1e-6),
                           nodes[1:-1] * (1 - 1e-5), ref.spread(LOW, HIGH, 9)[1:-1]])
    outer = np.array([v for v in (low * 1.0001, high / 1.0001)
                      if not LOW <= v <= HIGH])
    x_err = ref.ROUNDING[tu[1]] + 1e-11 * tab[:, 0].max()
    for length in (1, 2, 3, 17, 64, 65, 100, 257, 1000, 1001):
        for order_ in ('out first', 'out last', 'none'):
            pool = {'out first': np.concatenate([outer, near]),
                    'out last': np.concatenate([near, outer])[::-1][:length][::-1],
                    'none': near}[order_]
            pts = np.resize(pool, length)
            got = np.atleast_1d(func(Spectrum(pts)))
            c.op()
            c.check(got.shape == pts.shape, "shape {}", got.shape)
            sel = (pts > LOW) & (pts < HIGH)
            at = ref.from_m(tu, pts[sel])
            srt = np.argsort(tab[:, 0])
            for part, col in ((np.real(got), cols[0]), (np.imag(got), cols[1])):
                if col is None:
                    continue
                want = np.interp(at, tab[srt, 0], tab[srt, col])
                slope = np.max(np.abs(np.diff(tab[srt, col]) /
                                      np.diff(tab[srt, 0])))
                c.check(np.all(np.abs(part[sel] - want) <= 1e-9 + slope * x_err),
                        "{} points: inside {} instead of {}", length,
                        part[sel][:3], want[:3])
            c.state(kind, tu, order, rows, shape, length, order_)


def both_parts(c):
    """real and imaginary part of a material are continued each by its polynomial"""
    kind = c.choose('definition', ['tabulated_nk', 'tabulated_eps', 'parts'])
    tu = c.choose('unit', [t for t in ref.TU if precision(t, 2, *ENDS['near']) < 1e-3])
    order = c.choose('spline order', [1, 2, 3])
    degs = c.choose('degrees', [(a, b) for a in range(order + 1)
                                for b in range(order + 1)])
    given = order != 2 or c.choose('order given', [True, False])
    real = Poly(tu, COEFF[degs[0]])
    imag = Poly(tu, [.3 * v for v in COEFF[degs[1]]])
    xs = np.linspace(real.low, real.high, 40)
    xs[-1] = real.high
    interp = max(1, *degs)
    reach = ENDS['near']
    prec = precision(tu, order, *reach)
    if prec > 1e-2:
        c.prune()
    for shape in SHAPES:
        if kind == 'parts':
            mat = Material(fixed_n=1.5, spectrum_type=tu[0], unit=tu[1])
            for part, pol in (('real', real), ('imag', imag)):
                mat.data[part] = Interpolation(
                    np.column_stack([xs, pol(xs)]), spectrum_type=tu[0], unit=tu[1],
                    interp_order=interp)
        else:
            mat = Material(**{kind: np.column_stack([xs, real(xs), imag(xs)]),
                              'spectrum_type': tu[0], 'unit': tu[1],
                              'interp_order': interp})
        met, (low, high) = targets(shape, reach)
        spec = Spectrum(ref.from_m(tu, np.array(met) if isinstance(met, list)
                                   else met), *tu)
        mat.extrapolate(spec, **({'spline_order': order} if given else {}))
        func = mat.get_permittivity if 'eps' in kind else mat.get_nk_data
        tol = 2 * ref.pos_error(tu, 1e-6)
        pts = np.array([low + tol, .5 * (low + LOW) if low < LOW else 5e-7, 6e-7,
                        .5 * (high + HIGH) if high > HIGH else 7e-7, high - tol])
        got = func(pts)
        c.op(3)
        for what, val, pol in (('real', np.real(got), real),
                               ('imaginary', np.imag(got), imag)):
            c.check(ref.close(val, pol.at(pts), prec, prec),
                    "{} part of {}, {}, degree {}, order {}, {}: {} instead of {}",
                    what, kind, tu, degs, order, shape, val, pol.at(pts))
        c.state(kind, tu, order, degs, shape)
    c.outcome(kind, order)


REGIONS = [(1.23456789123e-10, 3.3e-10), (4.12345678912345e-7, 8.98765432154321e-7),
           (4.0000000012345e-7, 7.9999999987654e-7), (1.00000000123e-4, 3.1e-4),
           (5e-3, 1.7e-2)]


def regions(c):
    """straight lines in every spectral region, with ends that are no round numbers"""
    tu = c.choose('unit', ref.TU)
    low, high = c.choose('range', REGIONS)
    rows = c.choose('rows', [2, 3, 12])
    ends = np.sort(ref.from_m(tu, np.array([low, high])))
    xs = np.linspace(ends[0], ends[1], rows)
    xs[-1] = ends[1]

    def line(values):
        return 1.5 + .4 * (np.asarray(values) - ends[0]) / (ends[1] - ends[0])
    for met, ttu in [(met, ttu) for met in ([low * .96], [high * 1.04],
                                            [low * .96, high * 1.04])
                     for ttu in (tu, ('wavelength', 'm'))]:
        vals = ref.from_m(ttu, np.array(met))
        given = Spectrum(vals if len(met) > 1 else float(vals[0]), *ttu)
        data = Interpolation(np.column_stack([xs, line(xs)]), spectrum_type=tu[0],
                             unit=tu[1])
        mat = Material(tabulated_nk=np.column_stack([xs, line(xs), .2 * line(xs)]),
                       spectrum_type=tu[0], unit=tu[1])
        ext = Extrapolation(data, given, spline_order=1)
        mat.extrapolate(given, spline_order=1)
        pts = np.array([m * (1.001 if m < low else .999) for m in met] +
                       [low * 1.001, .5 * (low + high), high * .999])
        want = line(ref.from_m(tu, pts))
        c.op(2)
        for what, got in (('data', ext.evaluate(Spectrum(pts))),
                          ('n', np.real(mat.get_nk_data(pts))),
                          ('k', 5 * np.imag(mat.get_nk_data(pts)))):
            c.check(ref.close(got, want, 1e-3, 1e-3), "{} {} {} to {}: {} instead of "
                    "{}", what, tu, (low, high), met, got, want)
        for bad in ([low * .9] + [low * .99] * (met[0] > low) +
                    [high * 1.01] * (met[-1] < high) + [high * 1.1]):
            c.check(refused(ext.evaluate, Spectrum(float(bad))), "evaluated at {}", bad)
        c.state(tu, low, rows, met, ttu)


SCENARIOS = {'regions': regions, 'both parts': both_parts, 'rough': rough, 'single': single, 'rejected': rejected, 'histories': histories,
             'complex models': complex_models, 'absorption': absorption}

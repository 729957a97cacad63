"""C04: evaluation exactly on the valid range"""
import itertools
import numpy as np
from dispersion import (Spectrum, Constant, Interpolation, Extrapolation,
                        Material)
import dispersion.spectral_data as sd
from mc import ref

BOUNDS = {'quick': "9x9 unit pairs x 8 ranges x all request vectors of length <=2 "
                   "(<=3 for contains) over 4 to 12 positions; 18 data kinds",
          'thorough': "request vectors of length <=3 for all, <=4 for contains"}
ASSUMPTIONS = ["points closer than 1e-7 (relative) to an end but outside are "
               "not requested: they are within conversion error"]
EPS = 1e-7
RANGES = {'visible': (4e-7, 8e-7), 'x-ray': (1.3e-10, 9.7e-10),
          'far infrared': (3.1e-5, 2.2e-3), 'wide': (1e-9, 1e-1),
          'narrow': (5e-7, 5.001e-7), 'from zero': (0.0, 7e-7),
          'to infinity': (2e-7, ref.INF), 'everything': (0.0, ref.INF)}


def positions(low, high):
    """name -> (metre, inside)"""
    out = {'negative': (-5e-7, False), 'not a number': (np.nan, False)}
    if np.isinf(high) and low == 0:
        out['inside'] = (5e-7, True)
        out['inside2'] = (1.0, True)
        out['zero'] = (0.0, True)
        out['infinite'] = (ref.INF, True)
        return out
    hi = low * 50 if np.isinf(high) else high
    lo = hi / 50 if low == 0 else low
    out['inside'] = (lo + 0.37 * (hi - lo), True)
    out['low end'] = (low, True)
    out['high end'] = (high, True)
    out['just inside'] = (lo * (1 + EPS), True)
    if low > 0:
        out['just below'] = (low * (1 - EPS), False)
        out['far below'] = (low / 3, False)
        out['zero'] = (0.0, False)
    if not np.isinf(high):
        out['just above'] = (high * (1 + EPS), False)
        out['far above'] = (high * 4, False)
        out['infinite'] = (ref.INF, False)
    return out


def rng_in(tu, low, high):
    vals = [ref.from_m(tu, low), ref.from_m(tu, high)]
    return sorted(vals)


def outcome(func):
    """value or None if refused with ValueError"""
    try:
        return True, func()
    except ValueError:
        return False, None


def contains(c):
    """Spectrum.contains for all vectors"""
    rname = c.choose('range', list(RANGES))
    rtu = c.choose('range unit', ref.TU)
    qtu = c.choose('request unit', ref.TU)
    low, high = RANGES[rname]
    pos = positions(low, high)
    values = rng_in(rtu, low, high)
    outers = [Spectrum(values, rtu[0], rtu[1]),
              Spectrum(np.array(values[::-1]), rtu[0], rtu[1])]
    if low > 0 and np.isfinite(high):
        mid = ref.from_m(rtu, (low + high) / 2)
        outers.append(Spectrum([mid, values[0], mid, values[1], mid], *rtu))
    depth = 3 if not c.thorough else 4
    q = {k: (ref.from_m(qtu, m), ok) for k, (m, ok) in pos.items()}
    for idx, outer in enumerate(outers):
        for n in range(1, (depth if idx == 0 else 2) + 1):
            for vec in itertools.product(q.values(), repeat=n):
                req = Spectrum([v for v, _ in vec], qtu[0], qtu[1])
                expect = all(ok for _, ok in vec)
                got, val = outcome(lambda: outer.contains(req))
                c.op()
                c.check(got == expect and (not got or bool(val)),
                        "{} {} within {} {}: {}", req.values, qtu, values, rtu,
                        got)
        for val, ok in q.values():
            got, res = outcome(lambda: outer.contains(Spectrum(float(val), *qtu)))
            c.op()
            c.check(got == ok and (not got or bool(res)),
                    "scalar {} {} within {} {}: {}", val, qtu, values, rtu, got)
    c.state(rname, rtu, qtu)
    c.outcome(rname)


def build(kind, tu, low, high):
    """(evaluate function, unit of the data)"""
    rng = rng_in(tu, low, high)
    if kind == 'constant':
        return Constant(1.5, valid_range=rng, spectrum_type=tu[0],
                        unit=tu[1]).evaluate
    if kind in ('interpolation', 'descending interpolation', 'cubic'):
        if low == 0 or np.isinf(high):
            return None
        n = 6 if kind == 'cubic' else 3
        tab = np.column_stack([np.linspace(rng[0], rng[1], n),
                               1.5 + 0.1 * np.arange(n)])
        tab[-1, 0] = rng[1]
        if kind == 'descending interpolation':
            tab = tab[::-1].copy()
        return Interpolation(tab, spectrum_type=tu[0], unit=tu[1],
                             interp_order=3 if kind == 'cubic' else 1).evaluate
    if kind in ref.TYPICAL:
        if tu != ref.model_tu(kind):
            return None
        return getattr(sd, kind)(ref.TYPICAL[kind], rng, spectrum_type=tu[0],
                                 unit=tu[1]).evaluate
    if kind == 'extrapolation':
        if low == 0 or np.isinf(high):
            return None
        if max(ref.pos_error(tu, low) / low, ref.pos_error(tu, high) / high) > 2e-9:
            return None     # the target is subject to the documented rounding
        # base data on the middle part, extended to low and high
        width = rng[1] - rng[0]
        base = [rng[0] + 0.3 * width, rng[1] - 0.3 * width]
        tab = np.column_stack([np.linspace(base[0], base[1], 4),
                               [1.5, 1.6, 1.7, 1.8]])
        data = Interpolation(tab, spectrum_type=tu[0], unit=tu[1])
        return Extrapolation(data, Spectrum(rng, tu[0], tu[1]),
                             spline_order=1).evaluate
    return None


KINDS = (['constant', 'interpolation', 'descending interpolation', 'cubic',
          'extrapolation'] + ref.MODELS_N + ref.MODELS_EPS)


def data(c):
    """every kind of spectral data"""
    kind = c.choose('kind', KINDS)
    rname = c.choose('range', list(RANGES))
    rtu = c.choose('range unit', [ref.model_tu(kind)] if kind in ref.TYPICAL
                   else ref.TU)
    qtu = c.choose('request unit', ref.TU)
    low, high = RANGES[rname]
    evaluate = build(kind, rtu, low, high)
    if evaluate is None:
        c.prune()
    requests(c, evaluate, low, high, qtu, (kind, rname, rtu),
             skip=('zero', 'infinite') if kind in ref.TYPICAL else ())


def requests(c, evaluate, low, high, qtu, tag, skip=()):
    pos = positions(low, high)
    q = {}
    for k, (m, ok) in pos.items():
        if ok and (k in skip or k in ('low end', 'high end')) and (
                m == 0 or np.isinf(m)) and tag[0] != 'constant':
            continue        # the value there is not defined by the formula
        q[k] = (ref.from_m(qtu, m), ok)
    depth = 3 if c.thorough else 2
    for n in range(0, depth + 1):
        for names in itertools.product(q, repeat=max(n, 1)):
            vals = [q[k][0] for k in names]
            expect = all(q[k][1] for k in names)
            req = Spectrum(float(vals[0]) if n == 0 else vals, qtu[0], qtu[1])
            with np.errstate(all='ignore'):
                got, res = outcome(lambda: evaluate(req))
            c.op()
            c.check(got == expect, "{}: {} {} ({}) {}", tag, req.values, qtu,
                    names, "accepted" if got else "refused")
            if got:
                c.check(np.shape(res) == np.shape(req.values),
                        "{}: shape {} for {}", tag, np.shape(res), req.values)
    c.state(tag, qtu)
    c.outcome(tag[0])


def long_requests(c):
    """one outside point at any place of a long request"""
    kind = c.choose('kind', ['contains', 'constant', 'interpolation', 'Cauchy',
                             'Drude', 'extrapolation', 'material'])
    count = c.choose('length', [5, 33, 100, 257, 1001, 5000])
    where = c.choose('where', ['none', 'first', 'second', 'quarter', 'middle',
                               'last but one', 'last'])
    side = c.choose('side', ['below', 'above'])
    low, high = RANGES['visible']
    rtu = ref.model_tu(kind) if kind in ref.TYPICAL else ('wavelength', 'um')
    if kind == 'contains':
        outer = Spectrum(rng_in(rtu, low, high), *rtu)
        evaluate = outer.contains
    elif kind == 'material':
        mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [800., 1.6, .2]]))
        evaluate = mat.get_nk_data
    else:
        evaluate = build(kind, rtu, low, high)
    for qtu in ref.TU:
        met = ref.arrange(ref.spread(low, high, count), 'interleaved')
        if where != 'none':
            idx = {'first': 0, 'second': 1, 'quarter': count // 4,
                   'middle': count // 2, 'last but one': count - 2,
                   'last': count - 1}[where]
            met[idx] = low * (1 - 1e-6) if side == 'below' else high * (1 + 1e-6)
        req = Spectrum(ref.from_m(qtu, met), qtu[0], qtu[1])
        got, res = outcome(lambda: evaluate(req))
        c.op()
        c.check(got == (where == 'none'), "{} points, {} outside ({}): {}", count,
                where, qtu, "accepted" if got else "refused")
        c.state(kind, count, where, side, qtu)


MATS = ['fixed', 'table n', 'table nk', 'table eps', 'n_alpha', 'model n',
        'model eps', 'two parts', 'complex and extrapolated', 'file', 'effective']


def material(c):
    """materials: both views, every unit, all short requests"""
    kind = c.choose('material', MATS)
    view = c.choose('view', ['nk', 'eps'])
    rtu = c.choose('range unit', ref.TU)
    qtu = c.choose('request unit', ref.TU)
    low, high = RANGES['visible']
    rng = rng_in(rtu, low, high)
    grid = np.linspace(rng[0], rng[1], 4)
    grid[-1] = rng[1]
    kws = {'spectrum_type': rtu[0], 'unit': rtu[1]}
    tab3 = np.column_stack([grid, [1.5, 1.6, 1.7, 1.8], [.1, .2, .1, .2]])
    if kind == 'fixed':
        mat = Material(fixed_nk=1.5 + .1j, **kws)
        low, high = 0.0, ref.INF
    elif kind == 'table n':
        mat = Material(tabulated_n=tab3[:, :2], **kws)
    elif kind == 'table nk':
        mat = Material(tabulated_nk=tab3[::-1].copy(), **kws)
    elif kind == 'table eps':
        mat = Material(tabulated_eps=tab3, **kws)
    elif kind == 'n_alpha':
        mat = Material(tabulated_n_alpha=tab3, **kws)
    elif kind in ('model n', 'model eps'):
        name = 'Sellmeier' if kind == 'model n' else 'TaucLorentz'
        if rtu != ref.model_tu(name):
            c.prune()
        mat = Material(model_kw=dict(kws, name=name, valid_range=np.array(rng),
                                     parameters=np.array(ref.TYPICAL[name])))
    elif kind == 'two parts':
        mat = Material(tabulated_n=tab3[:, :2], **kws)
        high = 6e-7
        mat.data['imag'] = Interpolation(
            np.array([[1e-7, .1], [6e-7, .2]]), unit='m')
    elif kind == 'complex and extrapolated':
        mat = Material(tabulated_nk=tab3, **kws)
        mat.extrapolate(Spectrum([3e-7, 9e-7]), spline_order=1)
        low, high = 3e-7, 9e-7
    elif kind == 'file':
        import os
        path = os.path.join(os.environ['MC_WORK'], 'c04.txt')
        srt = tab3[np.argsort(tab3[:, 0])]
        with open(path, 'w') as fpt:
            fpt.write("# SpectrumType: {}\n# Unit: {}\n".format(*rtu))
            for row in srt:
                fpt.write(" ".join(repr(float(v)) for v in row) + "\n")
        mat = Material(file_path=path)
    else:
        from dispersion.material import Simple
        mat = Simple(Spectrum(grid, *rtu), Material(fixed_n=1.5),
                     Material(fixed_n=1.8), 0.3)
    func = mat.get_nk_data if view == 'nk' else mat.get_permittivity
    tag = ('constant' if kind == 'fixed' else kind, view, rtu)
    requests(c, func, low, high, qtu, tag)
    # plain numbers instead of spectra
    for key, (met, ok) in positions(low, high).items():
        if met == 0 or np.isinf(met):
            continue
        val = ref.from_m(qtu, met)
        for arg in (float(val), [float(val)], np.array([val, val])):
            got, _ = outcome(lambda: func(arg, qtu[0], qtu[1]))
            c.op()
            c.check(got == ok, "{} {} ({}) {}", arg, qtu, key,
                    "accepted" if got else "refused")


def one_point(c):
    """data valid at a single point"""
    rtu = c.choose('range unit', ref.TU)
    qtu = c.choose('request unit', ref.TU)
    kind = c.choose('kind', ['constant', 'table', 'contains'])
    for met in (5e-7, 1.2345e-10, 7.77e-4):
        val = ref.from_m(rtu, met)
        if kind == 'constant':
            func = Constant(1.7, valid_range=(val, val), spectrum_type=rtu[0],
                            unit=rtu[1]).evaluate
        elif kind == 'contains':
            func = Spectrum([val], *rtu).contains
        else:
            func = Material(tabulated_nk=np.array([[val, 1.7, .2]]),
                            spectrum_type=rtu[0], unit=rtu[1]).get_nk_data
        for factor, ok in ((1, True), (1 - EPS, False), (1 + EPS, False),
                           (.5, False), (2, False)):
            num = ref.from_m(qtu, met * factor)
            for arg in (float(num), [num], [num, num]):
                got, _ = outcome(lambda: func(Spectrum(arg, *qtu)))
                c.op()
                c.check(got == ok, "{} {} of data at {} {}: {}", arg, qtu, val,
                        rtu, got)
        c.state(rtu, qtu, kind, met)


SCENARIOS = {'contains': contains, 'data': data, 'long requests': long_requests,
             'material': material, 'one point': one_point}

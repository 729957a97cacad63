"""C10: maximum valid range and sample spectrum"""
import numpy as np
from dispersion import Spectrum, Constant, Interpolation, Extrapolation, Material
import dispersion.spectral_data as sd
from mc import ref, subjects

BOUNDS = {'quick': "40 materials; all pairs of 10x10 part ranges x 5 kinds of part "
                   "x 9 units of the parts x 9 units of the material",
          'thorough': "as quick with all 9x9x9 unit combinations"}
ASSUMPTIONS = ["parts whose ranges do not overlap are not part of the space"]
RANGES = [(0.0, ref.INF), (2e-7, ref.INF), (0.0, 1.5e-6), (3e-7, 9e-7),
          (3.7e-7, 9e-7), (3e-7, 6.13e-7), (4.4e-7, 5.9e-7), (1e-7, 5e-6),
          (1.23456789e-7, 1.10987654e-6), (9e-7, 3e-6)]
SIDE = 1e-6


def part(kind, tu, low, high, base):
    """one part with the given range"""
    ends = sorted([ref.from_m(tu, low), ref.from_m(tu, high)])
    if kind == 'constant':
        return Constant(base, valid_range=ends, spectrum_type=tu[0], unit=tu[1])
    if kind in ('table', 'descending'):
        tab = np.array([[ends[0], base], [.6 * ends[0] + .4 * ends[1], base + .3],
                        [ends[1], base + .1]])
        if kind == 'descending':
            tab = tab[::-1].copy()
        return Interpolation(tab, spectrum_type=tu[0], unit=tu[1])
    if kind == 'extrapolated':
        inner = sorted([ref.from_m(tu, low * 1.1), ref.from_m(tu, high / 1.1)])
        tab = np.array([[inner[0], base], [inner[1], base + .2]])
        return Extrapolation(Interpolation(tab, spectrum_type=tu[0], unit=tu[1]),
                             Spectrum(ends, *tu), spline_order=1)
    return sd.Cauchy(np.array([1.5, .001, -2.]), ends, spectrum_type='wavelength',
                     unit='um')


def evaluates(c, mat, arg, *tu):
    res = []
    for func in (mat.get_nk_data, mat.get_permittivity):
        try:
            val = func(arg, *tu)
            c.check(np.all(np.isfinite(val)), "value {}", val)
            res.append(True)
        except ValueError:
            res.append(False)
    c.op(2)
    c.check(res[0] == res[1], "one view evaluates, the other does not, at {}", arg)
    return res[0]


def verify(c, mat, low, high, tu, tag, evaluate_inf=True):
    got = mat.get_maximum_valid_range()
    c.op()
    c.check(isinstance(got, np.ndarray) and got.shape == (2,),
            "{}: range is {}", tag, got)
    exp = np.sort([ref.from_m(tu, low), ref.from_m(tu, high)])
    c.check(got[0] <= got[1], "{}: range {} not ascending", tag, got)
    c.check(ref.conv_ok(tu, got, exp, rel=2e-9), "{}: range {}, expected {}", tag,
            got, exp)
    # ends, inside, beyond
    for end in got:
        if np.isfinite(end) and end > 0:
            c.check(evaluates(c, mat, float(end), *tu),
                    "{}: refused at the reported end {} {}", tag, end, tu)
            c.check(evaluates(c, mat, np.array([end]), *tu),
                    "{}: refused at the reported end [{}] {}", tag, end, tu)
    mid = subjects.inside(low, high, 5)
    c.check(evaluates(c, mat, mid), "{}: refused inside {} - {}", tag, low, high)
    c.check(evaluates(c, mat, ref.from_m(tu, mid)[1:4], *tu),
            "{}: refused inside {} - {}", tag, low, high)
    for bad in ([low * (1 - SIDE)] if low > 0 else []) + \
               ([high * (1 + SIDE)] if np.isfinite(high) else []):
        c.check(not evaluates(c, mat, float(bad)), "{}: accepted at {}", tag, bad)
        c.check(not evaluates(c, mat, float(ref.from_m(tu, bad)), *tu),
                "{}: accepted at {}", tag, bad)
    # sample spectrum
    spec = mat.get_sample_spectrum()
    c.op()
    c.check(isinstance(spec, Spectrum), "{}: sample is {}", tag, type(spec))
    vals = spec.values
    c.check(np.ndim(vals) == 1 and len(vals) >= 2, "{}: sample {}", tag, vals)
    step = np.diff(vals)
    c.check(np.all(step > 0) or low == high and np.all(np.abs(step) <= 1e-12 * vals[1:]),
            "{}: sample not sorted", tag)
    met = spec.convert_to('wavelength', 'm')
    tol = 1 + 1e-8
    c.check(np.all(np.isfinite(met)) and np.all(met > 0), "{}: sample {}", tag, met)
    c.check(np.min(met) * tol >= low and np.max(met) <= high * tol,
            "{}: sample from {} to {}, range {} to {}", tag, np.min(met),
            np.max(met), low, high)
    c.check(evaluates(c, mat, spec), "{}: sample cannot be evaluated", tag)
    if low > 0 and np.isfinite(high):
        c.check(np.min(met) <= low * 1.0001 and np.max(met) >= high / 1.0001,
                "{}: sample covers {} to {} of {} to {}", tag, np.min(met),
                np.max(met), low, high)


def kinds(c):
    """materials of every kind"""
    name = c.choose('material', list(subjects.MATERIALS))
    mat, low, high = subjects.MATERIALS[name]()
    again = c.choose('evaluated before', [False, True])
    if again:
        mat.get_nk_data(subjects.inside(low, high, 3))
    tu = own_unit(name)
    verify(c, mat, low, high, tu, name)
    verify(c, mat, low, high, tu, name + ' again')
    c.state(name, again)
    c.outcome(name)


def own_unit(name):
    """type and unit of the material, as given when it was built"""
    if name.startswith('model '):
        last = name[6:]
        if last in ref.TYPICAL:
            return ref.model_tu(last)
    return {'table nk eV': ('energy', 'ev'), 'parts eV': ('energy', 'ev'),
            'table eps 1/cm': ('wavenumber', '1/cm'),
            'table n_alpha Hz': ('frequency', 'hz'),
            'model and table': ('wavelength', 'um'),
            'txt file': ('wavelength', 'um'), 'yml file': ('wavelength', 'um'),
            'Simple': ('wavelength', 'm'), 'MaxwellGarnett': ('wavelength', 'm'),
            'Bruggeman': ('wavelength', 'm')}.get(name, ('wavelength', 'nm'))


PARTS = ['constant', 'table', 'descending', 'extrapolated', 'model']


def parts(c):
    """two parts of different kind, range and unit"""
    default = c.choose('unit of the material', ref.TU)
    kinds_ = (c.choose('real part', PARTS), c.choose('imaginary part', PARTS))
    if c.thorough:
        units = [(a, b) for a in ref.TU for b in ref.TU]
    else:
        k = ref.TU.index(default)
        units = [(ref.TU[(k + s) % 9], ref.TU[(k + d) % 9])
                 for s, d in ((0, 0), (0, 1), (4, 0), (2, 6), (7, 3))]
    for tus in units:
        for i, rng1 in enumerate(RANGES):
            for j, rng2 in enumerate(RANGES):
                if not c.thorough and (i + 3 * j + k) % 5:
                    continue
                low, high = max(rng1[0], rng2[0]), min(rng1[1], rng2[1])
                if low >= high:
                    continue
                ok = True
                for kind, rng in zip(kinds_, (rng1, rng2)):
                    if kind != 'constant' and (rng[0] == 0 or np.isinf(rng[1])):
                        ok = False
                if not ok:
                    continue
                mat = Material(fixed_n=1.0, spectrum_type=default[0],
                               unit=default[1])
                used = []
                for key, kind, tu, rng in zip(('real', 'imag'), kinds_, tus,
                                              (rng1, rng2)):
                    if kind == 'model':
                        tu = ('wavelength', 'um')
                    used.append(tu)
                    mat.data[key] = part(kind, tu, rng[0], rng[1],
                                         1.4 if key == 'real' else .1)
                tag = (default, used, rng1, rng2)
                verify(c, mat, low, high, default, tag)
                c.state(tag, kinds_)
    c.outcome(default, kinds_)


def tables(c):
    """tables over many spectral regions and lengths"""
    tu = c.choose('unit', ref.TU)
    arg = c.choose('definition', ['tabulated_n', 'tabulated_nk', 'tabulated_eps',
                                  'tabulated_n_alpha'])
    order = c.choose('rows', ['ascending', 'descending', 'shuffled'])
    for low, high in [(1e-7, 1.7e-7), (2.5e-7, 3e-6), (1.9e-8, 4e-8),
                      (1e-5, 3e-5), (5e-7, 5.0001e-7), (1e-9, 1.2e-9),
                      (4.12345678912345e-7, 8.98765432154321e-7)]:
        for rows in (2, 3, 10, 57):
            tab = subjects.table(tu, rows, low, high)
            if order == 'descending':
                tab = tab[::-1].copy()
            elif order == 'shuffled':
                tab = tab[np.argsort((np.arange(rows) * 7 + 3) % rows,
                                     kind='stable')]
            if arg == 'tabulated_n':
                tab = tab[:, :2].copy()
            mat = Material(spectrum_type=tu[0], unit=tu[1], **{arg: tab})
            verify(c, mat, low, high, tu, (arg, tu, low, high, rows))
            c.state(tu, arg, order, low, rows)


def steps(c):
    """the range follows every change of the material"""
    start = c.choose('start', ['table nk', 'table nk eV', 'fixed nk', 'one row'])
    tu = own_unit(start)
    mat, low, high = subjects.MATERIALS[start]()
    r_rng, i_rng = [low, high], [low, high]
    for i in range(4 if c.thorough else 3):
        step = c.choose('step{}'.format(i),
                        ['stop', 'extrapolate down', 'extrapolate up',
                         'remove absorption', 'real constant', 'imag table',
                         'sample'])
        if step == 'stop':
            break
        lo, hi = max(r_rng[0], i_rng[0]), min(r_rng[1], i_rng[1])
        if step.startswith('extrapolate'):
            if start in ('fixed nk', 'one row'):
                c.prune()
            new = (min(r_rng[0], i_rng[0]) * .9 if 'down' in step else
                   max(r_rng[1] if np.isfinite(r_rng[1]) else 0,
                       i_rng[1] if np.isfinite(i_rng[1]) else 0) * 1.1)
            if new == 0:
                c.prune()
            mat.extrapolate(Spectrum(float(new)), spline_order=1)
            for rng in (r_rng, i_rng):
                if rng == [0.0, ref.INF]:
                    continue
                rng[0 if 'down' in step else 1] = new
        elif step == 'remove absorption':
            mat.remove_absorption()
            i_rng[:] = [0.0, ref.INF]
        elif step == 'real constant':
            mat.data['real'] = Constant(1.5)
            r_rng[:] = [0.0, ref.INF]
        elif step == 'imag table':
            mat.data['imag'] = Interpolation(
                np.array([[350., .1], [500., .2], [720., .3]]), unit='nm')
            i_rng[:] = [3.5e-7, 7.2e-7]
        elif step == 'sample':
            mat.get_sample_spectrum()
        c.op()
    lo, hi = max(r_rng[0], i_rng[0]), min(r_rng[1], i_rng[1])
    verify(c, mat, lo, hi, tu, start)
    c.state(start, lo, hi)


HALF = [(0.0, 5e-8), (0.0, 3e-10), (0.0, 9.9e-8), (0.0, 1e-3), (0.0, 2.5e-6),
        (3e-5, ref.INF), (1e-2, ref.INF), (1.9e-6, ref.INF), (2.1e-6, ref.INF),
        (1e-9, ref.INF), (1e-9, 1e-3), (4e-7, 4e-7 * (1 + 1e-6))]


def half_open(c):
    """constants bounded on one side, far from the visible"""
    tu = c.choose('unit of the constant', ref.TU)
    default = c.choose('unit of the material', ref.TU)
    low, high = c.choose('range', HALF)
    which = c.choose('bounded', ['real', 'imag', 'both'])
    mat = Material(fixed_nk=1.5 + .1j, spectrum_type=default[0], unit=default[1])
    ends = sorted([ref.from_m(tu, low), ref.from_m(tu, high)])
    if c.choose('descending', [False, True]):
        ends = ends[::-1]
    for key in ('real', 'imag') if which == 'both' else (which,):
        mat.data[key] = Constant(.7, valid_range=ends, spectrum_type=tu[0],
                                 unit=tu[1])
    verify(c, mat, low, high, default, (tu, default, low, high))
    c.state(tu, default, low, high, which)


def model_ranges(c):
    """range of a model given in either order"""
    name = c.choose('model', list(ref.TYPICAL))
    low, high = c.choose('range', [(4e-7, 8e-7), (2.5e-7, 3e-6), (9e-7, 1.1e-6)])
    down = c.choose('descending', [False, True])
    kind = c.choose('container', [np.array, list, tuple])
    tu = ref.model_tu(name)
    ends = sorted([ref.from_m(tu, low), ref.from_m(tu, high)], reverse=down)
    mat = Material(model_kw={'name': name, 'spectrum_type': tu[0], 'unit': tu[1],
                             'valid_range': kind(ends),
                             'parameters': np.array(ref.TYPICAL[name])})
    verify(c, mat, low, high, tu, (name, ends))
    c.state(name, low, down, kind)


def open_models(c):
    """models valid up to zero or infinite energy"""
    name = c.choose('model', ['Drude', 'DrudeLorentz', 'Cauchy', 'Herzberger'])
    low, high = c.choose('range', [(0.0, 8e-7), (4e-7, ref.INF), (0.0, ref.INF),
                                   (0.0, 5e-8), (2e-6, ref.INF)])
    down = c.choose('descending', [False, True])
    if name == 'Herzberger' and low == 0.0:
        c.prune()               # its pole lies in this range
    tu = ref.model_tu(name)
    par = {'Cauchy': [1.5, .01, -2.]}.get(name, ref.TYPICAL[name])
    ends = sorted([ref.from_m(tu, low), ref.from_m(tu, high)], reverse=down)
    mat = Material(model_kw={'name': name, 'spectrum_type': tu[0], 'unit': tu[1],
                             'valid_range': np.array(ends),
                             'parameters': np.array(par)})
    verify(c, mat, low, high, tu, (name, ends))
    # far out, but in range
    for far in (1e-9, 1e-3, 1.0):
        c.check(evaluates(c, mat, far) == (low <= far <= high), "{} at {}", name,
                far)
    c.state(name, low, high, down)


SCENARIOS = {'open models': open_models, 'kinds': kinds, 'parts': parts, 'tables': tables, 'steps': steps,
             'half open': half_open, 'model ranges': model_ranges}

"""C06: dispersion formulas"""
import itertools
import math
import os
import numpy as np
from scipy.integrate import quad
from dispersion import Spectrum, Material
import dispersion.spectral_data as sd
from mc import ref

BOUNDS = {'quick': "12 models; coefficient counts up to 41; 5 "
                   "values per coefficient one at a time and pairwise; 9 points; all small integer vectors",
          'thorough': "all triples of coefficient values"}
ASSUMPTIONS = ["formulas 1-9 of refractiveindex.info, dispersion formulas sheet",
               "combinations for which the formula has no real value are skipped"]
LAM = [0.21, 0.3, 0.405, 0.589, 0.6328, 1.0, 1.55, 2.5, 7.7]
EN = [0.05, 0.3, 1.0, 1.2, 1.96, 3.0, 3.5, 4.4, 12.0]
#: admissible numbers of coefficients
ODD = list(range(1, 42, 2))
COUNTS = {'Sellmeier': ODD, 'Sellmeier2': ODD, 'Polynomial': ODD,
          'RefractiveIndexInfo': [n for n in ODD if n not in (3, 7)],
          'Cauchy': ODD, 'Gases': ODD,
          'Herzberger': [6], 'Retro': [4], 'Exotic': [6], 'Drude': [2],
          'DrudeLorentz': [4], 'TaucLorentz': [5]}
LONG = {'Sellmeier': [0.05, 0.69, 0.068, 0.41, 0.116, 0.9, 9.9, 0.2, 0.15, 0.3,
                      12.0, 0.11, 0.09, 0.05, 14.0, 0.02, 0.12],
        'Sellmeier2': [0.05, 1.04, 0.006, 0.23, 0.02, 1.01, 103.6, 0.2, 0.015,
                       0.3, 120.0, 0.11, 0.009, 0.07, 150.0, 0.02, 0.012],
        'Polynomial': [2.2, -0.001, 2.0, 0.012, -2.0, 0.0003, -4.0, 0.02, -6.0,
                       0.004, 1.0, 0.003, -1.0, 0.01, 0.5, 0.0001, -3.0],
        'RefractiveIndexInfo': [2.5, 0.11, 0.0, 0.1, 2.0, 0.2, 2.0, 0.02, 1.0,
                                -0.001, 2.0, 0.03, -2.0, 0.002, 1.0, 0.01, -1.0],
        'Cauchy': [1.5, 0.004, -2.0, 0.0001, -4.0, 0.001, -6.0, 0.002, 2.0, 0.01,
                   1.0, 0.02, 0.5],
        'Gases': [0.001, 0.058, 238.0, 0.00168, 57.4, 0.01, 120.0, 0.002, 300.0,
                  0.003, 90.0]}


def parameters(name, count):
    par = list(LONG.get(name) or ref.TYPICAL[name])
    # further terms: the last four ones again, scaled
    while len(par) < count:
        par += [0.7 * par[-4], par[-3], 0.6 * par[-2], par[-1]]
    return par[:count]


def points(name):
    return EN if name in ref.MODELS_EPS else LAM


def expected(name, par, pts):
    """values where the formula gives a real number, else None"""
    out = []
    for p in pts:
        try:
            val = ref.evaluate_formula(name, par, p)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            val = None
        if val is not None and not np.isfinite(val):
            val = None
        if isinstance(val, complex) and name in ref.MODELS_N:
            val = None
        out.append(val)
    return out


def model(name, par, pts, container):
    tu = ref.model_tu(name)
    given = {'array': np.array(par, dtype=float), 'list': list(par),
             'tuple': tuple(par)}[container]
    return getattr(sd, name)(given, [min(pts) / 2, max(pts) * 2],
                             spectrum_type=tu[0], unit=tu[1])


def compare(c, name, par, got, exp, pts, extra=''):
    for g, e, p in zip(np.atleast_1d(got), exp, pts):
        if e is None:
            continue
        c.check(abs(g - e) <= 1e-7 * abs(e) + 1e-9 * cond(name, par),
                "{} {} at {}{}: got {}, formula gives {}", name, par, p, extra,
                g, e)


def cond(name, par):
    return 1.0 + max(abs(p) for p in par) * 1e-1


def unreal(c, name, par, pts, container):
    """no real index is made up where the formula gives none"""
    for p in pts:
        try:
            ref.evaluate_formula(name, par, p)
            continue
        except ref.NegativeSquare as exc:
            square = exc.args[0]
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            continue
        if not -1e12 < square < -1e-6:
            continue
        try:
            with np.errstate(all='ignore'):
                got = model(name, par, pts, container).evaluate(
                    Spectrum([float(p)], *ref.model_tu(name)))[0]
        except (ValueError, ArithmeticError):
            continue
        c.op()
        c.check(got != got or abs(got * got - square) <= 1e-6 * abs(square),
                "{} {} at {}: got {}, the formula gives a square of {}", name, par,
                p, got, square)


def verify(c, name, par, container='array', scalars=False):
    pts = points(name)
    exp = expected(name, par, pts)
    unreal(c, name, par, pts, container)
    use = [p for p, e in zip(pts, exp) if e is not None]
    if not use:
        return False
    exp = [e for e in exp if e is not None]
    tu = ref.model_tu(name)
    obj = model(name, par, pts, container)
    with np.errstate(all='ignore'):
        got = obj.evaluate(Spectrum(use, *tu))
    c.op()
    compare(c, name, par, got, exp, use)
    if name in ref.MODELS_EPS:
        c.check(np.all(np.imag(got) >= -1e-12 * np.abs(got)),
                "{} {}: gain {}", name, par, np.imag(got))
    if scalars:
        for p, e in zip(use, exp):
            got = obj.evaluate(Spectrum(float(p), *tu))
            c.op()
            c.check(np.ndim(got) == 0, "scalar gave shape {}", np.shape(got))
            compare(c, name, par, got, [e], [p], ' (scalar)')
    return True


ALL = ref.MODELS_N + ref.MODELS_EPS


def counts(c):
    """every admissible number of coefficients, every container"""
    name = c.choose('model', ALL)
    count = c.choose('coefficients', COUNTS[name])
    cont = c.choose('container', ['array', 'list', 'tuple'])
    verify(c, name, parameters(name, count), cont, scalars=True)
    c.state(name, count, cont)
    c.outcome(name, count)


FACTORS = [0.0, 0.37, 1.0, 2.3, 7.1]
NEG = ('Sellmeier', 'Sellmeier2', 'Polynomial', 'Cauchy', 'Herzberger',
       'Exotic', 'RefractiveIndexInfo', 'Retro', 'Gases')


def passive(name, par):
    """parameters for which the permittivity models are defined"""
    if name == 'Drude':
        return par[1] >= 0
    if name == 'DrudeLorentz':
        return par[1] >= 0 and par[3] > 0
    if name == 'TaucLorentz':
        amp, e0, broad, gap, _ = par
        return amp >= 0 and e0 > 0 and 0 < broad < 1.9 * e0 and gap > 0 and (
            broad ** 2 < 1.9 * e0 ** 2)
    return True


def variations(c):
    """coefficients varied one at a time, pairwise (and in triples)"""
    name = c.choose('model', ALL)
    base = parameters(name, COUNTS[name][-1] if len(COUNTS[name]) == 1
                      else [n for n in COUNTS[name] if n <= 11][-1])
    factors = FACTORS + ([-1.0] if name in NEG else [])
    i = c.choose('first', list(range(len(base))))
    fi = c.choose('factor', factors)
    rest = list(range(i + 1, len(base))) or [i]
    for j in rest:
        for fj in factors:
            third = range(j + 1, len(base)) if c.thorough else ()
            for k in list(third) or [None]:
                for fk in (factors if k is not None else [1.0]):
                    par = list(base)
                    par[i] = base[i] * fi
                    if j != i:
                        par[j] = base[j] * fj
                    if k is not None:
                        par[k] = base[k] * fk
                    if not passive(name, par):
                        continue
                    if verify(c, name, par):
                        c.state(name, tuple(par))
    c.outcome(name)


def kramers_kronig(c):
    """real part of Tauc-Lorentz follows from the imaginary part"""
    amp = c.choose('amplitude', [10.0, 122.0])
    e0 = c.choose('pole', [2.5, 3.45, 6.0])
    broad = c.choose('broadening', [0.3, 1.1, 2.54])
    gap = c.choose('gap', [0.5, 1.2, 3.0])
    einf = c.choose('high frequency limit', [1.0, 1.57])
    par = [amp, e0, broad, gap, einf]
    pts = [0.2, 0.9, 1.7, 2.6, 3.3, 5.0, 9.0]
    obj = model('TaucLorentz', par, [0.001, 2000.0], 'array')
    got = obj.evaluate(Spectrum(pts, 'energy', 'ev'))
    c.op()

    def imag(en):
        return ref.tauc_lorentz_imag(par, en)
    for p, g in zip(pts, got):
        c.check(abs(g.imag - imag(p)) < 1e-7 * (1 + abs(g)), "imaginary part {}",
                g)

        def integrand(x, p=p):
            # principal value by subtraction
            den = x * x - p * p
            if abs(den) < 1e-12:
                x += 1e-6
                den = x * x - p * p
            return (x * imag(x) - p * imag(p)) / den
        total = 0.0
        top = 4000.0
        knots = sorted({0.0, gap, e0, p, 2 * e0, 20.0, 200.0, top,
                        max(0., e0 - broad), e0 + broad})
        for lo, hi in zip(knots, knots[1:]):
            total += quad(integrand, lo, hi, limit=200)[0]
        # subtracted part beyond the upper limit
        total += p * imag(p) / (2 * p) * -math.log((top - p) / (top + p)) * -1
        exp = einf + 2 / math.pi * total
        c.check(abs(g.real - exp) < 2e-3 * (1 + abs(exp)),
                "{} at {} eV: {} but Kramers-Kronig gives {}", par, p, g.real,
                exp)
    c.state(tuple(par))


def tauc_lorentz(c):
    """dense parameter grid, closed form, around the gap and far from it"""
    amp = c.choose('amplitude', [0.0, 1.0, 35.0, 210.0])
    e0 = c.choose('pole', [0.7, 1.9, 3.5, 4.6, 9.0])
    broad = c.choose('broadening', [0.05, 0.4, 1.0, 2.2])
    gap = c.choose('gap', [0.1, 0.6, 1.2, 2.0, 4.0])
    if broad ** 2 >= 1.9 * e0 ** 2:
        c.prune()
    for einf in (0.0, 1.0, 2.3):
        par = [amp, e0, broad, gap, einf]
        pts = sorted({0.01, 0.3, 0.99 * gap, gap * (1 - 1e-9), gap, 1.01 * gap,
                      gap + 1e-3, gap + 3e-4, gap - 2e-4, gap + 1e-5,
                      gap - 1e-6, e0, 1.3 * e0, 0.5 * (gap + e0), 6.1, 30.0})
        obj = model('TaucLorentz', par, [1e-3, 1e3], 'array')
        got = obj.evaluate(Spectrum(pts, 'energy', 'ev'))
        c.op()
        for p, g in zip(pts, got):
            near = abs(p - gap) < 1e-7
            # energies are rounded to 1e-9 eV
            tol = 1e-5 if abs(p - gap) < 1e-4 else 1e-7
            c.check(np.isfinite(g), "{} at {}: {}", par, p, g)
            if True:
                exp = ref.evaluate_formula('TaucLorentz', par,
                                           gap if near else p)
                c.check(abs(g - exp) <= tol * (1 + abs(exp)),
                        "{} at {}: {} instead of {}", par, p, g, exp)
            c.check(g.imag >= 0 and (p > gap or abs(g.imag) < 1e-12),
                    "{} at {}: imaginary part {}", par, p, g.imag)
            one = obj.evaluate(Spectrum(float(p), 'energy', 'ev'))
            c.check(abs(one - g) <= 1e-9 * (1 + abs(g)), "scalar {} array {}",
                    one, g)
        c.state(tuple(par))


NUMBER = {n: i + 1 for i, n in enumerate(ref.MODELS_N)}


def yaml_number(val):
    return repr(float(val))


def selected(c):
    """formula numbers and model names select the formula"""
    name = c.choose('model', ALL)
    how = c.choose('given by', ['model_kw', 'file model'] +
                   (['file formula'] if name in NUMBER else []))
    count = c.choose('coefficients', COUNTS[name])
    par = parameters(name, count)
    pts = points(name)
    exp = expected(name, par, pts)
    tu = ref.model_tu(name)
    rng = [min(pts) / 2, max(pts) * 2]
    if how == 'model_kw':
        mat = Material(model_kw={'name': name, 'spectrum_type': tu[0],
                                 'unit': tu[1], 'valid_range': np.array(rng),
                                 'parameters': np.array(par)})
    else:
        path = os.path.join(os.environ['MC_WORK'], 'c06.yml')
        with open(path, 'w') as fpt:
            if how == 'file formula':
                fpt.write("DATA:\n  - type: formula {}\n    wavelength_range: {} "
                          "{}\n    coefficients: {}\n".format(
                              NUMBER[name], *map(yaml_number, rng),
                              " ".join(map(yaml_number, par))))
            else:
                fpt.write("DATA:\n  - DataType: model {}\n    ValidRange: '{} {}'\n"
                          "    SpectrumType: {}\n    Unit: {}\n"
                          "    Parameters: '{}'\n".format(
                              name, *map(yaml_number, rng), *tu,
                              " ".join(map(yaml_number, par))))
        mat = Material(file_path=path, spectrum_type='wavelength',
                       unit='micrometer')
    use = [(p, e) for p, e in zip(pts, exp) if e is not None]
    func = (mat.get_permittivity if name in ref.MODELS_EPS else mat.get_nk_data)
    got = func(Spectrum([p for p, _ in use], *tu))
    c.op(2)
    compare(c, name, par, got, [e for _, e in use], [p for p, _ in use])
    c.check(name in ref.MODELS_EPS or np.all(np.imag(got) == 0), "k is not zero")
    for qtu in ref.TU:
        got = func(Spectrum([ref.convert(tu, qtu, p) for p, _ in use], *qtu))
        c.op()
        for (p, e), g in zip(use, got):
            c.check(abs(g - e) <= 1e-5 * (1 + abs(e)),
                    "{} at {} in {}: {} instead of {}", name, p, qtu, g, e)
        c.state(name, how, count, qtu)


def drude(c):
    """grid of Drude and Drude-Lorentz parameters"""
    name = c.choose('model', ['Drude', 'DrudeLorentz'])
    omega = c.choose('plasma frequency', [0.5, 1.0, 9.03, 15.0])
    loss = c.choose('loss', [0.001, 0.07, 0.5, 3.0])
    for pole in (0.01, 0.3, 1.0) if name == 'DrudeLorentz' else (None,):
        for res in (0.1, 1.0, 2.97, 8.0) if pole else (None,):
            par = [omega, loss] if pole is None else [omega, pole, res, loss]
            verify(c, name, par, scalars=True)
            c.state(name, tuple(par))


INTS = {'Sellmeier': 5, 'Sellmeier2': 5, 'Polynomial': 5, 'RefractiveIndexInfo': 5,
        'Cauchy': 5, 'Gases': 5, 'Herzberger': 6, 'Retro': 4, 'Exotic': 6, 'Drude': 2,
        'DrudeLorentz': 4}


def integers(c):
    """parameters given as integers mean the same as floating point numbers"""
    name = c.choose('model', list(INTS))
    cont = c.choose('container', ['array', 'list', 'tuple'])
    first = c.choose('first', [1, 2, 3])
    tu = ref.model_tu(name)
    pts = np.array([0.37, 0.71, 1.3, 2.6])
    low, high = 0.1, 10.0
    if name == 'RefractiveIndexInfo':
        tails = [list(t) for t in itertools.product([0, 1, 2, -2], repeat=4)]
        tails += [t + [1, -2, 2, -1] for t in tails[::5]]
        tails += [t + [1, -2, 3, -1, 2, -3] for t in tails[::7] if len(t) == 4]
    else:
        values = [1, 2, -2] if INTS[name] == 6 else [0, 1, 2, -2]
        if name in ref.MODELS_EPS:
            values = [1, 2, 5]
        tails = [list(t) for t in itertools.product(values, repeat=INTS[name] - 1)]
    for tail in tails:
        par = [first] + tail
        exp = expected(name, par, pts)
        use = [(p, e) for p, e in zip(pts, exp) if e is not None and
               1e-3 < abs(e) < 1e5]
        if not use:
            continue
        given = {'array': np.array(par), 'list': par, 'tuple': tuple(par)}[cont]
        obj = getattr(sd, name)(given, [low, high], spectrum_type=tu[0], unit=tu[1])
        got = obj.evaluate(Spectrum([p for p, _ in use], *tu))
        c.op()
        c.check(ref.close(got, [e for _, e in use], 1e-6), "{} {} ({}): {} instead "
                "of {}", name, par, cont, got, use)
        c.state(name, tuple(par))
    c.outcome(name, cont)


def fano(c):
    """Fano line shape, normalised with the Fano parameter"""
    q = c.choose('Fano parameter', [-7.0, -2.0, -1.0, -0.3, 0.0, 0.5, 1.0, 2.0, 6.5])
    res = c.choose('resonance', [0.3, 1.0, 2.5, 6.0])
    cont = c.choose('container', ['array', 'list', 'tuple'])
    for gamma in (0.01, 0.2, 1.0, 3.0):
        par = [q, res, gamma]
        given = {'array': np.array(par), 'list': par, 'tuple': tuple(par)}[cont]
        obj = sd.Fano(given, [0.01, 20.0], spectrum_type='energy', unit='eV')
        pts = sorted(set(EN + [res, res + gamma / 2, res + abs(q) * gamma / 2,
                               res + 2 * gamma]))
        exp = []
        for p in pts:
            eps = (p - res) / (gamma / 2)
            exp.append((q + eps) ** 2 / ((1 + eps ** 2) * (1 + q * q)))
        got = obj.evaluate(Spectrum(pts, 'energy', 'eV'))
        c.op()
        c.check(np.allclose(got, exp, rtol=1e-6, atol=1e-9),
                "Fano {} at {}: {} instead of {}", par, pts, got, exp)
        for qtu in ref.TU:
            got = obj.evaluate(Spectrum(ref.convert(('energy', 'ev'), qtu, pts),
                                        *qtu))
            c.op()
            c.check(np.allclose(got, exp, rtol=1e-4, atol=1e-7),
                    "Fano {} at {} asked in {}: {} instead of {}", par, pts, qtu, got,
                    exp)
        c.state('Fano', tuple(par))


SCENARIOS = {'fano': fano, 'counts': counts, 'variations': variations,
             'kramers kronig': kramers_kronig, 'tauc lorentz': tauc_lorentz,
             'selected': selected, 'drude': drude, 'integers': integers}

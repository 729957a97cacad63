"""Independent reference model: units, alphabets, formulas, comparisons.

Nothing in here imports or copies the code under test.
"""
import math
import unicodedata
import numpy as np

C0 = 299792458.0
H = 6.62607015e-34
QE = 1.602176634e-19
HC_E = H * C0 / QE
INF = math.inf

#: (type, canonical unit, factor, reciprocal)
UNITS = [('wavelength', 'm', 1.0, False),
         ('wavelength', 'nm', 1e-9, False),
         ('wavelength', 'um', 1e-6, False),
         ('wavelength', 'cm', 1e-2, False),
         ('wavelength', 'a', 1e-10, False),
         ('frequency', 'hz', C0, True),
         ('energy', 'ev', HC_E, True),
         ('angularfrequency', '1/s', 2 * math.pi * C0, True),
         ('wavenumber', '1/cm', 2 * math.pi * 1e-2, True)]
UNIT = {(t, u): (f, r) for t, u, f, r in UNITS}
TU = [(t, u) for t, u, _, _ in UNITS]
SPELLINGS = {'m': ['meter', 'metre', 'm'],
             'cm': ['centimeter', 'centimetre', 'cm'],
             'um': ['micrometer', 'micrometre', 'um'],
             'nm': ['nanometer', 'nanometre', 'nm'],
             'hz': ['hertz', 'hz'],
             'ev': ['electronvolt', 'ev'],
             '1/s': ['1/s', 'rad/s'],
             '1/cm': ['1/cm'],
             'a': ['a', 'angstrom']}
CANON = {name: unit for unit, names in SPELLINGS.items() for name in names}
DISPLAY = {'m': 'm', 'cm': 'cm', 'um': '\u03bcm', 'nm': 'nm', 'hz': 'Hz',
           'ev': 'eV', '1/s': '1/s', '1/cm': '1/cm', 'a': '\u00c5'}
#: documented rounding when converting to the unit, in that unit
ROUNDING = {'m': 0.0, 'nm': 1e-6, 'um': 1e-9, 'cm': 1e-13, 'a': 1e-5,
            'hz': 0.0, 'ev': 1e-9, '1/s': 0.0, '1/cm': 0.0}


def label_ok(text, tu):
    """axis label: quantity and unit, whichever code points are used"""
    return (unicodedata.normalize('NFKC', text) == unicodedata.normalize(
        'NFKC', "{} ({})".format(tu[0], DISPLAY[tu[1]])))


def recip(values):
    if np.ndim(values) == 0:
        return INF if values == 0 else (0.0 if values == INF else 1.0 / values)
    return np.array([recip(float(v)) for v in np.asarray(values)], dtype=float)


def to_m(tu, values):
    """vacuum wavelength in metre"""
    factor, reciprocal = UNIT[tuple(tu)]
    if reciprocal:
        return factor * recip(values)
    return factor * (np.asarray(values, dtype=float) if np.ndim(values)
                     else float(values))


def from_m(tu, metres):
    factor, reciprocal = UNIT[tuple(tu)]
    if reciprocal:
        return factor * recip(metres)
    return (np.asarray(metres, dtype=float) if np.ndim(metres)
            else float(metres)) / factor


def convert(src, dst, values):
    return from_m(dst, to_m(src, values))


def conv_ok(dst, got, exp, rel=1e-11, slack=1.0):
    """element wise agreement up to floating point error and rounding"""
    got = np.asarray(got, dtype=float)
    exp = np.asarray(exp, dtype=float)
    if got.shape != exp.shape:
        return False
    same = got == exp
    with np.errstate(invalid='ignore'):
        close = np.abs(got - exp) <= (rel * np.abs(exp) +
                                      slack * 0.51 * ROUNDING[dst[1]])
    # infinities must be infinities
    close &= np.isfinite(got) & np.isfinite(exp)
    return bool(np.all(same | close))


def pos_error(tu, metres):
    """uncertainty in metre of a position after rounding in unit tu"""
    metres = np.asarray(metres, dtype=float)
    if tu[1] == 'ev':
        err = metres ** 2 / HC_E * 0.51e-9
    else:
        err = 0.51 * ROUNDING[tu[1]] * UNIT[tuple(tu)][0] * np.ones_like(metres)
    return err + 1e-11 * np.abs(metres)


def close(got, exp, rel=1e-9, absolute=1e-12):
    got = np.asarray(got)
    exp = np.asarray(exp)
    if got.shape != exp.shape:
        return False
    if got.size == 0:
        return True
    if not np.all(np.isfinite(got) == np.isfinite(exp)):
        return False
    fin = np.isfinite(exp)
    return bool(np.all(np.abs(got[fin] - exp[fin]) <=
                       rel * np.abs(exp[fin]) + absolute))


# ---------------------------------------------------------------- containers
def containers(values):
    """name -> object holding the same numbers"""
    arr = np.array(values, dtype=float)
    strided = np.zeros(2 * len(arr))
    strided[::2] = arr
    frozen = arr.copy()
    frozen.flags.writeable = False
    rev = arr[::-1].copy()[::-1]
    return {'array': arr, 'list': [float(v) for v in arr],
            'tuple': tuple(float(v) for v in arr),
            'strided': strided[::2], 'reversed view': rev,
            'read-only': frozen,
            'list of np.float64': list(arr)}


LENGTHS = [1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 20, 31, 33, 50, 64, 65, 99, 100,
           101, 128, 129, 200, 255, 256, 257, 499, 500, 501, 512, 513, 999,
           1000, 1001, 1024, 1025, 2000, 2049, 4097, 10001]


def spread(low, high, count):
    """count points from low to high (ends included), geometrically spaced"""
    if count == 1:
        return np.array([low])
    pts = low * (high / low) ** (np.arange(count) / (count - 1.0))
    pts[0], pts[-1] = low, high
    return pts


def arrange(values, how):
    """deterministic orders of an array"""
    values = np.asarray(values, dtype=float)
    n = len(values)
    if how == 'ascending':
        return np.sort(values)
    if how == 'descending':
        return np.sort(values)[::-1].copy()
    if how == 'interleaved':
        srt = np.sort(values)
        step = 7 if n % 7 else 11
        if n % step == 0:
            step = 13
        if math.gcd(step, n) != 1:
            step = 1
        return srt[(np.arange(n) * step + n // 2) % n]
    if how == 'duplicates':
        srt = np.sort(values)
        return srt[(np.arange(n) // 2 * 5) % n]
    raise KeyError(how)


ORDERS = ['ascending', 'descending', 'interleaved', 'duplicates']


# ---------------------------------------------------------------- formulas
class NegativeSquare(ValueError):
    """the formula gives a negative square of the refractive index"""


def sqrt(value):
    if value < 0:
        raise NegativeSquare(value)
    return math.sqrt(value)


def formula(name, par, lam):
    """published formulas; lam in micrometre, or eV for permittivity models"""
    par = [float(p) for p in par]
    l2 = lam * lam
    if name == 'Sellmeier':
        s = par[0]
        for i in range(1, len(par) - 1, 2):
            s += par[i] * l2 / (l2 - par[i + 1] ** 2)
        return sqrt(1.0 + s)
    if name == 'Sellmeier2':
        s = par[0]
        for i in range(1, len(par) - 1, 2):
            s += par[i] * l2 / (l2 - par[i + 1])
        return sqrt(1.0 + s)
    if name == 'Polynomial':
        s = par[0]
        for i in range(1, len(par) - 1, 2):
            s += par[i] * lam ** par[i + 1]
        return sqrt(s)
    if name == 'RefractiveIndexInfo':
        s = par[0]
        for i in (1, 5):
            if len(par) > i + 3:
                s += (par[i] * lam ** par[i + 1] /
                      (l2 - par[i + 2] ** par[i + 3]))
        for i in range(9, len(par) - 1, 2):
            s += par[i] * lam ** par[i + 1]
        return sqrt(s)
    if name == 'Cauchy':
        s = par[0]
        for i in range(1, len(par) - 1, 2):
            s += par[i] * lam ** par[i + 1]
        return s
    if name == 'Gases':
        s = par[0]
        for i in range(1, len(par) - 1, 2):
            s += par[i] / (par[i + 1] - 1.0 / l2)
        return 1.0 + s
    if name == 'Herzberger':
        q = 1.0 / (l2 - 0.028)
        return (par[0] + par[1] * q + par[2] * q * q + par[3] * l2 +
                par[4] * l2 * l2 + par[5] * l2 * l2 * l2)
    if name == 'Retro':
        s = par[0] + par[1] * l2 / (l2 - par[2]) + par[3] * l2
        return sqrt((1 + 2 * s) / (1 - s))
    if name == 'Exotic':
        s = (par[0] + par[1] / (l2 - par[2]) +
             par[3] * (lam - par[4]) / ((lam - par[4]) ** 2 + par[5]))
        return sqrt(s)
    en = lam
    if name == 'Drude':
        return 1.0 - par[0] ** 2 / (en * en + 1j * par[1] * en)
    if name == 'DrudeLorentz':
        return 1.0 + par[1] * par[0] ** 2 / (par[2] ** 2 - en * en -
                                             1j * par[3] * en)
    raise KeyError(name)


def tauc_lorentz_imag(par, en):
    amp, e0, broad, gap, _ = par
    if en <= gap:
        return 0.0
    return (amp * e0 * broad * (en - gap) ** 2 /
            ((en * en - e0 * e0) ** 2 + broad ** 2 * en * en) / en)


def tauc_lorentz_real(par, en):
    """Jellison & Modine 1996 with erratum, in a form of its own"""
    amp, e0, c, eg, einf = [float(p) for p in par]
    al = math.sqrt(4 * e0 ** 2 - c ** 2)
    ga2 = e0 ** 2 - c ** 2 / 2
    z4 = (en ** 2 - ga2) ** 2 + al ** 2 * c ** 2 / 4
    aln = ((eg ** 2 - e0 ** 2) * en ** 2 + eg ** 2 * c ** 2 -
           e0 ** 2 * (e0 ** 2 + 3 * eg ** 2))
    aat = (en ** 2 - e0 ** 2) * (e0 ** 2 + eg ** 2) + eg ** 2 * c ** 2
    out = einf
    out += (amp * c * aln / (2 * math.pi * z4 * al * e0) *
            math.log((e0 ** 2 + eg ** 2 + al * eg) /
                     (e0 ** 2 + eg ** 2 - al * eg)))
    out -= (amp * aat / (math.pi * z4 * e0) *
            (math.pi - math.atan((2 * eg + al) / c) +
             math.atan((al - 2 * eg) / c)))
    out += (2 * amp * e0 * eg / (math.pi * z4 * al) * (en ** 2 - ga2) *
            (math.pi + 2 * math.atan(2 * (ga2 - eg ** 2) / (al * c))))
    if abs(en - eg) < 1e-13:
        # limit of the two logarithmic terms
        x = -(en ** 2 + eg ** 2) / en * math.log(1 / (2 * en))
        y = 2 * eg * math.log(2 * en / math.sqrt((e0 ** 2 - eg ** 2) ** 2 +
                                                 eg ** 2 * c ** 2))
        return out + amp * e0 * c / (math.pi * z4) * (x + y)
    out -= (amp * e0 * c / (math.pi * z4) * (en ** 2 + eg ** 2) / en *
            math.log(abs(en - eg) / (en + eg)))
    out += (2 * amp * e0 * c * eg / (math.pi * z4) *
            math.log(abs(en - eg) * (en + eg) /
                     math.sqrt((e0 ** 2 - eg ** 2) ** 2 + eg ** 2 * c ** 2)))
    return out


def evaluate_formula(name, par, lam):
    if name == 'TaucLorentz':
        return tauc_lorentz_real(par, lam) + 1j * tauc_lorentz_imag(par, lam)
    return formula(name, par, lam)


MODELS_N = ['Sellmeier', 'Sellmeier2', 'Polynomial', 'RefractiveIndexInfo',
            'Cauchy', 'Gases', 'Herzberger', 'Retro', 'Exotic']
MODELS_EPS = ['Drude', 'DrudeLorentz', 'TaucLorentz']
#: one physically sensible parameter vector per model
TYPICAL = {'Sellmeier': [0.0, 0.6961663, 0.0684043, 0.4079426, 0.1162414,
                         0.8974794, 9.896161],
           'Sellmeier2': [0.0, 1.03961212, 0.00600069867, 0.231792344,
                          0.0200179144, 1.01046945, 103.560653],
           'Polynomial': [2.2, -0.01, 2.0, 0.012, -2.0, 0.0003, -4.0],
           'RefractiveIndexInfo': [2.5, 0.01, 0.0, 0.1, 2.0, 0.02, 2.0, 0.2,
                                   2.0, -0.01, 2.0],
           'Cauchy': [1.5, 0.004, -2.0, 0.0001, -4.0],
           'Gases': [0.0, 0.05792105, 238.0185, 0.00167917, 57.362],
           'Herzberger': [1.42, 0.03, -0.0002, -0.001, 1e-5, -1e-7],
           'Retro': [0.18, 0.09, 0.02, -0.002],
           'Exotic': [2.3, 0.02, 0.03, 0.01, 0.2, 0.05],
           'Drude': [9.0, 0.07],
           'DrudeLorentz': [6.0, 0.7, 3.2, 0.4],
           'TaucLorentz': [100.0, 3.5, 1.1, 1.2, 1.5]}


def model_tu(name):
    return ('energy', 'ev') if name in MODELS_EPS else ('wavelength', 'um')


# ---------------------------------------------------------------- tables
def linear(xs, ys, x):
    """piecewise linear interpolation, straightforward"""
    pairs = sorted(zip([float(v) for v in xs], [float(v) for v in ys]))
    if x <= pairs[0][0]:
        return pairs[0][1]
    for (x0, y0), (x1, y1) in zip(pairs, pairs[1:]):
        if x0 <= x <= x1:
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    return pairs[-1][1]

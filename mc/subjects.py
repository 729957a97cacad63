"""objects of every kind, used by several properties

every builder returns a new object and the valid range in metre
"""
import os
import numpy as np
from dispersion import (Spectrum, Constant, Interpolation, Extrapolation,
                        Material)
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
import dispersion.spectral_data as sd
from mc import ref

LOW, HIGH = 4e-7, 8e-7
NM = ('wavelength', 'nm')


def rng(tu, low=LOW, high=HIGH):
    return sorted([ref.from_m(tu, low), ref.from_m(tu, high)])


def table(tu=NM, rows=5, low=LOW, high=HIGH):
    r = rng(tu, low, high)
    xs = np.linspace(r[0], r[1], rows)
    xs[-1] = r[1]
    i = np.arange(rows)
    return np.column_stack([xs, 1.5 + 0.11 * (i % 3) + 0.02 * i,
                            0.2 + 0.07 * (i % 2) + 0.01 * i])


def path(name):
    return os.path.join(os.environ['MC_WORK'], name)


# ------------------------------------------------------------ spectral data
def constant():
    return Constant(1.75), 0.0, ref.INF


def constant_range():
    return (Constant(-0.6, valid_range=rng(NM), spectrum_type='wavelength',
                     unit='nm'), LOW, HIGH)


def constant_ev():
    tu = ('energy', 'ev')
    return Constant(2.5, valid_range=rng(tu), spectrum_type=tu[0],
                    unit=tu[1]), LOW, HIGH


def interp(order, tu=NM, rows=7, flip=False):
    def make():
        tab = table(tu, rows)[:, :2]
        if flip:
            tab = tab[::-1].copy()
        return (Interpolation(tab, spectrum_type=tu[0], unit=tu[1],
                              interp_order=order), LOW, HIGH)
    return make


def extrapolated(order, tu=NM, model=None):
    def make():
        if model:
            tu_ = ref.model_tu(model)
            base = getattr(sd, model)(ref.TYPICAL[model], rng(tu_),
                                      spectrum_type=tu_[0], unit=tu_[1])
        else:
            base = Interpolation(table(tu)[:, :2], spectrum_type=tu[0],
                                 unit=tu[1])
        return (Extrapolation(base, Spectrum([3e-7, 9e-7]), spline_order=order),
                3e-7, 9e-7)
    return make


def model(name):
    def make():
        tu = ref.model_tu(name)
        return (getattr(sd, name)(np.array(ref.TYPICAL[name]), rng(tu),
                                  spectrum_type=tu[0], unit=tu[1]), LOW, HIGH)
    return make


DATA = {'constant': constant, 'constant in range': constant_range,
        'constant eV': constant_ev, 'linear table': interp(1),
        'descending table': interp(1, flip=True),
        'quadratic table': interp(2), 'cubic table': interp(3),
        'table in eV': interp(1, ('energy', 'ev')),
        'table in 1/cm': interp(3, ('wavenumber', '1/cm')),
        'long table': interp(1, NM, 801),
        'two row table': interp(1, NM, 2),
        'extrapolated table': extrapolated(2),
        'linearly extrapolated': extrapolated(1, ('wavelength', 'um')),
        'extrapolated model': extrapolated(3, model='Cauchy')}
for _name in ref.TYPICAL:
    DATA['model ' + _name] = model(_name)


# ------------------------------------------------------------ materials
def m_fixed_n():
    return Material(fixed_n=1.7), 0.0, ref.INF


def m_fixed_nk():
    return Material(fixed_nk=1.7 + 0.3j), 0.0, ref.INF


def m_fixed_gain():
    return Material(fixed_nk=1.4 - 0.35j), 0.0, ref.INF


def m_table_gain():
    tab = table()
    tab[:, 2] *= -1
    return Material(tabulated_nk=tab), LOW, HIGH


def m_table_eps_gain():
    tab = table()
    tab[:, 1] *= -2
    tab[::2, 2] *= -1
    return Material(tabulated_eps=tab), LOW, HIGH


def m_fixed_eps_r():
    return Material(fixed_eps_r=-2.5), 0.0, ref.INF


def m_fixed_eps():
    return Material(fixed_eps=-2.5 + 0.9j), 0.0, ref.INF


def m_table(arg, tu=NM, rows=5, order=None, flip=False):
    def make():
        tab = table(tu, rows)
        if flip:
            tab = tab[::-1].copy()
        if arg == 'tabulated_n':
            tab = tab[:, :2].copy()
        if arg == 'tabulated_n_alpha':
            tab[:, 2] *= 1e5
        kws = {arg: tab, 'spectrum_type': tu[0], 'unit': tu[1]}
        if order is not None:
            kws['interp_order'] = order
        return Material(**kws), LOW, HIGH
    return make


def m_model(name):
    def make():
        tu = ref.model_tu(name)
        return (Material(model_kw={
            'name': name, 'spectrum_type': tu[0], 'unit': tu[1],
            'valid_range': np.array(rng(tu)),
            'parameters': np.array(ref.TYPICAL[name])}), LOW, HIGH)
    return make


def m_model_and_table():
    mat = m_model('Sellmeier')()[0]
    mat.data['imag'] = Interpolation(table(NM, 4, 5e-7, 9e-7)[:, [0, 2]],
                                     spectrum_type='wavelength', unit='nm')
    return mat, 5e-7, HIGH


def m_parts_ev():
    mat = m_table('tabulated_nk', ('energy', 'ev'))()[0]
    mat.data['imag'] = Constant(0.25, valid_range=(300., 700.), unit='nm')
    return mat, LOW, 7e-7


def m_one_row():
    return Material(tabulated_nk=np.array([[500., 1.6, 0.2]])), 5e-7, 5e-7


def m_extrapolated():
    mat = m_table('tabulated_nk')()[0]
    mat.extrapolate(Spectrum([3.5e-7, 9e-7]), spline_order=1)
    return mat, 3.5e-7, 9e-7


def m_no_absorption():
    mat = m_table('tabulated_eps')()[0]
    mat.remove_absorption()
    return mat, LOW, HIGH


def m_txt():
    name = path('subject.txt')
    with open(name, 'w') as fpt:
        fpt.write("# NAME: abc\n# SPECTRUMTYPE: wavelength\n# UNIT: um\n")
        for row in table(('wavelength', 'um')):
            fpt.write(" ".join(repr(float(v)) for v in row) + "\n")
    return Material(file_path=name), LOW, HIGH


def m_csv_default_unit():
    name = path('subject.csv')
    with open(name, 'w') as fpt:
        for row in table(('wavelength', 'nm'))[:, :2]:
            fpt.write(",".join(repr(float(v)) for v in row) + "\n")
    return Material(file_path=name), LOW, HIGH


def m_yml():
    name = path('subject.yml')
    with open(name, 'w') as fpt:
        fpt.write("REFERENCES: none\nCOMMENTS: none\nDATA:\n  - type: formula 1\n"
                  "    wavelength_range: 0.4 0.8\n    coefficients: {}\n"
                  "  - type: tabulated k\n    data: |\n".format(
                      " ".join(map(repr, ref.TYPICAL['Sellmeier']))))
        for row in table(('wavelength', 'um')):
            fpt.write("        {!r} {!r}\n".format(float(row[0]), float(row[2])))
    return Material(file_path=name, spectrum_type='wavelength',
                    unit='micrometer'), LOW, HIGH


def m_effective(cls, tu=NM):
    def make():
        spec = Spectrum(table(tu)[:, 0], tu[0], tu[1])
        return (cls(spec, m_table('tabulated_nk', rows=9)()[0],
                    Material(fixed_eps=3.5 + 0.2j), 0.35), LOW, HIGH)
    return make


MATERIALS = {'fixed n': m_fixed_n, 'fixed nk': m_fixed_nk,
             'fixed nk gain': m_fixed_gain, 'table nk gain': m_table_gain,
             'table eps gain': m_table_eps_gain,
             'fixed eps_r': m_fixed_eps_r, 'fixed eps': m_fixed_eps,
             'table n': m_table('tabulated_n'),
             'table nk': m_table('tabulated_nk'),
             'table nk descending': m_table('tabulated_nk', flip=True),
             'table nk eV': m_table('tabulated_nk', ('energy', 'ev')),
             'table nk cubic': m_table('tabulated_nk', rows=9, order=3),
             'table nk long': m_table('tabulated_nk', rows=700),
             'table eps': m_table('tabulated_eps'),
             'table eps 1/cm': m_table('tabulated_eps', ('wavenumber', '1/cm')),
             'table n_alpha': m_table('tabulated_n_alpha'),
             'table n_alpha Hz': m_table('tabulated_n_alpha',
                                         ('frequency', 'hz')),
             'model and table': m_model_and_table, 'parts eV': m_parts_ev,
             'one row': m_one_row, 'extrapolated': m_extrapolated,
             'no absorption': m_no_absorption, 'txt file': m_txt,
             'csv file': m_csv_default_unit, 'yml file': m_yml,
             'Simple': m_effective(Simple),
             'MaxwellGarnett': m_effective(MaxwellGarnett, ('energy', 'ev')),
             'Bruggeman': m_effective(Bruggeman)}
for _name in ref.TYPICAL:
    MATERIALS['model ' + _name] = m_model(_name)


def inside(low, high, count):
    """points inside a range, ends included if finite"""
    if low == high:
        return np.full(count, low)
    lo = low if low > 0 else min(2e-7, .3 * high)
    hi = high if np.isfinite(high) else max(3e-6, 4 * low)
    return ref.spread(lo, hi, count)

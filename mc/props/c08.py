"""C08: refractive index and permittivity agree"""
import itertools
import os
import numpy as np
from dispersion import Spectrum, Constant, Interpolation, Material
from mc import ref, subjects

BOUNDS = {t: "40 materials x 9 units x scalar/array requests; 14x15 complex values "
             "for each definition by value or table; replaced parts"
          for t in ('quick', 'thorough')}
ASSUMPTIONS = []
RE = [-1e4, -30.0, -2.5, -1.0, -1e-3, -1e-18, 0.0, 1e-18, 1e-3, 0.5, 1.0, 2.25, 12.1, 1e4]
IM = [-3.0, -0.2, -1e-6, 0.0, 1e-18, 1e-12, 1e-9, 1e-6, 1e-4, 0.01, 0.1, 1.0, 2.7, 50.0, 1e4]
MET = np.array([4.1e-7, 5.5e-7, 7.7e-7])


def agree(c, nk, eps, what, passive=True):
    nk, eps = np.asarray(nk), np.asarray(eps)
    c.check(nk.shape == eps.shape, "{}: shapes {} and {}", what, nk.shape,
            eps.shape)
    c.check(np.iscomplexobj(nk) and np.iscomplexobj(eps),
            "{}: result is not complex", what)
    c.check(np.all(np.abs(nk ** 2 - eps) <= 1e-9 * np.abs(eps) + 1e-300),
            "{}: n+ik = {} but eps = {}", what, nk, eps)
    if passive:
        c.check(np.all(nk.real >= 0) and np.all(nk.imag >= 0),
                "{}: refractive index {}", what, nk)


def both(c, mat, arg, *tu):
    nk = mat.get_nk_data(arg, *tu)
    eps = mat.get_permittivity(arg, *tu)
    c.op(2)
    return nk, eps


def requests(met=MET):
    out = [(float(met[0]), ()), (met, ()), (list(met), ())]
    for tu in ref.TU:
        vals = ref.from_m(tu, met)
        out += [(vals, tu), (float(vals[1]), tu), (Spectrum(vals, *tu), ()),
                (Spectrum(float(vals[1]), *tu), ())]
    return out


def materials(c):
    """every kind of material"""
    name = c.choose('material', list(subjects.MATERIALS))
    order = c.choose('calls', ['nk first', 'eps first'])
    mat, low, high = subjects.MATERIALS[name]()
    met = subjects.inside(low, high, 9)
    for arg, tu in requests(met):
        if order == 'nk first':
            nk, eps = both(c, mat, arg, *tu)
        else:
            eps = mat.get_permittivity(arg, *tu)
            nk = mat.get_nk_data(arg, *tu)
            c.op(2)
        agree(c, nk, eps, (name, tu), passive='gain' not in name)
        c.check(np.ndim(nk) == np.ndim(arg.values if isinstance(arg, Spectrum)
                                       else arg), "shape {}", np.shape(nk))
    c.state(name, order)
    c.outcome(name)


def values(c):
    """the supplied view is returned unchanged, the other one derived"""
    how = c.choose('definition', ['fixed_n', 'fixed_nk', 'fixed_eps_r',
                                  'fixed_eps', 'tabulated_n', 'tabulated_nk',
                                  'tabulated_eps', 'txt nk', 'yml eps', 'yml k',
                                  'yml n then k', 'yml eps_i'])
    real = c.choose('real', RE)
    for imag in IM:
        val = complex(real, imag)
        is_eps = 'eps' in how
        if how in ('fixed_n', 'fixed_eps_r', 'tabulated_n'):
            val = complex(real, 0.0)
        if how in ('yml k', 'yml eps_i'):
            val = complex(0.0, imag)
        xs = np.array([400., 500., 800.])
        if how in ('fixed_n', 'fixed_eps_r'):
            mat = Material(**{how: real})
        elif how.startswith('fixed'):
            mat = Material(**{how: val})
        elif how == 'tabulated_n':
            mat = Material(tabulated_n=np.column_stack([xs, [real] * 3]))
        elif how.startswith('tabulated'):
            mat = Material(**{how: np.column_stack([xs, [val.real] * 3,
                                                    [val.imag] * 3])})
        else:
            path = subjects.path('c08.txt' if 'txt' in how else 'c08.yml')
            with open(path, 'w') as fpt:
                if how == 'txt nk':
                    for x in xs:
                        fpt.write("{!r} {!r} {!r}\n".format(float(x), val.real,
                                                            val.imag))
                elif how == 'yml eps':
                    fpt.write("DATA:\n  - DataType: tabulated eps\n"
                              "    Data: |\n")
                    for x in xs:
                        fpt.write("      {!r} {!r} {!r}\n".format(
                            float(x), val.real, val.imag))
                elif how in ('yml k', 'yml eps_i'):
                    fpt.write("DATA:\n  - type: tabulated {}\n    data: |\n"
                              .format(how[4:]))
                    for x in xs:
                        fpt.write("      {!r} {!r}\n".format(float(x), val.imag))
                else:
                    fpt.write("DATA:\n")
                    for part, num in (('n', val.real), ('k', val.imag)):
                        fpt.write("  - type: tabulated {}\n    data: |\n"
                                  .format(part))
                        for x in xs:
                            fpt.write("      {!r} {!r}\n".format(float(x), num))
            mat = Material(file_path=path)
        for arg, tu in requests()[:8]:
            nk, eps = both(c, mat, arg, *tu)
            agree(c, nk, eps, (how, val),
                  passive=val.imag >= 0 and (is_eps or val.real >= 0))
            supplied = eps if is_eps else nk
            c.check(np.all(np.abs(np.asarray(supplied) - val) <=
                           1e-12 * abs(val)),
                    "{}: {} supplied, {} returned", how, val, supplied)
            c.check(np.all(np.abs(np.real(supplied) - val.real) <=
                           1e-12 * abs(val.real)) and
                    np.all(np.abs(np.imag(supplied) - val.imag) <=
                           1e-12 * abs(val.imag)),
                    "{}: {} supplied, {} returned", how, val, supplied)
        c.state(how, val)
    c.outcome(how)


def replaced(c):
    """parts replaced afterwards, in all orders"""
    start = c.choose('start', ['fixed n', 'fixed eps', 'table nk', 'table eps',
                               'model Sellmeier', 'txt file', 'table n_alpha'])
    steps = [c.choose('step{}'.format(i),
                      ['nothing', 'real constant', 'imag constant', 'imag table',
                       'remove absorption', 'evaluate'])
             for i in range(3 if not c.thorough else 4)]
    mat, low, high = subjects.MATERIALS[start]()
    name = 'eps' if 'eps' in start else 'nk'
    met = np.array([4.4e-7, 6.1e-7])
    re_exp = im_exp = None
    for step in steps:
        c.op()
        if step == 'real constant':
            mat.data['real'] = Constant(2.75)
            re_exp = np.full(2, 2.75)
        elif step == 'imag constant':
            mat.data['imag'] = Constant(0.5)
            im_exp = np.full(2, 0.5)
        elif step == 'imag table':
            mat.data['imag'] = Interpolation(np.array([[0.3, .1], [0.9, .7]]),
                                             unit='um')
            im_exp = .1 + (met * 1e6 - .3)
        elif step == 'remove absorption':
            mat.remove_absorption()
            im_exp = np.zeros(2)
        elif step == 'evaluate':
            both(c, mat, met)
    nk, eps = both(c, mat, met)
    agree(c, nk, eps, steps)
    got = nk if name == 'nk' else eps
    if re_exp is not None:
        c.check(np.allclose(np.real(got), re_exp, rtol=1e-9), "real part {}", got)
    if im_exp is not None:
        c.check(np.allclose(np.imag(got), im_exp, rtol=1e-8, atol=1e-12),
                "imaginary part {}", got)
    c.state(start, tuple(steps))


def models(c):
    """permittivity models over their parameters"""
    name = c.choose('model', ref.MODELS_EPS)
    scale = c.choose('scale', [0.2, 0.7, 1.0, 1.6])
    which = c.choose('parameter', list(range(len(ref.TYPICAL[name]))))
    par = list(ref.TYPICAL[name])
    par[which] *= scale
    if name == 'TaucLorentz' and par[2] ** 2 >= 1.9 * par[1] ** 2:
        c.prune()           # the formula is not defined there
    mat = Material(model_kw={'name': name, 'spectrum_type': 'energy',
                             'unit': 'ev', 'valid_range': np.array([.1, 20.]),
                             'parameters': np.array(par)})
    en = ref.spread(.1, 20., 101)
    nk, eps = both(c, mat, en, 'energy', 'ev')
    agree(c, nk, eps, par)
    exp = [ref.evaluate_formula(name, par, e) for e in en]
    c.check(ref.close(eps, exp, 1e-6, 1e-8), "permittivity differs from formula")
    for e, a in zip(en[::10], eps[::10]):
        nk1, eps1 = both(c, mat, float(e), 'energy', 'ev')
        agree(c, nk1, eps1, (par, e))
        c.check(abs(eps1 - a) < 1e-9 * (1 + abs(a)), "scalar {} array {}", eps1, a)
    c.state(name, scale, which)


SCENARIOS = {'materials': materials, 'values': values, 'replaced': replaced,
             'models': models}

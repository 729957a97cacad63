"""C09: constructing materials"""
import itertools
import os
import numpy as np
from dispersion import Spectrum, Material
from mc import ref, subjects

BOUNDS = {'quick': "all pairs (and triples) of the 10 defining arguments over "
                   "{absent, None, valid}; 47 values x each argument; all options",
          'thorough': "all 3^10 combinations of the defining arguments"}
ASSUMPTIONS = []
TAB3 = np.array([[400., 1.5, .1], [500., 1.6, .2], [700., 1.7, .4]])
MODEL = {'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um',
         'valid_range': np.array([.3, 2.]), 'parameters': np.array([1.4, .01, -2])}
DEFS = ['file_path', 'fixed_n', 'fixed_nk', 'fixed_eps_r', 'fixed_eps',
        'tabulated_nk', 'tabulated_n_alpha', 'tabulated_n', 'tabulated_eps',
        'model_kw']


def the_file():
    path = subjects.path('c09.txt')
    if not os.path.exists(path):
        with open(path, 'w') as fpt:
            for row in TAB3:
                fpt.write("{} {} {}\n".format(*row))
    return path


def valid(name):
    return {'file_path': the_file(), 'fixed_n': 1.5, 'fixed_nk': 1.5 + .1j,
            'fixed_eps_r': 2.5, 'fixed_eps': 2.5 + .4j,
            'tabulated_nk': TAB3.copy(), 'tabulated_n_alpha': TAB3.copy(),
            'tabulated_n': TAB3[:, :2].copy(), 'tabulated_eps': TAB3.copy(),
            'model_kw': dict(MODEL)}[name]


def reflects(c, mat, name):
    """the material is the one the argument describes"""
    nk = mat.get_nk_data(5e-7)
    eps = mat.get_permittivity(5e-7)
    c.op(2)
    exp = {'file_path': 1.6 + .2j, 'fixed_n': 1.5, 'fixed_nk': 1.5 + .1j,
           'tabulated_nk': 1.6 + .2j,
           'tabulated_n_alpha': 1.6 + .2j * 5e-5 / (4 * np.pi),
           'tabulated_n': 1.6, 'model_kw': 1.4 + .01 / .25}.get(name)
    if exp is None:
        exp = {'fixed_eps_r': 2.5, 'fixed_eps': 2.5 + .4j,
               'tabulated_eps': 1.6 + .2j}[name]
        c.check(ref.close(eps, exp), "{}: permittivity {}", name, eps)
    else:
        c.check(ref.close(nk, exp), "{}: refractive index {}", name, nk)


def attempt(kwargs):
    try:
        return Material(**kwargs), None
    except (ValueError, TypeError) as exc:
        return None, exc


def combos(c):
    """which arguments are given"""
    if c.thorough:
        states = [c.choose(name, ['absent', 'None', 'valid']) for name in DEFS]
    else:
        trio = c.choose('arguments', list(itertools.combinations(DEFS, 3)))
        given = {n: c.choose(n, ['absent', 'None', 'valid']) for n in trio}
        rest = c.choose('others', ['absent', 'None'])
        states = [given.get(n, rest) for n in DEFS]
    kwargs = {}
    used = []
    for name, state in zip(DEFS, states):
        if state == 'None':
            kwargs[name] = None
        elif state == 'valid':
            kwargs[name] = valid(name)
            used.append(name)
    mat, exc = attempt(kwargs)
    c.op()
    if len(used) == 1:
        c.check(mat is not None, "{} refused: {}", used, exc)
        reflects(c, mat, used[0])
    else:
        c.check(mat is None, "{} definitions accepted", used)
        c.check(isinstance(exc, ValueError), "{} gives {}", used, type(exc))
    c.state(tuple(states))
    c.outcome(len(used))


VALUES = {'int': 2, 'negative int': -1, 'zero int': 0, 'float': 1.5,
          'zero float': 0.0, 'negative float': -2.5, 'np.float64': np.float64(1.5),
          'np.float32': np.float32(1.5), 'np.int64': np.int64(2),
          'complex': 1.5 + .2j, 'zero complex': 0j,
          'np.complex128': np.complex128(1.5 + .2j),
          'np.complex64': np.complex64(1.5 + .2j), 'str': 'abc', 'numeric str': '1.5',
          'list': [1.5], 'nested list': [[400., 1.5], [500., 1.6]],
          'tuple': (1.5, 2.), 'dict': {}, 'set': {1.5}, 'bytes': b'x',
          'array 0d': np.array(1.5), 'array 1d': np.array([400., 1.5]),
          'array Nx1': TAB3[:, :1].copy(), 'array Nx2': TAB3[:, :2].copy(),
          'array Nx3': TAB3.copy(), 'array Nx4': np.hstack([TAB3, TAB3[:, 1:2]]),
          'array Nx5': np.hstack([TAB3, TAB3[:, 1:]]), 'array 3d': np.ones((2, 3, 3)), 'array 2x5': np.hstack([TAB3, TAB3[:, 1:]])[:2],
          'array 1x2': TAB3[:1, :2].copy(), 'array 1x3': TAB3[:1].copy(),
          'array 2x2': TAB3[:2, :2].copy(), 'array 2x3': TAB3[:2].copy(),
          'int array Nx2': np.array([[400, 2], [500, 3]]),
          'int array Nx3': np.array([[400, 2, 1], [500, 3, 1]]),
          'array 1x3x3': np.ones((1, 3, 3)), 'array 1x2x2': np.ones((1, 2, 2)),
          'array 1x3x2': np.ones((1, 3, 2)), 'array 1x2x3': np.ones((1, 2, 3)),
          'array 1x1x3': np.ones((1, 1, 3)), 'array 3x2x1': np.ones((3, 2, 1)),
          'array 3x3x1': np.ones((3, 3, 1)), 'array 1x1x3x3': np.ones((1, 1, 3, 3)),
          'array 3': np.ones(3), 'array 3x0': np.ones((3, 0)),
          'bool': True, 'function': len, 'type': float}
OK = {'fixed_n': ('float', 'zero float', 'negative float', 'np.float64'),
      'fixed_nk': ('complex', 'zero complex', 'np.complex128'),
      'tabulated_n': ('array Nx2', 'array 1x2', 'array 2x2', 'int array Nx2'),
      'tabulated_nk': ('array Nx3', 'array 1x3', 'array 2x3', 'int array Nx3')}
OK['fixed_eps_r'] = OK['fixed_n']
OK['fixed_eps'] = OK['fixed_nk']
OK['tabulated_eps'] = OK['tabulated_n_alpha'] = OK['tabulated_nk']


def types(c):
    """type and shape of the definition"""
    name = c.choose('argument', [d for d in DEFS if d in OK])
    vname = c.choose('value', list(VALUES))
    extra = c.choose('other arguments', ['none', 'None', 'options'])
    val = VALUES[vname]
    kwargs = {name: val}
    if extra == 'None':
        kwargs.update({n: None for n in DEFS if n != name})
        kwargs.update(spectrum_type=None, unit=None, interp_order=None)
    elif extra == 'options':
        kwargs.update(spectrum_type='wavelength', unit='nm', interp_order=1)
    mat, exc = attempt(kwargs)
    c.op()
    if vname in OK[name]:
        c.check(mat is not None, "{} {} refused: {}", name, vname, exc)
        if name.startswith('fixed'):
            got = (mat.get_permittivity if 'eps' in name
                   else mat.get_nk_data)(5e-7)
            c.check(ref.close(got, complex(val)), "{} {} gives {}", name, val, got)
        else:
            got = (mat.get_permittivity if 'eps' in name
                   else mat.get_nk_data)(4e-7)
            c.check(ref.close(np.real(got), float(val[0, 1]), 1e-9),
                    "{} gives {}", name, got)
    else:
        c.check(mat is None, "{} of type {} accepted", name, vname)
        shape = name.startswith('tabulated') and isinstance(val, np.ndarray)
        c.check(isinstance(exc, ValueError if shape else TypeError),
                "{} {} gives {}", name, vname, repr(exc))
    c.state(name, vname, extra)
    c.outcome(mat is None)


def other_types(c):
    """file path and model arguments of a wrong type"""
    name = c.choose('argument', ['file_path', 'model_kw', 'spectrum_type', 'unit',
                                 'interp_order'])
    vname = c.choose('value', list(VALUES))
    val = VALUES[vname]
    base = {} if name in ('file_path', 'model_kw') else {'fixed_n': 1.5}
    right = {'file_path': str, 'spectrum_type': str, 'unit': str,
             'model_kw': dict, 'interp_order': int}[name]
    if isinstance(val, right):
        c.prune()
    mat, exc = attempt(dict(base, **{name: val}))
    c.op()
    c.check(mat is None and isinstance(exc, TypeError), "{} = {}: {}", name, vname,
            repr(exc) if mat is None else 'accepted')
    c.state(name, vname)


def options(c):
    """type, unit and interpolation order together with every definition"""
    name = c.choose('argument', [d for d in DEFS if d not in ('model_kw',
                                                               'file_path')])
    stype = c.choose('spectrum_type', [None, 'wavelength', 'energy', 'frequency',
                                       'wavenumber', 'angularfrequency', 'bogus', ''])
    unit = c.choose('unit', [None] + [u for _, u in ref.TU] + ['bogus', ''])
    order = c.choose('interp_order', [None, 1, 2])
    kwargs = {name: valid(name), 'spectrum_type': stype, 'unit': unit,
              'interp_order': order}
    if c.choose('absent options', [False, True]):
        kwargs = {k: v for k, v in kwargs.items() if v is not None}
    mat, exc = attempt(kwargs)
    c.op()
    tu = (stype if stype is not None else 'wavelength',
          unit if unit is not None else 'nm')
    ok = tu in ref.TU
    c.check((mat is not None) == ok, "{} {}: {}", stype, unit,
            "accepted" if mat is not None else repr(exc))
    if not ok:
        c.check(isinstance(exc, ValueError), "{} {} gives {}", stype, unit,
                repr(exc))
    else:
        low, high = mat.get_maximum_valid_range()
        if name.startswith('tabulated'):
            c.check(abs(low - 400) < 1e-4 and abs(high - 700) < 1e-4,
                    "range {} {} in {}", low, high, tu)
            got = mat.get_nk_data(500., *tu)
            c.check(abs(got.real - 1.6) < 1e-5 or 'eps' in name,
                    "value {} in {}", got, tu)
        else:
            c.check(low == 0 and np.isinf(high), "range {} {}", low, high)
    c.state(name, stype, unit, order)


def models(c):
    """model dictionaries"""
    name = c.choose('model', list(ref.TYPICAL) + ['Bogus', 'cauchy', '',
                                                  'Spectrum_', 'constants'])
    cont = c.choose('containers', ['array', 'list'])
    tu = c.choose('unit', ref.TU)
    conv = np.array if cont == 'array' else list
    par = ref.TYPICAL.get(name, [1.5, .01, -2.])
    want = ref.model_tu(name)
    kws = {'name': name, 'spectrum_type': tu[0], 'unit': tu[1],
           'valid_range': conv([.5, 2.5]), 'parameters': conv(par)}
    try:
        mat = Material(model_kw=kws)
        err = None
    except (ValueError, NameError, TypeError, AttributeError) as exc:
        mat, err = None, exc
    c.op()
    ok = name in ref.TYPICAL and tu == want
    c.check((mat is not None) == ok, "model {} in {}: {}", name, tu,
            "accepted" if mat is not None else repr(err))
    if mat is not None:
        got = (mat.get_permittivity if name in ref.MODELS_EPS
               else mat.get_nk_data)(1.3, *tu)
        exp = ref.evaluate_formula(name, par, 1.3)
        c.check(ref.close(got, exp, 1e-8), "{} instead of {}", got, exp)
        c.check(np.allclose(mat.get_maximum_valid_range(), [.5, 2.5]),
                "range {}", mat.get_maximum_valid_range())
    c.state(name, cont, tu)


def files(c):
    """file names"""
    kind = c.choose('file', ['good.txt', 'missing.txt', 'missing.yml', 'bad.xyz',
                             'noext', 'dir.txt', ''])
    path = subjects.path(kind)
    if kind == 'dir.txt':
        os.makedirs(path, exist_ok=True)
    elif kind and not kind.startswith('missing'):
        with open(path, 'w') as fpt:
            fpt.write("400 1.5 0.1\n500 1.6 0.2\n")
    try:
        mat = Material(file_path=path if kind else '')
        err = None
    except (ValueError, OSError) as exc:
        mat, err = None, exc
    c.op()
    c.check((mat is not None) == (kind == 'good.txt'), "{}: {}", kind, err)
    c.state(kind)


SCENARIOS = {'combos': combos, 'types': types, 'other types': other_types,
             'options': options, 'models': models, 'files': files}

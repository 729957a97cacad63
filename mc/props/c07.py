"""C07: arrays are evaluated point by point"""
import itertools
import numpy as np
from dispersion import Spectrum, Material
from mc import ref, subjects

BOUNDS = {'quick': "26 kinds of data, 40 materials; all vectors of length <=3 over "
                   "5 points; lengths up to 4097; 4 orders; 9 units; 10 containers",
          'thorough': "vectors of length <=4, all lengths to 130"}
ASSUMPTIONS = []


def tol(got, exp):
    return np.abs(np.asarray(got) - np.asarray(exp)) <= 1e-9 * (
        1 + np.abs(np.asarray(exp)))


def call(subject, what, spec):
    return getattr(subject, what)(spec)


def compare(c, got, ones, req):
    c.check(isinstance(got, np.ndarray) or np.ndim(got) == 1,
            "{}: result of type {}", req, type(got))
    c.check(np.shape(got) == np.shape(ones), "{}: shape {} instead of {}", req,
            np.shape(got), np.shape(ones))
    c.check(np.all(tol(got, ones)), "{}: array gives {}, single points {}", req,
            np.asarray(got)[~tol(got, ones)][:3],
            np.asarray(ones)[~tol(got, ones)][:3])


def kind_of(c):
    group = c.choose('group', ['data', 'material nk', 'material eps'])
    if group == 'data':
        name = c.choose('data', list(subjects.DATA))
        return subjects.DATA[name], 'evaluate', name
    name = c.choose('material', list(subjects.MATERIALS))
    return (subjects.MATERIALS[name],
            'get_nk_data' if group == 'material nk' else 'get_permittivity', name)


def vectors(c):
    """all short vectors, in every unit"""
    build, what, name = kind_of(c)
    subject, low, high = build()
    tu = c.choose('unit', ref.TU if c.thorough else
                  [('wavelength', 'm'), ('wavelength', 'nm'), ('energy', 'ev'),
                   ('wavenumber', '1/cm')])
    pts = [float(v) for v in
           np.atleast_1d(ref.from_m(tu, subjects.inside(low, high, 5)))]
    single = {}
    for p in pts:
        val = call(subject, what, Spectrum(p, *tu))
        c.op()
        c.check(np.ndim(val) == 0, "scalar request gave shape {}", np.shape(val))
        single[p] = complex(val)
    for n in range(1, (4 if c.thorough else 3) + 1):
        for vec in itertools.product(pts, repeat=n):
            got = call(subject, what, Spectrum(list(vec), *tu))
            c.op()
            compare(c, got, np.array([single[p] for p in vec]), (vec, tu))
    c.state(name, what, tu)
    c.outcome(name, what)


def lengths(c):
    """long requests in several orders"""
    build, what, name = kind_of(c)
    subject, low, high = build()
    order = c.choose('order', ref.ORDERS)
    counts = ([1, 2, 3, 10, 17, 64, 100, 101, 257, 500, 501, 1001, 1024, 2000]
              if not c.thorough else list(range(1, 131)) + ref.LENGTHS)
    pool = subjects.inside(low, high, 37)
    # rows of the tables and points next to them
    nodes = np.concatenate([subjects.table(subjects.NM, 7)[1:-1, 0] * 1e-9 * f
                            for f in (1.0, 1 + 1e-4)])
    nodes = nodes[(nodes > low) & (nodes < high)]
    pool[1:1 + len(nodes)] = nodes
    tu = ('wavelength', 'um')
    values = np.atleast_1d(ref.from_m(tu, pool))
    single = np.array([complex(call(subject, what, Spectrum(float(v), *tu)))
                       for v in values])
    c.op(37)
    srt = np.argsort(values, kind='stable')
    values, single = values[srt], single[srt]
    for n in counts:
        idx = (np.arange(n) * 37) // n if n >= 37 else np.linspace(
            0, 36, n).astype(int)
        if order == 'descending':
            idx = idx[::-1]
        elif order == 'interleaved':
            idx = idx[(np.arange(n) * (13 if n % 13 else 11) + n // 2) % n]
        elif order == 'duplicates':
            idx = idx[(np.arange(n) // 2 * 5) % n]
        got = call(subject, what, Spectrum(values[idx], *tu))
        c.op()
        compare(c, got, single[idx], (n, order))
        c.state(name, what, order, n)


def request_kinds(c):
    """spectrum, list, tuple, float, arrays of several number types; all units"""
    name = c.choose('material', list(subjects.MATERIALS))
    what = c.choose('view', ['get_nk_data', 'get_permittivity'])
    subject, low, high = subjects.MATERIALS[name]()
    func = getattr(subject, what)
    met = subjects.inside(low, high, 4)[[2, 0, 3, 1, 1]]
    base = np.array([complex(func(float(m))) for m in met])
    for tu in ref.TU:
        vals = ref.from_m(tu, met)
        for cname, cont in ref.containers(vals).items():
            for got in (func(cont, tu[0], tu[1]),
                        func(cont, spectrum_type=tu[0].upper(),
                             unit=tu[1].upper()),
                        func(Spectrum(cont, *tu))):
                c.op()
                c.check(np.shape(got) == np.shape(base) and np.all(
                    np.abs(got - base) <= 1e-5 * (1 + np.abs(base))),
                        "{} in {}: {} instead of {}", cname, tu, got, base)
        for v, b in zip(vals, base):
            for got in (func(float(v), tu[0], tu[1]),
                        func(np.float64(v), tu[0], tu[1]),
                        func(Spectrum(float(v), *tu))):
                c.op()
                c.check(np.ndim(got) == 0 and abs(got - b) <= 1e-5 * (1 + abs(b)),
                        "{} {}: {} instead of {}", v, tu, got, b)
        c.state(name, what, tu)
    # whole numbers of nanometre in any number type
    lo, hi = max(low, 2e-7), min(high, 3e-6)
    ints = [int(round(lo * 1e9)), int(round((lo + hi) / 2 * 1e9)),
            int(round(hi * 1e9))]
    base = func(np.array(ints, dtype=float), 'wavelength', 'nm')
    for dtype in ('int16', 'int32', 'int64', 'uint16', 'uint64', 'float32',
                  'float64', 'list', 'tuple'):
        arg = (list(ints) if dtype == 'list' else tuple(ints)
               if dtype == 'tuple' else np.array(ints, dtype=dtype))
        got = func(arg, 'wavelength', 'nm')
        c.op()
        compare(c, got, base, dtype)
        got = func(Spectrum(arg, 'wavelength', 'nm'))
        compare(c, got, base, dtype)


def in_data_unit(c):
    """same result whatever unit the request of a data set is expressed in"""
    name = c.choose('data', list(subjects.DATA))
    tu = c.choose('unit', ref.TU)
    subject, low, high = subjects.DATA[name]()
    met = subjects.inside(low, high, 23)
    base = subject.evaluate(Spectrum(met))
    for order in ref.ORDERS[:3]:
        idx = {'ascending': np.arange(23), 'descending': np.arange(23)[::-1],
               'interleaved': np.arange(23) * 7 % 23}[order]
        spec = Spectrum(ref.from_m(tu, met[idx]), *tu)
        got = subject.evaluate(spec)
        c.op()
        c.check(np.shape(got) == (23,) and np.all(
            np.abs(got - base[idx]) <= 1e-5 * (1 + np.abs(base[idx]))),
                "{} {}: {} instead of {}", order, tu, got, base[idx])
        # a spectrum converted in place is the same request
        spec = Spectrum(met[idx])
        spec.convert_to(tu[0], tu[1], in_place=True)
        got = subject.evaluate(spec)
        c.op(2)
        c.check(np.all(np.abs(got - base[idx]) <= 1e-5 * (1 + np.abs(base[idx]))),
                "in place {} {}: {} instead of {}", order, tu, got, base[idx])
    c.state(name, tu)


SCENARIOS = {'vectors': vectors, 'lengths': lengths,
             'request kinds': request_kinds, 'in data unit': in_data_unit}

"""C01: conversion between every spectral type and unit"""
import numpy as np
from dispersion import Spectrum
from mc import ref

ASSUMPTIONS = ["CODATA 2018 values of h, c, e",
               "documented rounding: 1e-9 eV, 1e-15 m for wavelength units"]
BOUNDS = {t: "9x9 type/unit pairs; scalars over 16 decades x 10 mantissas, 0, "
             "inf; containers x {} lengths x 4 orders; integer dtypes".format(
                 len(ref.LENGTHS)) for t in ('quick', 'thorough')}
MANT = [1.0, 1.000000123456789, 1.5, 2.0, 2.718281828459045, 3.3333333333333335,
        4.9, 6.328, 7.7777777, 9.87654321]
SCALARS = [0.0, ref.INF] + [m * 10.0 ** e for e in range(-13, 4) for m in MANT]
MIXED = [0.0, 1e-12, 3.3e-10, ref.INF, 5e-7, 6.328e-7, 1.5e-6, 0.0, 2.2e-4, 1.1,
         ref.INF, 7.7e2, 5e-7]


def verify(c, src, dst, given, numbers):
    spec = Spectrum(given, spectrum_type=src[0], unit=src[1])
    got = spec.convert_to(dst[0], dst[1])
    c.op(2)
    exp = ref.convert(src, dst, numbers)
    c.check(np.shape(got) == np.shape(exp), "shape {} instead of {}",
            np.shape(got), np.shape(exp))
    c.check(ref.conv_ok(dst, got, exp),
            "{} {} {} -> {} {}: got {}, expected {}", numbers, *src, *dst, got,
            exp)
    c.check(not np.ndim(got) or np.asarray(got).dtype == np.float64,
            "result dtype {}", np.asarray(got).dtype)
    return spec


def scalar(c):
    """every magnitude as scalar and as one element array"""
    src = c.choose('from', ref.TU)
    dst = c.choose('to', ref.TU)
    kind = c.choose('kind', ['float', 'np.float64', 'array', 'list'])
    for metres in SCALARS:
        val = ref.from_m(src, metres)
        if metres in (0.0, ref.INF):
            val = 0.0 if val == 0 else ref.INF
        given = {'float': float(val), 'np.float64': np.float64(val),
                 'array': np.array([val]), 'list': [float(val)]}[kind]
        num = val if kind in ('float', 'np.float64') else [val]
        verify(c, src, dst, given, num)
        c.state(src, dst, kind, metres)


def arrays(c):
    """lengths, orders, containers"""
    src = c.choose('from', ref.TU)
    dst = c.choose('to', ref.TU)
    order = c.choose('order', ref.ORDERS)
    lengths = ref.LENGTHS if not c.thorough else list(range(1, 130)) + ref.LENGTHS
    for count in lengths:
        values = ref.arrange(ref.from_m(src, ref.spread(1e-10, 1e-2, count)),
                             order)
        names = ref.containers(values)
        pick = names if count <= 65 or c.thorough else ['array', 'list', 'strided']
        for name in pick:
            verify(c, src, dst, names[name], values)
            c.state(src, dst, order, count, name)


def mixed(c):
    """arrays holding zeros and infinities at every position"""
    src = c.choose('from', ref.TU)
    dst = c.choose('to', ref.TU)
    cont = c.choose('container', ['array', 'list', 'tuple', 'strided',
                                  'read-only'])
    values = np.array([ref.from_m(src, m) for m in MIXED])
    verify(c, src, dst, ref.containers(values)[cont], values)
    for i in range(len(values)):
        for j in range(i, len(values) + 1):
            part = values[i:j]
            verify(c, src, dst, ref.containers(part)[cont], part)
            c.state(src, dst, cont, i, j)


def integers(c):
    """integer and single precision arrays keep their exact value"""
    src = c.choose('from', ref.TU)
    dst = c.choose('to', ref.TU)
    dtype = c.choose('dtype', ['int8', 'uint8', 'int16', 'uint16', 'int32',
                               'uint32', 'int64', 'uint64', 'float16',
                               'float32', 'list', 'tuple', 'longdouble'])
    top = {'int8': 127, 'uint8': 255, 'int16': 32767, 'uint16': 65535,
           'float16': 2048}.get(dtype, 2 ** 31 - 1)
    nums = [v for v in [1, 2, 3, 5, 7, 100, 127, 255, 500, 632, 1064, 10000,
                        65535, 10 ** 6, 2 ** 31 - 1] if v <= top]
    if dtype in ('float32', 'float16'):
        nums = [0.1, 1.5, 3.3, 632.8] + nums
    for seq in (nums, nums[::-1], nums[:1], [0] + nums, nums + [0]):
        if dtype == 'list':
            given = [v for v in seq]
        elif dtype == 'tuple':
            given = tuple(seq)
        else:
            given = np.array(seq, dtype=dtype)
        exact = np.array([float(v) for v in np.asarray(given).tolist()])
        verify(c, src, dst, given, exact)
        c.state(src, dst, dtype, len(seq))


def inplace(c):
    """in-place conversion gives the same values, in every second unit"""
    src = c.choose('from', ref.TU)
    mid = c.choose('via', ref.TU)
    dst = c.choose('to', ref.TU)
    for metres in ([5e-7], [1e-10, 3.3e-3, 2e-7], [0.0, 1e-6, ref.INF],
                   list(ref.spread(1e-9, 1e-3, 101))):
        values = np.array([ref.from_m(src, m) for m in metres])
        spec = verify(c, src, mid, values, values)
        ret = spec.convert_to(mid[0], mid[1], in_place=True)
        c.check(ret is None or ret is spec, "in place conversion returned {}", ret)
        c.check(ref.conv_ok(mid, spec.values, ref.convert(src, mid, values)),
                "in place {} -> {}: {}", src, mid, spec.values)
        got = spec.convert_to(dst[0], dst[1])
        c.op(2)
        exp = ref.convert(src, dst, values)
        err = ref.pos_error(mid, metres)
        c.check(np.all([within(dst, g, e, m, d) for g, e, m, d in
                        zip(got, exp, metres, err)]),
                "{} -> {} -> {}: got {}, expected {}", src, mid, dst, got, exp)
        c.state(src, mid, dst, len(metres))


def within(dst, got, exp, metres, err):
    """agreement allowing for the rounding of an intermediate unit"""
    if got == exp:
        return True
    if not np.isfinite(exp):
        return metres <= err if metres == 0 else False
    rel = 1e-11 + (err / metres if metres else 0.0)
    return abs(got - exp) <= rel * abs(exp) + 0.51 * ref.ROUNDING[dst[1]]


SCENARIOS = {'scalar': scalar, 'arrays': arrays, 'mixed': mixed,
             'integers': integers, 'inplace': inplace}

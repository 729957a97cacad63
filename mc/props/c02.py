"""C02: histories of conversions"""
import numpy as np
from dispersion import Spectrum
from mc import ref

BOUNDS = {'quick': "all sequences of 3 operations out of 27 from every start unit; "
                   "all in-place walks of length 4",
          'thorough': "sequences of 4 operations, in-place walks of length 5"}
ASSUMPTIONS = ["rounding documented for eV and wavelength units may accumulate"]
PROBE = [('wavelength', 'm'), ('energy', 'ev'), ('frequency', 'hz'),
         ('wavelength', 'nm')]
STARTS = {'scalar': 5.5e-7, 'pair': [4.2e-7, 1.3e-6],
          'unsorted': [2e-6, 1e-7, 3e-6, 1e-7], 'limits': [0.0, 5e-7, ref.INF]}


class Model:
    """what the spectrum stands for: wavelengths, accumulated rounding, unit"""

    def __init__(self, metres, tu):
        self.metres = metres
        self.err = 1e-11 * np.abs(np.atleast_1d(np.asarray(metres, dtype=float)))
        self.err[~np.isfinite(self.err)] = 0.0
        self.tu = tu

    def passed(self, tu):
        met = np.atleast_1d(np.asarray(self.metres, dtype=float))
        add = ref.pos_error(tu, np.where(np.isfinite(met), met, 0.0))
        self.err = self.err + add

    def agrees(self, tu, got):
        met = np.atleast_1d(np.asarray(self.metres, dtype=float))
        got_arr = np.atleast_1d(np.asarray(got, dtype=float))
        if np.ndim(got) != np.ndim(self.metres) or got_arr.shape != met.shape:
            return False
        exp = np.atleast_1d(ref.from_m(tu, met))
        for g, e, m, err in zip(got_arr, exp, met, self.err):
            if g == e:
                continue
            if not (np.isfinite(g) and np.isfinite(e)):
                return False
            rel = err / m if m else 0.0
            if abs(g - e) > (1e-11 + rel) * abs(e) + 0.51 * ref.ROUNDING[tu[1]]:
                return False
        return True


def start(c, tu, kind):
    metres = STARTS[kind]
    if np.ndim(metres):
        metres = np.array(metres)
        given = np.array([ref.from_m(tu, m) for m in metres])
    else:
        given = ref.from_m(tu, metres)
    spec = Spectrum(given, spectrum_type=tu[0], unit=tu[1])
    c.op()
    return spec, Model(metres, tu), given


def verify(c, spec, model):
    c.check((spec.spectrum_type, spec.unit) == tuple(model.tu),
            "type/unit is {} {} instead of {}", spec.spectrum_type, spec.unit,
            model.tu)
    c.check(model.agrees(model.tu, spec.values),
            "values {} {} do not stand for {} m", spec.values, model.tu,
            model.metres)
    c.check(ref.label_ok(spec.get_type_unit_string(), model.tu), "label {}",
            spec.get_type_unit_string())
    for tu in PROBE:
        got = spec.convert_to(*tu)
        c.op()
        c.check(model.agrees(tu, got), "{} {}: got {} for {} m", *tu, got,
                model.metres)


BAD = [('wavelength', 'hz'), ('colour', 'nm'), ('energy', 'joule'),
       ('frequency', '')]
OPS = ([('in', tu) for tu in ref.TU] + [('out', tu) for tu in ref.TU] +
       [('bad', tu, False) for tu in BAD] + [('bad', tu, True) for tu in BAD] +
       [('contains',)])


def apply(c, spec, model, given, op):
    c.op()
    if op[0] == 'in':
        spec.convert_to(op[1][0], op[1][1], in_place=True)
        model.passed(op[1])
        model.tu = op[1]
    elif op[0] == 'out':
        before = np.array(spec.values)
        got = spec.convert_to(op[1][0], op[1][1])
        c.check(model.agrees(op[1], got), "out of place {}: {} for {} m",
                op[1], got, model.metres)
        c.check(np.array_equal(before, spec.values),
                "values changed by an out of place conversion")
        if np.ndim(got):
            got[...] = 123.456       # the returned array belongs to the caller
    elif op[0] == 'bad':
        try:
            spec.convert_to(op[1][0], op[1][1], in_place=op[2])
        except (ValueError, NotImplementedError, KeyError):
            return
        c.fail("conversion to {} accepted".format(op[1]))
    elif op[0] == 'contains':
        inner = Spectrum(5.2e-7)
        met = np.atleast_1d(np.asarray(model.metres))
        expect = met.min() <= 5.2e-7 <= met.max()
        try:
            res = spec.contains(inner)
        except ValueError:
            res = False
        c.check(bool(res) == expect, "contains gave {}", res)
        c.check(inner.values == 5.2e-7 and inner.unit == 'm',
                "contains changed its argument")


def history(c):
    """all operation sequences"""
    kind = c.choose('values', list(STARTS))
    units = ref.TU
    if kind != 'unsorted' and not c.thorough:
        units = [('wavelength', 'm'), ('wavelength', 'nm'), ('energy', 'ev'),
                 ('wavenumber', '1/cm')]
    tu = c.choose('unit', units)
    depth = 4 if c.thorough and kind == 'unsorted' else 3
    ops = []
    for i in range(depth):
        pool = OPS
        if i and ops[-1][0] in ('bad', 'contains'):
            # repeating harmless operations in another order adds nothing
            pool = [o for o in OPS if o[0] not in ('bad',)]
        ops.append(c.choose('op{}'.format(i), pool))
    spec, model, given = start(c, tu, kind)
    given_copy = np.array(given)
    for op in ops:
        apply(c, spec, model, given, op)
        c.check((spec.spectrum_type, spec.unit) == tuple(model.tu),
                "type/unit is {} {} instead of {}", spec.spectrum_type,
                spec.unit, model.tu)
        c.check(model.agrees(model.tu, spec.values),
                "after {}: values {} {} do not stand for {} m", op, spec.values,
                model.tu, model.metres)
    c.check(np.array_equal(given_copy, given), "the caller's array was modified")
    verify(c, spec, model)
    if np.ndim(given):
        given[...] = -1.0            # changing it must not reach the spectrum
        verify(c, spec, model)
    c.state(kind, model.tu, tuple(ops))


def walk(c):
    """in-place walks only, deeper"""
    kind = c.choose('values', ['scalar', 'unsorted', 'limits'])
    tu = c.choose('unit', ref.TU)
    path = [c.choose('to{}'.format(i), ref.TU) for i in
            range(5 if c.thorough else 4)]
    spec, model, given = start(c, tu, kind)
    for step in path:
        apply(c, spec, model, given, ('in', step))
    verify(c, spec, model)
    c.state(kind, tu, tuple(path))


def containers(c):
    """no container handed in is shared with the spectrum"""
    tu = c.choose('unit', ref.TU)
    cont = c.choose('container', ['array', 'list', 'strided', 'reversed view',
                                  'int array', 'float32 array', 'read-only'])
    dst = c.choose('to', [None] + ref.TU)
    when = c.choose('modify', ['before conversion', 'after conversion'])
    count = c.choose('length', [1, 2, 3, 10, 100, 1001])
    nums = np.array([float(v) for v in (np.arange(count) * 7) % 50 + 3])
    if cont == 'int array':
        given = nums.astype(int)
    elif cont == 'float32 array':
        given = nums.astype(np.float32)
    else:
        given = ref.containers(nums)[cont]
    spec = Spectrum(given, spectrum_type=tu[0], unit=tu[1])
    c.op()
    model = Model(ref.to_m(tu, nums), tu)

    def modify():
        if cont == 'read-only':
            given.flags.writeable = True
        for i in range(count):
            given[i] = 1
    if when == 'before conversion':
        modify()
    if dst is not None:
        spec.convert_to(dst[0], dst[1], in_place=True)
        model.passed(dst)
        model.tu = dst
    if when == 'after conversion':
        c.check(np.array_equal(np.asarray(given, dtype=float), nums),
                "the caller's values were modified")
        modify()
    verify(c, spec, model)
    c.state(tu, cont, dst, when, count)


def fresh(c):
    """a converted spectrum behaves as one built in that unit"""
    tu = c.choose('unit', ref.TU)
    via = c.choose('via', ref.TU)
    rng = c.choose('range', ref.TU)
    kind = c.choose('values', [[5e-7], [4.5e-7, 7.7e-7], [1e-6, 1.1e-6],
                               [3e-7, 5e-7]])
    spec = Spectrum(ref.from_m(tu, np.array(kind)), tu[0], tu[1])
    spec.convert_to(via[0], via[1], in_place=True)
    outer = Spectrum(ref.from_m(rng, np.array([4e-7, 8e-7])), rng[0], rng[1])
    c.op(3)
    expect = all(4e-7 <= v <= 8e-7 for v in kind)
    for obj in (outer, None):
        if obj is None:
            obj = Spectrum(np.array([4e-7, 8e-7]))
            obj.convert_to(rng[0], rng[1], in_place=True)
        try:
            got = bool(obj.contains(spec))
        except ValueError:
            got = False
        c.check(got == expect, "contains({}) after conversions: {}", kind, got)
    c.state(tu, via, rng, tuple(kind))


SCENARIOS = {'history': history, 'walk': walk, 'containers': containers,
             'fresh': fresh}
SHARDS = 200

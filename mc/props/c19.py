"""C19: no side effects, no influence between objects"""
import copy
import itertools
import locale
import logging
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import warnings
import numpy as np
import matplotlib
import matplotlib.pyplot
from dispersion import (Spectrum, Constant, Interpolation, Extrapolation, Material,
                        Writer)
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
from dispersion.config import (default_config, get_config, read_config,
                               write_config)
from mc import catalog, ref, subjects
matplotlib.use('Agg')

BOUNDS = {'quick': "57 kinds of objects: all ordered pairs x both construction "
                   "orders x all sequences of 3 operations (2 with mutators); each "
                   "result compared with the same operation of the object alone in a "
                   "fresh process; 12 groups of objects built from shared inputs x "
                   "all sequences of 3 operations; results overwritten by the "
                   "caller; 62 kinds of inputs changed after use; 19 operations x 3 "
                   "settings of the process (warnings, numpy, plots, masks, logging)",
          'thorough': "sequences of 4 operations; shared inputs with 4"}
ASSUMPTIONS = ["the alone result is computed in a process forked before the code "
               "under test was ever used"]
NO_WRITE = ('extrapolated',)


# ------------------------------------------------------------ kinds of objects
def spectrum(values, tu):
    def make():
        val = values if np.isscalar(values) else np.array(values)
        met = ref.to_m(tu, val)
        return Spectrum(val, tu[0], tu[1]), float(np.min(met)), float(np.max(met))
    return make


SPECTRA = {'scalar nm': spectrum(550.0, ('wavelength', 'nm')),
           'nm': spectrum([450.0, 520.0, 700.0], ('wavelength', 'nm')),
           'eV': spectrum([1.7, 2.0, 2.5], ('energy', 'ev')),
           '1/cm': spectrum([12000.0, 15000.0], ('wavenumber', '1/cm'))}
KINDS = {('spectrum', k): v for k, v in SPECTRA.items()}
KINDS.update({('data', k): v for k, v in subjects.DATA.items()
              if k != 'long table'})
KINDS.update({('material', k): v for k, v in subjects.MATERIALS.items()
              if k != 'table nk long'})
LAM = np.array([5.01e-7, 5.5e-7, 6.2e-7, 6.9e-7])


def points(low, high):
    if low == high:
        return np.full(4, low)
    return LAM


# ------------------------------------------------------------ operations
def op_convert(obj, low, high):
    return [np.array(obj.convert_to(*tu)) for tu in ref.TU]


def op_contains(obj, low, high):
    return [bool(obj.contains(Spectrum(v))) for v in (low, high, LAM)]


def op_label(obj, low, high):
    return [str(obj.get_type_unit_string()), np.array(obj.values)]


def op_evaluate(obj, low, high):
    return [np.array(obj.evaluate(Spectrum(points(low, high)))),
            np.array(obj.evaluate(Spectrum(
                ref.from_m(('energy', 'ev'), points(low, high))[::-1].copy(),
                'energy', 'eV')))]


def op_suggest(obj, low, high):
    return [np.array(obj.suggest_spectrum().convert_to('wavelength', 'm'))]


def op_range(obj, low, high):
    out = []
    for val in (low, high, low * .99, high * 1.01, LAM):
        try:
            out.append(np.array(obj.evaluate(Spectrum(val))))
        except ValueError:
            out.append('out of range')
    return out


def op_nk(obj, low, high):
    met = points(low, high)
    return [obj.get_nk_data(met),
            obj.get_nk_data(ref.from_m(('energy', 'ev'), met), 'energy', 'eV'),
            obj.get_nk_data(float(met[0]))]


def op_eps(obj, low, high):
    return [obj.get_permittivity(Spectrum(points(low, high))),
            np.array(obj.get_maximum_valid_range())]


def op_file(obj, low, high):
    """what a user finds in the file"""
    out = []
    for ext in ('.yml', '.txt'):
        path = subjects.path('c19' + ext)
        if os.path.exists(path):
            os.remove(path)
        try:
            Writer(path, obj).write_file()
        except Exception as exc:
            out.append(type(exc).__name__)
            continue
        with open(path, encoding='utf-8') as fpt:
            out.append(fpt.read())
    return out


def op_sample(obj, low, high):
    return [np.array(obj.get_sample_spectrum().convert_to('wavelength', 'm')),
            {k: str(v) for k, v in obj.meta_data.items()},
            str(obj.defaults['spectrum_type']), str(obj.defaults['unit'])]


def op_plot(obj, low, high):
    import matplotlib.pyplot as plt
    fig = plt.figure()
    try:
        obj.plot_nk_data(values=points(low, high) * 1e9, unit='nm',
                         spectrum_type='wavelength')
        return [np.array(line.get_ydata(), dtype=float) for line in
                fig.axes[0].get_lines()]
    finally:
        plt.close(fig)


OPS = {'spectrum': {'convert': op_convert, 'contains': op_contains,
                    'label': op_label},
       'data': {'evaluate': op_evaluate, 'suggest': op_suggest, 'range': op_range},
       'material': {'nk': op_nk, 'eps': op_eps, 'file': op_file,
                    'sample': op_sample}}


def mutate(kind, obj):
    """changes the object itself"""
    if kind == 'spectrum':
        obj.convert_to('energy', 'eV', in_place=True)
    elif kind == 'material':
        obj.meta_data['Name'] = 'changed'
        obj.meta_data['Reference'] = 'changed'
        obj.data['imag'] = Constant(9.0)
        obj.data['extra'] = 5
        obj.defaults['unit'] = 'parsec'
        obj.defaults['spectrum_type'] = 'changed'
        obj.meta_data['Comment'] = 'changed'
        obj.meta_data['Specification']['changed'] = True
        obj.meta_data['changed'] = True
        obj.options['interp_order'] = 5
    else:
        obj.spectrum_type = 'energy'
        obj.unit = 'ev'
        if isinstance(getattr(obj, 'data', None), np.ndarray):
            obj.data[...] = 7.0
        if isinstance(getattr(obj, 'model_parameters', None), np.ndarray):
            obj.model_parameters[...] = 7.0


def guarded(func, *args, **kws):
    try:
        return func(*args, **kws)
    except Exception as exc:
        return [type(exc).__name__ + ': ' + str(exc)[:60]]


def equal(got, want):
    if type(got) != type(want):
        return False
    if isinstance(got, (list, tuple)):
        return len(got) == len(want) and all(map(equal, got, want))
    if isinstance(got, (bool, np.bool_)):
        return bool(got) == bool(want)
    if isinstance(got, np.ndarray) or np.isscalar(got) and not isinstance(got, str):
        return ref.close(got, want, 1e-12, 0.0)
    return got == want


def alone(task):
    """result of task() in a process of its own"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            work = tempfile.mkdtemp(dir=os.environ['MC_SCRATCH'])
            os.environ['MC_WORK'] = work
            try:
                data = pickle.dumps(guarded(task))
            finally:
                shutil.rmtree(work, ignore_errors=True)
            with os.fdopen(wfd, 'wb') as fpt:
                fpt.write(data)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as fpt:
        data = fpt.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def baseline():
    out = {}
    for (kind, name), make in KINDS.items():
        for op, func in OPS[kind].items():
            out[kind, name, op] = alone(lambda: func(*make()))
    return out


BASE = baseline()


class Obj:
    def __init__(self, key):
        self.kind, self.name = key
        self.built = KINDS[key]()

    def run(self, c, op, tag):
        got = guarded(OPS[self.kind][op], *self.built)
        c.op()
        want = BASE[self.kind, self.name, op]
        c.check(equal(got, want), "{}: {} of {} {} gives {} instead of {}", tag, op,
                self.kind, self.name, got, want)
        return got


def mask():
    now = os.umask(0o077)
    os.umask(now)
    return now


def world(plots=False):
    """state of the process that belongs to the user"""
    return {'floating point errors': np.geterr(),
            'print options': {k: str(v) for k, v in np.get_printoptions().items()},
            'folder': os.getcwd(), 'environment': dict(os.environ),
            'warnings': list(warnings.filters), 'random': random.getstate()[1][:3],
            'numpy random': np.random.get_state()[1][:3].tolist(),
            'signals': signal.getsignal(signal.SIGINT),
            'plot settings': {k: str(v) for k, v in matplotlib.rcParams.items()
                              if k != 'backend'} if plots else None,
            'mask of new files': mask(), 'locale': locale.setlocale(locale.LC_ALL),
            'recursion limit': sys.getrecursionlimit(), 'search path': list(sys.path),
            'logging': (logging.root.level, list(logging.root.handlers),
                        logging.root.manager.disable),
            'streams': (sys.stdout, sys.stderr, sys.stdin)}


def same_world(c, before, tag):
    after = world(before['plot settings'] is not None)
    for key, val in before.items():
        c.check(after[key] == val, "{}: {} of the process changed from {} to {}",
                tag, key, val, after[key])


def interleavings(c):
    """two objects, all sequences of operations"""
    first = c.choose('first', list(KINDS))
    second = c.choose('second', list(KINDS))
    size = 4 if c.thorough else 3
    alphabet = [(0, op) for op in OPS[first[0]]] + [(1, op) for op in OPS[second[0]]]
    if not c.thorough:
        # neighbours in the list of kinds get all sequences, others those that
        # alternate between the objects
        keys = list(KINDS)
        near = abs(keys.index(first) - keys.index(second)) <= 1
    else:
        near = True
    for seq in itertools.product(alphabet, repeat=size):
        if not near and not (seq[0][0] == 0 and seq[1][0] == 1 and seq[2][0] == 0
                             and seq[2][1] == seq[0][1]):
            continue
        if not near and seq[0][1] in ('sample', 'file', 'suggest') and \
                seq[1][1] != 'file':
            continue
        if near and not c.thorough and len({s[0] for s in seq}) < 2:
            continue
        before = world()
        pair = (Obj(first), Obj(second))
        for which, op in seq:
            pair[which].run(c, op, seq)
        same_world(c, before, seq)
        c.state(first, second, seq)
    c.outcome(first[0], second[0])


def mutators(c):
    """changing one object leaves the others as they were"""
    first = c.choose('first', list(KINDS))
    second = c.choose('second', [k for k in KINDS if k[0] == first[0]])
    order = c.choose('changed', ['before the other is built', 'after',
                                 'after the other was used'])
    a = Obj(first)
    if order != 'before the other is built':
        b = Obj(second)
    if order == 'after the other was used':
        for op in OPS[second[0]]:
            b.run(c, op, order)
    mutate(first[0], a.built[0])
    if order == 'before the other is built':
        b = Obj(second)
    for op in OPS[second[0]]:
        b.run(c, op, order)
    fresh = Obj(second)
    for op in OPS[second[0]]:
        if op != 'file' or c.thorough:
            fresh.run(c, op, (order, 'new'))
    c.state(first, second, order)


def scribble(c):
    """results belong to the caller"""
    key = c.choose('kind', list(KINDS))
    ops = list(OPS[key[0]])
    first = c.choose('overwritten', ops)
    obj = Obj(key)
    if key[0] == 'material':
        low, high = obj.built[1:]
        results = [obj.built[0].get_nk_data(points(low, high)),
                   obj.built[0].get_permittivity(points(low, high))]
    elif key[0] == 'data':
        results = [obj.built[0].evaluate(Spectrum(points(*obj.built[1:])))]
    else:
        results = [obj.built[0].convert_to(*tu) for tu in ref.TU
                   if not np.isscalar(obj.built[0].values)]
    results += obj.run(c, first, 'before')
    for res in results:
        if isinstance(res, np.ndarray) and res.ndim:
            try:
                res[...] = -77.0
            except ValueError:
                pass
    for op in ops + ops:
        obj.run(c, op, 'after overwriting the result of ' + first)
    c.state(key, first)


def frozen(c):
    """evaluation works on read only input and leaves it as it was"""
    key = c.choose('kind', [k for k in KINDS if k[0] != 'spectrum'])
    lock = c.choose('read only', [True, False])
    tu = c.choose('unit', ref.TU)
    form = c.choose('given as', ['array', 'list', 'Spectrum'])
    obj = Obj(key)
    met = points(*obj.built[1:])
    if obj.built[1] == obj.built[2]:
        c.prune()
    values = ref.from_m(tu, met)
    keep = values.copy()
    values.flags.writeable = not lock
    given = values if form == 'array' else values.tolist()
    spec = Spectrum(given, tu[0], tu[1])
    for rep in range(2):
        if key[0] == 'data':
            got = [obj.built[0].evaluate(spec)]
        elif form == 'Spectrum':
            got = [obj.built[0].get_nk_data(spec), obj.built[0].get_permittivity(spec)]
        else:
            got = [obj.built[0].get_nk_data(given, *tu),
                   obj.built[0].get_permittivity(given, *tu)]
        c.op()
        want = (BASE['data', key[1], 'evaluate'][:1] if key[0] == 'data' else
                [BASE['material', key[1], 'nk'][0],
                 BASE['material', key[1], 'eps'][0]])
        for g, w in zip(got, want):
            c.check(ref.close(g, w, 1e-6, 1e-8), "{} in {}: {} instead of {}", key,
                    tu, g, w)
        c.check(np.array_equal(np.array(given), keep), "{}: input changed", key)
        c.check(ref.conv_ok(tu, spec.convert_to(*tu), keep), "{}: spectrum changed",
                key)
        c.check(spec.spectrum_type.lower() == tu[0], "{}: spectrum type {}", key,
                spec.spectrum_type)
    c.state(key, lock, tu, form)


# ------------------------------------------------------------ shared inputs
TAB = [[400., 1.5, .2], [500., 1.9, .4], [650., 1.7, .3], [800., 1.6, .1]]


class Group:
    """inputs and the objects built from them"""

    def __init__(self, c, name):
        self.c = c
        self.inputs = {}
        getattr(self, name)()
        self.keep = copy.deepcopy({k: self.freeze(v)
                                   for k, v in self.inputs.items()})

    @staticmethod
    def freeze(value):
        if isinstance(value, Spectrum):
            return ('spectrum', np.array(value.values), value.spectrum_type,
                    value.unit)
        if isinstance(value, Material):
            return ('material', value.get_nk_data(LAM), dict(value.meta_data))
        if isinstance(value, Interpolation):
            return ('interpolation', value.evaluate(Spectrum(LAM)))
        return value

    def unchanged(self, tag):
        for key, value in self.inputs.items():
            now = self.freeze(value)
            old = self.keep[key]
            same = (np.array_equal(now, old) if isinstance(now, np.ndarray) else
                    repr(now) == repr(old))
            self.c.check(same, "{}: input {} is now {} instead of {}", tag, key, now,
                         old)

    def tables(self):
        tab = self.inputs['table'] = np.array(TAB)
        self.objs = [lambda: Material(tabulated_nk=tab),
                     lambda: Material(tabulated_n_alpha=tab),
                     lambda: Material(tabulated_eps=tab, unit='um')]

    def descending(self):
        tab = self.inputs['table'] = np.array(TAB)[::-1]
        self.objs = [lambda: Material(tabulated_nk=tab),
                     lambda: Interpolation(tab[:, :2], unit='nm'),
                     lambda: Material(tabulated_eps=tab, spectrum_type='wavenumber',
                                      unit='1/cm')]

    def locked(self):
        tab = self.inputs['table'] = np.array(TAB)
        tab.flags.writeable = False
        self.objs = [lambda: Material(tabulated_n_alpha=tab),
                     lambda: Interpolation(tab[:, :2], unit='nm', interp_order=2),
                     lambda: Material(tabulated_n=tab[:, :2])]

    def model_dict(self):
        kws = self.inputs['model'] = {
            'name': 'Cauchy', 'spectrum_type': 'wavelength', 'unit': 'um',
            'valid_range': np.array([.4, .8]),
            'parameters': np.array(ref.TYPICAL['Cauchy'])}
        self.objs = [lambda: Material(model_kw=kws), lambda: Material(model_kw=kws),
                     lambda: Material(model_kw=dict(kws))]

    def one_spectrum(self):
        spec = self.inputs['spectrum'] = Spectrum([500., 600., 700.], unit='nm')
        first = self.inputs['host'] = Material(tabulated_nk=np.array(TAB))
        second = self.inputs['guest'] = Material(fixed_nk=2.0 + .3j)
        self.objs = [lambda: Simple(spec, first, second, .3),
                     lambda: MaxwellGarnett(spec, first, second, .3),
                     lambda: Bruggeman(spec, first, second, .3)]

    def spectrum_ev(self):
        spec = self.inputs['spectrum'] = Spectrum(np.array([1.8, 2.0, 2.4]),
                                                  'energy', 'eV')
        first = self.inputs['host'] = Material(tabulated_nk=np.array(TAB))
        self.objs = [lambda: Simple(spec, first, first, .3),
                     lambda: MaxwellGarnett(spec, first, first, .3),
                     lambda: Bruggeman(spec, first, first, .3)]

    def one_base(self):
        base = self.inputs['base'] = Interpolation(np.array(TAB)[:, :2], unit='nm')
        spec = self.inputs['spectrum'] = Spectrum([300., 900.], unit='nm')
        self.objs = [lambda: base, lambda: Extrapolation(base, spec),
                     lambda: Extrapolation(base, spec, spline_order=1)]

    def one_part(self):
        part = self.inputs['part'] = Interpolation(np.array(TAB)[:, :2], unit='nm')

        def imag():
            mat = Material(fixed_n=1.5)
            mat.data['imag'] = part
            return mat

        def real():
            mat = Material(tabulated_nk=np.array(TAB))
            mat.data['real'] = part
            return mat
        self.objs = [imag, real, lambda: part]

    def extension(self):
        spec = self.inputs['spectrum'] = Spectrum([350., 900.], unit='nm')
        tab = self.inputs['table'] = np.array(TAB)

        def extended(order):
            mat = Material(tabulated_nk=tab)
            mat.extrapolate(spec, spline_order=order)
            return mat
        self.objs = [lambda: extended(1), lambda: extended(2),
                     lambda: Material(tabulated_nk=tab)]

    def values(self):
        val = self.inputs['values'] = np.array([5e-7, 6e-7])
        self.objs = [lambda: Spectrum(val), lambda: Spectrum(val, 'energy', 'eV'),
                     lambda: Spectrum(val, 'wavelength', 'nm')]

    def ranges(self):
        rng = self.inputs['range'] = [400., 800.]
        par = self.inputs['parameters'] = np.array([1.5, .01, -2.])
        from dispersion import Cauchy
        self.objs = [lambda: Constant(1.5, rng, unit='nm'),
                     lambda: Constant(1.7, rng, unit='nm'),
                     lambda: Cauchy(par, [.4, .8], unit='um')]

    def one_file(self):
        path = subjects.path('shared.txt')
        with open(path, 'w') as fpt:
            fpt.write("".join("{} {} {}\n".format(*r) for r in TAB))
        self.objs = [lambda: Material(file_path=path),
                     lambda: Material(file_path=path, unit='um'),
                     lambda: Material(file_path=path, spectrum_type='wavenumber',
                                      unit='1/cm')]


GROUPS = ['tables', 'descending', 'locked', 'model_dict', 'one_spectrum',
          'spectrum_ev', 'one_base', 'one_part', 'extension', 'values', 'ranges',
          'one_file']


def look(obj):
    """everything a user sees of an object"""
    if isinstance(obj, Spectrum):
        return op_convert(obj, 0, 0) + op_label(obj, 0, 0)
    if isinstance(obj, Material):
        rng = np.array(obj.get_maximum_valid_range(), dtype=float)
        spec = Spectrum(np.array([rng[0] * .3 + rng[1] * .7, rng.mean()])
                        if np.isfinite(rng).all() else np.array([500., 600.]),
                        obj.defaults['spectrum_type'], obj.defaults['unit'])
        return [obj.get_nk_data(spec), obj.get_permittivity(spec), rng,
                {k: str(v) for k, v in obj.meta_data.items()}]
    out = []
    for lam in (3.1e-7, 4.5e-7, 7e-7):
        out.append(guarded(obj.evaluate, Spectrum(lam)))
    return out


def act(obj, what):
    if what == 'look':
        look(obj)
    elif what == 'file' and isinstance(obj, Material):
        op_file(obj, 0, 0)
    elif what == 'file':
        guarded(lambda: obj.dict_repr())
    elif what == 'plot' and isinstance(obj, Material):
        guarded(lambda: obj.get_sample_spectrum())
    elif what == 'plot':
        guarded(lambda: obj.suggest_spectrum())
    elif what == 'own' and isinstance(obj, Material):
        obj.remove_absorption()
        obj.meta_data['Name'] = 'x'
    elif what == 'own' and isinstance(obj, Spectrum):
        obj.convert_to('frequency', 'Hz', in_place=True)


SHARED = {}


def shared_base(name):
    """each object alone, in a process of its own"""
    if name not in SHARED:
        SHARED[name] = [alone(lambda i=i: look(Group(None, name).objs[i]()))
                        for i in range(3)]
    return SHARED[name]


for _name in GROUPS:
    shared_base(_name)


def shared(c):
    """objects built from the same inputs"""
    name = c.choose('group', GROUPS)
    want = shared_base(name)
    order = c.choose('built in order', list(itertools.permutations(range(3)))[::
                     1 if c.thorough else 5])
    group = Group(c, name)
    objs = {}
    touched = set()
    for i in order:
        objs[i] = group.objs[i]()
        group.unchanged(('built', i))
        c.op()
    for k in range(4 if c.thorough else 3):
        which, what = c.choose('op {}'.format(k), [
            (i, w) for i in range(3) for w in ('look', 'own', 'file')
            if c.thorough or w != 'file' or k < 2])
        if what == 'own' and any(objs[which] is v for v in group.inputs.values()):
            c.prune()
        act(objs[which], what)
        if what == 'own':
            touched.add(which)
        c.op()
        group.unchanged((name, which, what))
        for i in range(3):
            if i not in touched:
                got = guarded(look, objs[i])
                c.check(equal(got, want[i]), "{} {}: object {} gives {} instead of "
                        "{}", name, (which, what), i, got, want[i])
        c.state(name, order, sorted(touched), k)
    c.outcome(name, len(touched))


# ------------------------------------------------------------ reused inputs
ROWS = np.array([[400., 1.5, .1], [500., 1.7, .3], [640., 1.6, .2], [800., 1.4, .4]])


def reusable(name):
    """(inputs that can be changed, function that builds from them)"""
    kind, _, what = name.partition(' ')
    if kind == 'spectrum':
        return ({'values': ROWS[:, 0].tolist() if what == 'list' else ROWS[:, 0] * 1.0},
                lambda inp: Spectrum(inp['values'], 'wavelength', 'nm'))
    if kind == 'table':
        cols = 2 if what in ('tabulated_n', 'data') else 3
        table = ROWS[:, :cols] * 1.0
        if what == 'data':
            return {'table': table}, lambda inp: Interpolation(
                inp['table'], 'wavelength', 'nm')
        return {'table': table}, lambda inp: Material(
            **{what: inp['table'], 'unit': 'nm'})
    if kind == 'row':
        return {'table': ROWS[1:2] * 1.0}, lambda inp: Material(
            tabulated_nk=inp['table'], unit='nm')
    if kind == 'constant':
        rng = [400., 800.] if what == 'list' else np.array([400., 800.])
        return {'range': rng}, lambda inp: Constant(1.5, inp['range'], unit='nm')
    if kind in ('model', 'dict'):
        import dispersion.spectral_data as sd
        what, _, box = what.partition(' ')
        tu = ref.model_tu(what)
        box = list if box == 'list' else np.array
        ends = box(np.sort(ref.from_m(tu, np.array([400e-9, 800e-9]))).tolist())
        inp = {'parameters': box(ref.TYPICAL[what]), 'valid_range': ends}
        if kind == 'model':
            return inp, lambda inp: getattr(sd, what)(
                inp['parameters'], inp['valid_range'], tu[0], tu[1])
        return inp, lambda inp: Material(model_kw=inp['dict'])
    if kind == 'medium':
        one = Material(fixed_eps=2.25 + .1j)
        two = Material(tabulated_nk=ROWS * 1.0, unit='nm')
        spec = Spectrum(ROWS[:, 0] * 1.0, 'wavelength', 'nm')
        cls = {'Simple': Simple, 'MaxwellGarnett': MaxwellGarnett,
               'Bruggeman': Bruggeman}[what]
        return {'spectrum': spec, 'one': one, 'two': two}, \
            lambda inp: cls(inp['spectrum'], inp['one'], inp['two'], .3)
    spec = Spectrum(np.array([350., 900.]), 'wavelength', 'nm')
    table = ROWS[:, :2] * 1.0
    return {'spectrum': spec, 'table': table}, lambda inp: Extrapolation(
        Interpolation(inp['table'], 'wavelength', 'nm'), inp['spectrum'])


REUSE = (['spectrum list', 'spectrum array', 'row', 'constant list',
          'constant array', 'extrapolation', 'medium Simple', 'medium MaxwellGarnett',
          'medium Bruggeman'] +
         ['table ' + w for w in ('data', 'tabulated_n', 'tabulated_nk',
                                 'tabulated_eps', 'tabulated_n_alpha')] +
         [k + ' ' + m + b for k in ('model', 'dict') for m in ref.TYPICAL
          for b in (' list', ' array')])
SPOIL = ['scale all', 'scale first', 'last', 'zero', 'reverse', 'restore']


def spoil(inp, how):
    """the caller changes what was handed in"""
    for key, val in inp.items():
        if isinstance(val, Spectrum):
            val.convert_to('energy', 'eV', in_place=True)
            continue
        if isinstance(val, Material):
            val.remove_absorption()
            val.data['real'] = Constant(3.0)
            val.meta_data['Name'] = how
            continue
        if isinstance(val, dict):
            val['name'] = 'Bogus'
            val.pop('unit', None)
            continue
        arr = np.array(val, dtype=float)
        if how == 'scale all':
            arr = arr * 1.25
        elif how == 'scale first' and arr.ndim == 2:
            arr[:, 0] *= 1.25
        elif how == 'scale first':
            arr[0] *= 1.25
        elif how == 'last' and arr.ndim == 2:
            arr[:, -1] += .5
        elif how == 'last':
            arr[-1] = arr[-1] * 1.5
        elif how == 'zero':
            arr = arr * 0
        elif how == 'reverse':
            arr = arr[::-1]
        val[:] = arr.tolist() if isinstance(val, list) else arr


def everything(obj):
    """all that can be seen, the file included"""
    out = look(obj)
    if hasattr(obj, 'dict_repr'):
        out = out + [sorted((k, str(v)) for k, v in obj.dict_repr().items())]
    if hasattr(obj, 'dataset_to_dict'):
        out = out + [str(sorted(d.items())) for d in obj.dataset_to_dict()]
    if hasattr(obj, 'valid_range'):
        out = out + [np.array(obj.valid_range.convert_to('wavelength', 'nm'))]
    return out


def reused(c):
    """inputs changed after an object was built from them"""
    name = c.choose('object', REUSE)
    seen = c.choose('looked at', ['before', 'only afterwards'])
    hows = [c.choose('change {}'.format(i), SPOIL) for i in range(
        2 if c.thorough else 1)]

    def prepare():
        inp, make = reusable(name)
        if name.startswith('dict'):
            what = name.split()[1]
            tu = ref.model_tu(what)
            inp = {'dict': {'name': what, 'spectrum_type': tu[0], 'unit': tu[1],
                            'parameters': inp['parameters'],
                            'valid_range': inp['valid_range']}, **inp}
        return inp, make
    inp, make = prepare()
    want = guarded(everything, make(prepare()[0]))
    obj = make(inp)
    if seen == 'before':
        got = guarded(everything, obj)
        c.check(equal(got, want), "{}: {} instead of {}", name, got, want)
    for how in hows:
        spoil(inp, how)
        c.op()
        got = guarded(everything, obj)
        c.check(equal(got, want), "{} changed with its input ({}): {} instead of {}",
                name, how, got, want)
    c.state(name, hows)


def plotted(c):
    """plotting leaves everything as it was"""
    key = c.choose('kind', [k for k in KINDS if k[0] == 'material'])
    times = c.choose('plots', [1, 2])
    obj, twin = Obj(key), Obj(key)
    curves = []
    for _ in range(times):
        curves.append(guarded(op_plot, *obj.built))
        c.op()
    for res in curves[1:]:
        c.check(equal(res, curves[0]), "{}: plot {} instead of {}", key, res,
                curves[0])
    for op in OPS['material']:
        obj.run(c, op, 'after plotting')
        twin.run(c, op, 'after plotting another')
    c.state(key, times)


def catalogue_work(conf, task):
    from dispersion import Catalogue
    obj = Catalogue(config=conf, rebuild='None' if task == 'load' else 'All')
    if task == 'save':
        obj.save_to_file()
    elif task == 'material':
        obj.register_alias(0, 'mine')
        obj.get_material('mine')
    elif task == 'alias':
        obj.register_alias(0, 'mine')
    return obj


def settings(c):
    """operations leave the settings of the process as the user made them"""
    kind = c.choose('settings', ['unusual', 'other', 'given'])
    work = c.choose('operation', [
        'plot nk', 'plot permittivity', 'plot on axes', 'plot outside', 'evaluate',
        'outside', 'write', 'read', 'read broken', 'compare', 'mix', 'extend',
        'build', 'load', 'save', 'material', 'alias', 'configuration', 'log table'])
    name = c.choose('material', ['table nk', 'table eps', 'fixed nk', 'parts eV'])
    root = tempfile.mkdtemp(dir=os.environ['MC_WORK'])
    c.cleanup.append(lambda: shutil.rmtree(root, ignore_errors=True))
    home = os.environ.get('HOME')
    os.makedirs(os.path.join(root, '.config', 'dispersion'))
    os.environ['HOME'] = root
    c.cleanup.append(lambda: os.environ.__setitem__('HOME', home))
    keep = (np.geterr(), warnings.filters[:], os.umask(0o027), os.getcwd(),
            dict(matplotlib.rcParams), np.get_printoptions(), sys.getrecursionlimit(),
            logging.root.level, logging.root.manager.disable)

    def restore():
        np.seterr(**keep[0])
        warnings.filters[:] = keep[1]
        warnings._filters_mutated()
        os.umask(keep[2])
        os.chdir(keep[3])
        matplotlib.rcParams.update({k: v for k, v in keep[4].items()
                                    if k != 'backend'})
        np.set_printoptions(**keep[5])
        sys.setrecursionlimit(keep[6])
        logging.root.setLevel(keep[7])
        logging.disable(keep[8])
    c.cleanup.append(restore)
    plt = matplotlib.pyplot
    if kind == 'unusual':
        warnings.filterwarnings('once', 'my own filter')
        np.seterr(divide='print', over='ignore', under='warn', invalid='print')
        np.set_printoptions(precision=3, threshold=7)
        matplotlib.rcParams.update({'lines.linewidth': 1.7, 'font.size': 9.5,
                                    'legend.loc': 'lower left'})
        sys.setrecursionlimit(keep[6] + 77)
        logging.root.setLevel(logging.DEBUG)
    elif kind == 'other':
        warnings.filterwarnings('error', 'never issued')
        os.umask(0o002)
        os.chdir(root)
        matplotlib.rcParams.update({'axes.grid': True, 'axes.linewidth': 2.5})
        logging.disable(logging.INFO)
    mat, low, high = subjects.MATERIALS[name]()
    met = points(low, high)
    path = os.path.join(root, 'file.yml')
    with open(os.path.join(root, 'file.txt'), 'w') as fpt:
        fpt.write(''.join('{} {} {}\n'.format(*r) for r in TAB))
    conf = None
    if work in ('build', 'load', 'save', 'material', 'alias'):
        data = os.path.join(root, 'UserData')
        os.mkdir(data)
        shutil.copy(os.path.join(root, 'file.txt'), data)
        conf = catalog.config(root, {'UserData': True, 'RefractiveIndexInfo': False})
        alone(lambda: str(catalogue_work(conf, 'save')))
    with open(os.path.join(root, 'broken.txt'), 'w') as fpt:
        fpt.write('400 1 2\n500 x 3\n')
    fig = axes = None
    if work.startswith('plot') or work == 'log table':
        fig, axes = plt.subplots()
        c.cleanup.append(lambda: plt.close('all'))
    before = world(True)
    for _ in range(2):
        if work == 'plot on axes':
            mat.plot_nk_data(values=met, spectrum_type='wavelength', unit='m',
                             axes=axes)
        elif work == 'plot outside':
            guarded(mat.plot_nk_data, values=met * 1e3, unit='m',
                    spectrum_type='wavelength')
        elif work == 'plot nk':
            mat.plot_nk_data(values=met, spectrum_type='wavelength', unit='m')
        elif work == 'plot permittivity':
            mat.plot_permittivity(values=met, spectrum_type='wavelength',
                                  unit='m')
        elif work in ('evaluate', 'outside'):
            at = met * (1e3 if work == 'outside' else 1)
            guarded(mat.get_nk_data, at)
            guarded(mat.get_permittivity, Spectrum(at))
            guarded(mat.get_nk_data, [0.0, -1.0])
        elif work == 'write':
            Writer(path, mat).write_file()
        elif work == 'read':
            Material(file_path=os.path.join(root, 'file.txt'))
        elif work == 'read broken':
            guarded(Material, file_path=os.path.join(root, 'broken.txt'))
            guarded(Material, file_path=os.path.join(root, 'missing.txt'))
        elif work == 'compare':
            (mat == Material(fixed_n=1.0), mat != mat, str(mat))
        elif work == 'mix':
            for cls in (Simple, MaxwellGarnett, Bruggeman):
                cls(Spectrum(met), mat, Material(fixed_nk=2 + 1j), .4).get_nk_data(met)
        elif work == 'extend':
            guarded(lambda: subjects.MATERIALS[name]()[0].extrapolate(
                Spectrum(met * 2)))
        elif work == 'configuration':
            guarded(read_config)
            guarded(get_config)
            guarded(write_config, default_config(), root)
        elif work == 'log table':
            Material(tabulated_nk=np.array(TAB), unit='nm').plot_nk_data()
        else:
            catalogue_work(conf, work)
        c.op()
        same_world(c, before, (kind, work, name))
    c.state(kind, work, name)


def file_text(ext, version):
    """versions have the same length"""
    rows = [(400, 1.5 + version / 10, .1), (800, 1.6 + version / 10, .2 + version / 10)]
    if ext == '.yml':
        return ("NAME: mat{}\nDATA:\n  - type: tabulated nk\n    Unit: nm\n"
                "    SpectrumType: wavelength\n    data: |\n".format(version) +
                "".join("        {:.4f} {:.4f} {:.4f}\n".format(*r) for r in rows))
    mark, sep = {'.txt': ('#', ' '), '.csv': ('#', ','), '.nk': (';', ' ')}[ext]
    return "{0} NAME: mat{1}\n{0} UNIT: nm\n".format(mark, version) + "".join(
        sep.join("{:.4f}".format(v) for v in r) + "\n" for r in rows)


def files(c):
    """files of the same name, size and time, loaded in turn and replaced"""
    ext = c.choose('format', ['.txt', '.csv', '.nk', '.yml'])
    top = subjects.path('c19f')
    shutil.rmtree(top, ignore_errors=True)
    now, loaded = {}, []
    here = os.getcwd()

    def put(folder, version):
        path = os.path.join(top, folder, 'same' + ext)
        with open(path, 'w') as fpt:
            fpt.write(file_text(ext, version))
        os.utime(path, (1e9, 1e9))
        now[folder] = version
    for version, folder in enumerate(('one', 'two')):
        os.makedirs(os.path.join(top, folder))
        put(folder, version)
    try:
        for i in range(5 if c.thorough else 4):
            step = c.choose('step{}'.format(i), [
                (what, folder) for what in ('load', 'load here', 'replace', 'change')
                for folder in ('one', 'two')])
            what, folder = step
            if what == 'replace':
                put(folder, 3 + i)
            elif what == 'change':
                for mat, version, where in loaded:
                    if where == folder:
                        mat.meta_data['Name'] = 'mat{}'.format(version)
                        mat.meta_data['Specification']['own'] = version
                        mat.remove_absorption()
                loaded = [(m, v, w) for m, v, w in loaded if w != folder]
            else:
                path = os.path.join(top, folder, 'same' + ext)
                if what == 'load here':
                    os.chdir(os.path.dirname(path))
                    path = os.path.basename(path)
                loaded.append((Material(file_path=path), now[folder], folder))
                os.chdir(here)
            c.op()
            for mat, version, where in loaded:
                got = mat.get_nk_data(np.array([4e-7, 8e-7]))
                want = [1.5 + version / 10 + .1j,
                        1.6 + version / 10 + 1j * (.2 + version / 10)]
                c.check(ref.close(got, want, 1e-9) and
                        mat.meta_data['Name'] == 'mat{}'.format(version) and
                        mat.meta_data['Specification'] == {},
                        "{}: {} {} instead of version {}", step, got, mat.meta_data,
                        version)
        c.state(ext, [(v, w) for _, v, w in loaded])
    finally:
        os.chdir(here)


SCENARIOS = {'interleavings': interleavings, 'mutators': mutators,
             'scribble': scribble, 'frozen': frozen, 'shared': shared,
             'plotted': plotted, 'reused': reused, 'files': files,
             'settings': settings}

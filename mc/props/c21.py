"""C21: plots"""
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from mc import ref, subjects

BOUNDS = {'quick': "40 materials x 2 quantities x 10 types and units x 15 forms of "
                   "values x 4 kinds of axes (thinned: every pair of these); all "
                   "sequences of 3 plots of 4 materials in 2 units on shared axes",
          'thorough': "the full product; sequences of 4 plots"}
ASSUMPTIONS = ["matplotlib with the Agg backend; what is drawn is read from the "
               "artists of the axes"]
LABELS = {'nk': ('n', 'k'), 'permittivity': ('eps_r', 'eps_i')}
CALL = {'nk': 'plot_nk_data', 'permittivity': 'plot_permittivity'}
VALUES = ['default', 'scalar', 'list of 1', 'array of 1', 'list', 'tuple', 'array',
          'descending', 'two', 'many', 'unordered', 'read only',
          'unordered list', 'descending list', 'unordered tuple']
AXES = ['none', 'new', 'other current', 'used']


def evaluate(mat, what, values, tu):
    func = mat.get_nk_data if what == 'nk' else mat.get_permittivity
    return np.asarray(func(values, *tu))


def given(form, low, high, tu):
    """values for plotting, in the unit"""
    if form in ('scalar', 'list of 1', 'array of 1'):
        met = subjects.inside(low, high, 3)[1:2]
    elif form == 'two':
        met = subjects.inside(low, high, 4)[1:3]
    elif form == 'many':
        met = subjects.inside(low, high, 302)[1:-1]
    else:
        met = subjects.inside(low, high, 7)[1:-1]
    val = np.sort(ref.from_m(tu, met))
    if form == 'descending':
        val = val[::-1].copy()
    elif form == 'descending list':
        return val[::-1].tolist()
    elif form in ('unordered list', 'unordered tuple'):
        val = val[[2, 0, 4, 1, 3]].tolist()
        return val if 'list' in form else tuple(val)
    elif form == 'unordered':
        val = val[[2, 0, 4, 1, 3]]
    elif form == 'read only':
        val.flags.writeable = False
    if form == 'scalar':
        return float(val[0])
    if form in ('list of 1', 'list'):
        return val.tolist()
    if form == 'tuple':
        return tuple(val.tolist())
    return val


def curves(lines):
    return [(line.get_label(), np.array(line.get_xdata(), dtype=float),
             np.array(line.get_ydata(), dtype=float)) for line in lines]


def check_plot(c, lines, what, xs, want, single, tag):
    """the lines are the two curves"""
    c.check(len(lines) == 2, "{}: {} curves", tag, len(lines))
    names = [line.get_label() for line in lines]
    c.check(sorted(names) == sorted(LABELS[what]), "{}: labels {}", tag, names)
    for label, x, y in curves(lines):
        exp = want.real if label == LABELS[what][0] else want.imag
        exp = np.ravel(exp)
        y = np.ravel(y)
        if single:
            c.check(len(y) == 2 and ref.close(y, [exp[0]] * 2, 1e-7, 1e-9),
                    "{}: {} at {} instead of {}", tag, label, y, exp)
            c.check(list(np.ravel(x)) == [0, 1], "{}: line from {}", tag, x)
            continue
        c.check(x.shape == np.shape(xs) and ref.close(x, xs, 1e-9, 0.0),
                "{}: abscissae of {} are {} instead of {}", tag, label, x, xs)
        c.check(y.shape == exp.shape and ref.close(y, exp, 1e-7, 1e-9),
                "{}: {} is {} instead of {}", tag, label, y, exp)
    style = {line.get_label(): line.get_linestyle() for line in lines}
    c.check(style[LABELS[what][0]] != style[LABELS[what][1]], "{}: styles", tag)


def labels(c, axes, what, tu, tag):
    c.check(ref.label_ok(axes.get_xlabel(), tu), "{}: label {!r}", tag,
            axes.get_xlabel())
    text = axes.get_ylabel()
    c.check(all(name in text for name in LABELS[what]), "{}: label {!r}", tag, text)


def place(c, kind):
    """returns (kwargs, axes to be used or None, lines there)"""
    plt.close('all')
    c.cleanup.append(lambda: plt.close('all'))
    if kind == 'none':
        return {}, None
    fig, (first, second) = plt.subplots(1, 2)
    if kind == 'new':
        plt.sca(first)
        return {'axes': first}, first
    if kind == 'other current':
        plt.sca(second)
        return {'axes': first}, first
    plt.figure()                # another figure is the current one
    second.plot([1, 2], [3, 4], label='mine')
    second.set_xlabel('my x')
    second.set_ylabel('my y')
    return {'axes': second}, second


def plot(c):
    """one plot"""
    name = c.choose('material', list(subjects.MATERIALS))
    what = c.choose('quantity', list(LABELS))
    tus = [None] + ref.TU
    at = c.choose('type and unit', list(range(len(tus))))
    tu = tus[at]
    order = list(subjects.MATERIALS).index(name)
    for i, form in enumerate(VALUES):
        for j, kind in enumerate(AXES):
            if not c.thorough and (i + at + order + (what == 'nk')) % 4 != j:
                continue
            one(c, name, what, tu, form, kind)


def one(c, name, what, tu, form, kind):
    mat, low, high = subjects.MATERIALS[name]()
    twin = subjects.MATERIALS[name]()[0]
    tag = (name, what, tu, form, kind)
    if low == high and form not in ('default', 'scalar', 'list of 1', 'array of 1'):
        return
    own = (mat.defaults['spectrum_type'].lower(),
           ref.CANON.get(mat.defaults['unit'].lower(), mat.defaults['unit']))
    used = tu or own
    kws, axes = place(c, kind)
    if tu:
        kws.update(spectrum_type=tu[0], unit=tu[1])
    if form != 'default':
        values = kws['values'] = given(form, low, high, used)
        keep = np.array(values)
    else:
        values = keep = np.asarray(twin.get_sample_spectrum().convert_to(*used))
    before = [] if axes is None else list(axes.get_lines())
    figures, number = plt.get_fignums(), sum(len(plt.figure(n).axes)
                                             for n in plt.get_fignums())
    if kind == 'other current' and axes is not None:
        plt.sca(axes.figure.axes[1])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        getattr(mat, CALL[what])(**kws)
    c.op()
    if axes is None:
        axes = plt.gca()
    else:
        c.check(plt.get_fignums() == figures and number == sum(
            len(plt.figure(n).axes) for n in figures), "{}: new axes", tag)
    lines = [line for line in axes.get_lines() if line not in before]
    c.check(len(axes.get_lines()) == len(before) + len(lines), "{}: lines lost", tag)
    for fig in map(plt.figure, plt.get_fignums()):
        for other in fig.axes:
            if other is not axes:
                c.check(not other.get_lines(), "{}: drawn elsewhere", tag)
    want = evaluate(twin, what, keep if np.ndim(keep) else float(keep), used)
    check_plot(c, lines, what, keep, want, np.size(keep) == 1, tag)
    labels(c, axes, what, used, tag)
    if form != 'default':
        c.check(np.array_equal(np.array(values), keep), "{}: values changed", tag)
    # the material is the same as before
    lam = subjects.inside(low, high, 5)
    c.check(ref.close(mat.get_nk_data(lam), twin.get_nk_data(lam), 1e-12, 0) and
            mat.defaults == twin.defaults and mat.meta_data == twin.meta_data,
            "{}: material changed", tag)
    c.state(tag)
    c.outcome(what, form == 'default', np.size(keep) == 1)


CAST = ['table nk', 'table eps', 'parts eV', 'fixed nk']


def sequences(c):
    """several plots on the same axes"""
    steps = 4 if c.thorough else 3
    _, axes = place(c, 'new')
    seen = []
    expected = []
    for i in range(steps):
        name, what, form = c.choose('plot {}'.format(i), [
            (n, w, f) for n in CAST for w in LABELS for f in ('list', 'scalar')
            if c.thorough or (w == 'nk') != (f == 'scalar') or n == 'table nk'])
        mat, low, high = subjects.MATERIALS[name]()
        tu = c.choose('unit {}'.format(i), [('wavelength', 'nm'), ('energy', 'ev')]
                      if i else [('wavelength', 'nm')])
        values = given(form, low, high, tu)
        getattr(mat, CALL[what])(values=values, spectrum_type=tu[0], unit=tu[1],
                                 axes=axes)
        c.op()
        new = [line for line in axes.get_lines() if line not in seen]
        check_plot(c, new, what, np.array(values), evaluate(mat, what, values, tu),
                   form == 'scalar', (name, what, form))
        labels(c, axes, what, tu, (name, what))
        c.check(all(line in axes.get_lines() for line in seen), "curve removed")
        for line, old in zip(seen, expected):
            c.check(np.array_equal(line.get_ydata(), old), "curve changed")
        seen = list(axes.get_lines())
        expected = [np.array(line.get_ydata()) for line in seen]
        c.state(i, name, what, form)


def refused(c):
    """points outside the range are not drawn"""
    name = c.choose('material', [n for n in subjects.MATERIALS
                                 if not n.startswith('fixed')])
    what = c.choose('quantity', list(LABELS))
    tu = c.choose('type and unit', ref.TU)
    mat, low, high = subjects.MATERIALS[name]()
    _, axes = place(c, 'new')
    for met in ([low * .9, low], [high, high * 1.1], [low * .5]):
        values = ref.from_m(tu, np.array(met))
        try:
            getattr(mat, CALL[what])(values=values, spectrum_type=tu[0], unit=tu[1],
                                     axes=axes)
        except ValueError:
            c.check(not axes.get_lines(), "{}: drawn", (name, met))
            continue
        c.fail("{}: drawn at {} {}".format(name, values, tu))
    c.op(3)
    c.state(name, what, tu)


SCENARIOS = {'plot': plot, 'sequences': sequences, 'refused': refused}

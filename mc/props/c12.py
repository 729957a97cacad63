"""C12: effective media"""
import numpy as np
from dispersion import Spectrum, Constant, Material
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
from mc import ref, subjects

BOUNDS = {'quick': "3 rules x 11 fractions x 30x30 permittivities, 24x42 with metals; 12 pairs of "
                   "materials x 9 units x spectra of length 1..40 in 3 orders",
          'thorough': "21 fractions x 48x48 permittivities"}
ASSUMPTIONS = ["permittivities with non-negative imaginary part; lossless ones with "
               "negative real part in singular Maxwell-Garnett mixtures only"]
RULES = {'Simple': Simple, 'MaxwellGarnett': MaxwellGarnett,
         'Bruggeman': Bruggeman}
FRAC = [0.0, 1e-9, 0.01, 0.2, 1 / 3., 0.5, 2 / 3., 0.77, 0.99, 1 - 1e-9, 1.0]
RE = [1e-3, 0.5, 1.0, 2.25, 12.1, 300.]
IM = [0.0, 1e-7, 0.05, 1.3, 40.0]


def verify(c, rule, e1, e2, frac, got, tag):
    e1, e2, got = (np.atleast_1d(np.asarray(x, dtype=complex))
                   for x in (e1, e2, got))
    c.check(got.shape == np.broadcast(e1, e2).shape, "{}: shape {}", tag, got.shape)
    scale = np.abs(e1) + np.abs(e2)
    if rule == 'Simple':
        want = (1 - frac) * e1 + frac * e2
    elif rule == 'MaxwellGarnett':
        # (e - e1)/(e + 2 e1) = f (e2 - e1)/(e2 + 2 e1)
        x = frac * (e2 - e1) / (e2 + 2 * e1)
        want = e1 * (1 + 2 * x) / (1 - x)
    else:
        res = (frac * (e2 - got) * (e1 + 2 * got) +
               (1 - frac) * (e1 - got) * (e2 + 2 * got))
        c.check(np.all(np.abs(res) <= 1e-9 * scale ** 2),
                "{}: {} does not solve the mixing rule", tag, got)
        c.check(np.all(got.real > 0) and np.all(got.imag >= -1e-9 * scale),
                "{}: {} is the wrong solution", tag, got)
        want = None
    if want is not None:
        c.check(np.all(np.abs(got - want) <= 1e-9 * np.abs(want)),
                "{}: {} instead of {}", tag, got, want)
    if frac in (0.0, 1.0):
        want = e2 if frac else e1
        c.check(np.all(np.abs(got - want) <= 1e-8 * scale),
                "{}: {} instead of constituent {}", tag, got, want)


def grid(c):
    """mixing rules on a grid of constants"""
    rule = c.choose('rule', list(RULES))
    frac = c.choose('fraction', FRAC if not c.thorough else
                    sorted(FRAC + [k / 11. for k in range(1, 11)]))
    re_, im_ = (RE, IM) if not c.thorough else (RE + [40., 5e3],
                                                IM + [1e-12])
    values = [complex(r, i) for r in re_ for i in im_]
    met = np.linspace(4e-7, 8e-7, len(values))
    tab = Material(tabulated_eps=np.column_stack(
        [met, np.real(values), np.imag(values)]), unit='m')
    for e1 in values:
        m1 = Material(fixed_eps=e1)
        for swap in (False, True):
            one, two = np.full(len(values), e1), np.array(values)
            mats = (m1, tab)
            if swap:
                one, two, mats = two, one, (tab, m1)
            med = RULES[rule](Spectrum(met), mats[0], mats[1], frac)
            got = med.get_permittivity(met)
            verify(c, rule, one, two, frac, got, (rule, frac, e1, swap))
            nk = med.get_nk_data(met)
            c.check(np.all(np.abs(nk ** 2 - got) <= 1e-9 * np.abs(got)),
                    "index and permittivity disagree")
            c.op(3)
            for e2 in values:
                c.state(rule, frac, e1, e2, swap)
        for e2 in values[::7]:
            med = RULES[rule](Spectrum(5e-7), m1, Material(fixed_eps=e2), frac)
            verify(c, rule, e1, e2, frac, med.get_permittivity(5e-7),
                   (rule, frac, e1, e2))
            c.op(2)
    c.outcome(rule, frac)


METAL = [complex(r, i) for r in (-300., -12., -2.5, -1.0, -0.2, 0.0)
         for i in (1e-4, 0.05, 1.3, 40.)]
NEAR = [0.0, 1e-12, 1e-9, 0.01, 1 / 3., 0.5, 0.77, 0.99, 1 - 1e-9, 1.0]


def metals(c):
    """absorbing constituents with negative real part, with each other and with
    dielectrics"""
    rule = c.choose('rule', list(RULES))
    frac = c.choose('fraction', NEAR)
    other = METAL + [complex(r, i) for r in RE for i in (0.0, 0.05, 40.)]
    met = np.linspace(4e-7, 8e-7, len(other))
    tab = Material(tabulated_eps=np.column_stack(
        [met, np.real(other), np.imag(other)]), unit='m')
    for e1 in METAL:
        for swap in (False, True):
            one, two = np.full(len(other), e1), np.array(other)
            mats = (Material(fixed_eps=e1), tab)
            if swap:
                one, two, mats = two, one, mats[::-1]
            c.op(2)
            try:
                got = RULES[rule](Spectrum(met), mats[0], mats[1],
                                  frac).get_permittivity(met)
            except ValueError:
                down = (2 + frac) * one + (1 - frac) * two
                c.check(rule == 'MaxwellGarnett' and np.min(np.abs(down)) < 1e-5,
                        "{} of {} refused", rule, e1)
                continue
            for a, b, val in zip(one, two, got):
                compare_metal(c, rule, a, b, frac, val)
                c.state(rule, frac, a, b)
    c.outcome(rule, frac)


def compare_metal(c, rule, e1, e2, frac, got):
    scale = abs(e1) + abs(e2)
    tol = 1e-9 * scale
    if frac in (0.0, 1.0):
        want = [e2 if frac else e1]
    elif rule == 'Simple':
        want = [(1 - frac) * e1 + frac * e2]
    elif rule == 'MaxwellGarnett':
        down = (2 + frac) * e1 + (1 - frac) * e2
        want = [e1 * (2 * (1 - frac) * e1 + (1 + 2 * frac) * e2) / down]
        tol *= 1 + abs(e1) * scale / abs(down) ** 2
    else:
        # the mixing rule is a quadratic equation with one passive solution
        half = ((1 - frac) * (2 * e1 - e2) + frac * (2 * e2 - e1)) / 4
        root = np.sqrt(half ** 2 + e1 * e2 / 2)
        want = sorted([half + root, half - root], key=lambda e: -e.imag)
        tol = 1e-7 * scale + 1e-14 * scale ** 2 / abs(root)
        if want[0].imag - want[1].imag > 1e-6 * scale:
            want = want[:1]
    c.check(any(abs(got - w) <= tol for w in want),
            "{} of {} and {} with fraction {}: {} instead of {}", rule, e1, e2, frac,
            got, want)


PAIRS = [('table nk', 'fixed eps'), ('fixed eps', 'table nk eV'),
         ('table eps 1/cm', 'table n_alpha'), ('model Sellmeier', 'table nk long'),
         ('model Cauchy', 'model TaucLorentz'), ('txt file', 'yml file'),
         ('Simple', 'fixed nk'), ('Bruggeman', 'MaxwellGarnett'),
         ('extrapolated', 'no absorption'), ('fixed n', 'fixed nk'),
         ('table nk descending', 'table nk descending'),
         ('parts eV', 'model and table')]
NEGATIVE = ('fixed eps', 'fixed eps_r')


def build(name):
    if name in NEGATIVE:
        return Material(fixed_eps=3.5 + .9j), 0.0, ref.INF
    return subjects.MATERIALS[name]()


def refused(func, *args):
    try:
        func(*args)
    except ValueError:
        return True
    return False


def materials(c):
    """dispersive constituents, spectra of every unit, length and order"""
    rule = c.choose('rule', list(RULES))
    pair = c.choose('constituents', PAIRS)
    tu = c.choose('unit', ref.TU)
    for count in (1, 2, 3, 10, 41) if c.thorough else (1, 3, 12):
        for order in ('ascending', 'descending', 'interleaved')[:count]:
            for scalar in ([False, True] if count == 1 else [False]):
                for frac in (0.0, 0.3, 1.0, 1, 0) if c.thorough else (0.3, 1, 0.0):
                    one_medium(c, rule, pair, tu, count, order, scalar, frac)
    c.outcome(rule, pair)


def one_medium(c, rule, pair, tu, count, order, scalar, frac):
    (m1, l1, h1), (m2, l2, h2) = build(pair[0]), build(pair[1])
    low, high = max(l1, l2), min(h1, h2)
    low = max(low, 3e-7) * 1.00001
    high = min(high, 2e-6) / 1.00001
    met = ref.arrange(ref.spread(low, high, count), order)
    vals = ref.from_m(tu, met)
    spec = Spectrum(float(vals[0]) if scalar else vals, *tu)
    before = (np.copy(spec.values), spec.spectrum_type, spec.unit)
    probe = subjects.inside(low, high, 6)
    was = [m.get_nk_data(probe) for m in (m1, m2)]
    e1 = m1.get_permittivity(Spectrum(np.copy(vals), *tu))
    e2 = m2.get_permittivity(Spectrum(np.copy(vals), *tu))
    med = RULES[rule](spec, m1, m2, frac)
    c.op(6)
    tag = (rule, pair, tu, count, order, scalar, frac)
    c.check(np.array_equal(before[0], spec.values) and
            before[1:] == (spec.spectrum_type, spec.unit),
            "{}: the given spectrum was changed", tag)
    for m, w in zip((m1, m2), was):
        c.check(np.array_equal(m.get_nk_data(probe), w),
                "{}: a constituent was changed", tag)
    got = med.get_permittivity(Spectrum(vals, *tu))
    verify(c, rule, e1, e2, float(frac), got, tag)
    for k in {0, len(met) // 2, len(met) - 1}:
        one = med.get_permittivity(float(vals[k]), *tu)
        c.check(abs(one - got[k]) <= 1e-9 * abs(one), "{}: scalar {} array {}",
                tag, one, got[k])
    # validity
    lo, hi = np.min(met), np.max(met)
    rng = med.get_maximum_valid_range()
    c.check(abs(rng[0] - lo) <= 1e-8 * lo and abs(rng[1] - hi) <= 1e-8 * hi,
            "{}: range {}, spectrum {} to {}", tag, rng, lo, hi)
    for bad in (lo * (1 - 1e-6), hi * (1 + 1e-6)):
        c.check(refused(med.get_permittivity, float(bad)), "{}: valid at {}", tag,
                bad)
    if count > 1:
        inner = subjects.inside(lo * (1 + 1e-9), hi * (1 - 1e-9), 5)
        c.check(np.all(np.isfinite(med.get_permittivity(inner))),
                "{}: not valid inside", tag)
    c.op(7)
    c.state(tag)


def rejected(c):
    """fractions, singular mixtures and spectra that are refused"""
    rule = c.choose('rule', list(RULES))
    what = c.choose('what', ['fraction', 'singular', 'spectrum'])
    m1, m2 = Material(fixed_eps=2.25 + 0j), Material(fixed_eps=4. + .5j)
    spec = Spectrum([4e-7, 5e-7, 6e-7])
    if what == 'fraction':
        for frac in (-1e-9, -0.1, -1.0, 1 + 1e-9, 1.5, 2, -1, 1e9, float('inf'),
                     -float('inf'), np.float64(1.1), float('nan')):
            c.check(refused(RULES[rule], spec, m1, m2, frac), "{} accepted", frac)
            c.op()
            c.state(rule, frac)
    elif what == 'spectrum':
        tab = subjects.MATERIALS['table nk']()[0]
        for met in ([3e-7, 5e-7], [5e-7, 9e-7], [1e-7], [3e-7, 9e-7]):
            for pair in ((tab, m2), (m1, tab)):
                c.check(refused(RULES[rule], Spectrum(met), pair[0], pair[1], .3),
                        "accepted for {}", met)
                c.op()
            c.state(rule, what, met)
    else:
        if rule != 'MaxwellGarnett':
            c.prune()
        xs = np.array([400., 500., 600.])
        for frac in (0.0, .1, .3, .5, .75, .9):
            for e1 in (1.0, 2.25, 9.0):
                pole = -(2 + frac) / (1 - frac) * e1
                base = Material(fixed_eps=complex(e1, 0))
                c.check(refused(MaxwellGarnett, spec, base,
                                Material(fixed_eps=complex(pole, 0)), frac),
                        "singular mixture {} {} accepted", e1, frac)
                # singular at one point only
                for k in range(3):
                    col = np.array([pole * 1.5, pole * 2, pole * 3])
                    col[k] = pole
                    tab = Material(tabulated_eps=np.column_stack([xs, col, 0 * xs]))
                    c.check(refused(MaxwellGarnett, spec, base, tab, frac),
                            "mixture singular at {} nm accepted", xs[k])
                    # and the same material where it is not singular
                    rest = np.delete(np.array([4e-7, 5e-7, 6e-7]), k)
                    med = MaxwellGarnett(Spectrum(rest), base, tab, frac)
                    e2 = np.delete(col, k)
                    got = med.get_permittivity(rest)
                    want = e1 * (2 * (1 - frac) * e1 + (1 + 2 * frac) * e2) / (
                        (2 + frac) * e1 + (1 - frac) * e2)
                    c.check(ref.close(got, want + 0j, 1e-8), "{} instead of {}",
                            got, want)
                    c.op(3)
                # lossy: not singular
                med = MaxwellGarnett(spec, base,
                                     Material(fixed_eps=complex(pole, .1)), frac)
                c.check(np.all(np.isfinite(med.get_permittivity(spec))),
                        "not finite")
                c.op(3)
                c.state(frac, e1)
    c.outcome(rule, what)


def chains(c):
    """media of media; reuse of constituents and spectra"""
    spec = Spectrum([1.6, 2.0, 2.4, 3.0], 'energy', 'ev')
    met = ref.to_m(('energy', 'ev'), np.array([1.6, 2.0, 2.4, 3.0]))
    pool = [(Material(fixed_eps=2.1 + .1j), np.full(4, 2.1 + .1j)),
            (Material(fixed_n=1.9), np.full(4, 3.61 + 0j))]
    for i in range(3 if c.thorough else 2):
        rule = c.choose('rule{}'.format(i), list(RULES))
        a = c.choose('first{}'.format(i), list(range(len(pool))))
        b = c.choose('second{}'.format(i), list(range(len(pool))))
        frac = c.choose('fraction{}'.format(i), [0.0, .4, 1.0])
        med = RULES[rule](spec, pool[a][0], pool[b][0], frac)
        got = med.get_permittivity(met)
        verify(c, rule, pool[a][1], pool[b][1], frac, got, (rule, a, b, frac))
        c.op(2)
        pool.append((med, got))
        for mat, want in pool:
            c.check(ref.close(mat.get_permittivity(met), want, 1e-12),
                    "an earlier medium changed")
        c.check(spec.unit == 'ev' and spec.values[2] == 2.4, "spectrum changed")
    c.state([p[1].tolist() for p in pool])


SCENARIOS = {'grid': grid, 'materials': materials, 'rejected': rejected,
             'chains': chains, 'metals': metals}

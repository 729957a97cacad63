"""C13: writing and reading material files"""
import os
import shutil
import numpy as np
from dispersion import Spectrum, Constant, Interpolation, Material
from dispersion.io import Writer, Reader
from mc import ref, subjects

BOUNDS = {'quick': "40 materials x 4 formats x options x 3 cycles x 5 print "
                   "settings; 45 strings x 6 metadata fields x 4 formats, all "
                   "ordered pairs of fields; 16 magnitudes x 16 lengths; 11x11 "
                   "constants x 4 ranges; models with zero and extreme parameters",
          'thorough': "all pairs of strings in all pairs of fields; 60 lengths; 6 "
                      "cycles"}
ASSUMPTIONS = ["without the optional ruamel.yaml (not installed)",
               "the interpolation order is not part of a file",
               "a line of the meta comment of a text file does not look like one "
               "of its header entries"]
EXT = ['.yml', '.txt', '.csv', '.nk']
FIELDS = ['Reference', 'Author', 'FullName', 'Name', 'Comment', 'MetaComment']
NO_WRITE = ('extrapolated',)


def one_table(name):
    """a text file can hold this material"""
    return (name.startswith('table') or name in (
        'one row', 'no absorption', 'txt file', 'csv file', 'Simple',
        'MaxwellGarnett', 'Bruggeman'))


def describe(mat, low, high, count=23):
    """what a user sees of a material"""
    met = subjects.inside(low, high, count)
    return {'nk': mat.get_nk_data(met), 'eps': mat.get_permittivity(met),
            'range': np.array(mat.get_maximum_valid_range()),
            'type': mat.defaults['spectrum_type'], 'unit': mat.defaults['unit'],
            'meta': dict(mat.meta_data)}


def canonical(stype, unit):
    return stype.lower(), ref.CANON.get(unit.lower(), unit.lower())


def squeeze(text):
    return " ".join(str(text).split())


def same(c, old, new, ext, tag, check_unit=True, rel=1e-9):
    for key in ('nk', 'eps'):
        c.check(ref.close(new[key], old[key], rel, 0.0 if rel > 1e-12 else 0.0),
                "{}: {} is {} instead of {}", tag, key, new[key], old[key])
    if check_unit:
        c.check(canonical(new['type'], new['unit']) ==
                canonical(old['type'], old['unit']),
                "{}: unit {} {} instead of {} {}", tag, new['type'], new['unit'],
                old['type'], old['unit'])
        c.check(ref.close(new['range'], old['range'], 1e-9, 0.0),
                "{}: range {} instead of {}", tag, new['range'], old['range'])
    for key in FIELDS:
        got, want = new['meta'][key], old['meta'][key]
        if ext == '.yml' and key != 'MetaComment':
            c.check(got == want, "{}: {} is {!r} instead of {!r}", tag, key, got,
                    want)
        elif ext == '.yml':
            c.check([l.strip() for l in got.strip().split('\n')] ==
                    [l.strip() for l in want.strip().split('\n')],
                    "{}: {} is {!r} instead of {!r}", tag, key, got, want)
        else:
            c.check(squeeze(got) == squeeze(want), "{}: {} is {!r} instead of {!r}",
                    tag, key, got, want)
    if ext == '.yml':
        c.check(new['meta']['Specification'] == old['meta']['Specification'],
                "{}: specification {} instead of {}", tag,
                new['meta']['Specification'], old['meta']['Specification'])


def unchanged(c, before, after, tag):
    for key in ('nk', 'eps', 'range'):
        c.check(np.array_equal(before[key], after[key]), "{}: writing changed {}",
                tag, key)
    c.check(before['meta'] == after['meta'] and before['unit'] == after['unit'] and
            before['type'] == after['type'], "{}: writing changed the material", tag)


def write(c, mat, path, **opts):
    """True if written, False if refused"""
    c.op()
    try:
        Writer(path, mat).write_file(**opts)
        return True
    except ValueError:
        return False


PRINT = {'default': {}, 'short': {'threshold': 5, 'edgeitems': 1},
         'imprecise': {'precision': 2}, 'suppress': {'suppress': True,
                                                     'precision': 3},
         'narrow': {'linewidth': 20, 'floatmode': 'fixed', 'precision': 1},
         'formatter': {'formatter': {'float': lambda x: 'x'}}}


def with_print(c, name):
    if PRINT[name]:
        old = np.get_printoptions()
        c.cleanup.append(lambda: np.set_printoptions(**old))
        np.set_printoptions(**PRINT[name])


def fresh(name):
    path = subjects.path(name)
    if os.path.exists(path):
        os.remove(path)
    return path


MIXED = ('parts eV', 'model and table', 'yml file')


def materials(c):
    """every kind of material through every format"""
    name = c.choose('material', [m for m in subjects.MATERIALS
                                 if m not in NO_WRITE])
    ext = c.choose('format', EXT)
    prt = c.choose('print settings', list(PRINT))
    opts = c.choose('options', [{}, {'ignore_constant': True},
                                {'ignore_constant': False},
                                {'use_rii_aliases': True}])
    with_print(c, prt)
    mat, low, high = subjects.MATERIALS[name]()
    mat.meta_data.update(Name='Foo', FullName='Foo bar', Author='A. Nother',
                         Reference='somewhere', Comment='no comment',
                         MetaComment='one line')
    if opts.get('use_rii_aliases') and (ext == '.yml') and not (
            name[6:] in ref.MODELS_N):
        c.prune()       # only for data in micrometre
    before = describe(mat, low, high)
    path = fresh('c13' + ext)
    done = write(c, mat, path, **opts)
    can = ext == '.yml' or one_table(name)
    tag = (name, ext, prt, opts)
    c.check(done == can, "{}: {}", tag, 'written' if done else 'refused')
    c.check(os.path.exists(path) == done, "{}: file {}", tag,
            'missing' if done else 'left behind')
    unchanged(c, before, describe(mat, low, high), tag)
    c.state(tag)
    c.outcome(ext, done)
    if not done:
        return
    kws = {'spectrum_type': 'wavelength', 'unit': 'um'} \
        if opts.get('use_rii_aliases') else {}
    if name == 'table nk cubic':
        kws['interp_order'] = 3     # given by the reader, not by the file
    check_unit = name not in MIXED and not name.startswith('fixed')
    cur = path
    for cycle in range(6 if c.thorough else 3):
        new = Material(file_path=cur, **kws)
        c.op()
        same(c, before, describe(new, low, high), ext, tag + (cycle,), check_unit)
        cur = fresh('c13_{}{}'.format(cycle, ext))
        c.check(write(c, new, cur, **opts), "{}: cannot be written again", tag)


STRINGS = ['', 'abc', 'a b  c', ' lead', 'trail ', 'key: value', 'a:b:c',
           'http://x.org/?q=1&b#frag', '# hash', 'a # b', '; semi', 'a;b', '"q"',
           "'q'", "it's", '{a: b}', '[1, 2]', '- item', '* star', '& amp', '%',
           '%s %d {} {0}', '!tag', '@at', '`tick`', '1', '1.5', '1e5', 'nan',
           'null', '~', 'yes', 'no', 'True', '2020-01-01', '\u03bcm \u00c5 \u00e9',
           '\u4e2d\u6587', '\U0001f600', 'x' * 300, 'word ' * 60, 'tab\there',
           'back\\slash \\n', 'a,b,c', '<sub>2</sub>', '|', '>', 'DATA', '...',
           '---', '?', 'a: b\tc', '0x1F', '1_000', '12:30:45', '=', '<<', 'NaN',
           '\u00a0nbsp', 'a\u2009b']
LINES = ['two\nlines', 'three\n\nlines', 'crlf\r\nline', '\nfirst empty', 'end\n',
         'a: b\nc: d', '# x\n# y', 'indent\n  more\n    even more']


def meta_ok(field, text, ext):
    """inside the assumptions"""
    if field != 'MetaComment':
        return True
    if ext == '.yml':
        return '\r' not in text
    return True


def build_meta(meta, ext):
    mat = Material(tabulated_nk=np.array([[400., 1.5, .1], [500., 1.6, .2]]))
    mat.meta_data.update(meta)
    return mat


def through(c, meta, ext, tag, cycles=2):
    mat = build_meta(meta, ext)
    before = describe(mat, 4e-7, 5e-7, 3)
    path = fresh('c13m' + ext)
    c.check(write(c, mat, path), "{}: refused", tag)
    unchanged(c, before, describe(mat, 4e-7, 5e-7, 3), tag)
    for _ in range(cycles):
        new = Material(file_path=path)
        same(c, before, describe(new, 4e-7, 5e-7, 3), ext, tag)
        write(c, new, path)
        c.op()


def metadata(c):
    """text in every field"""
    ext = c.choose('format', EXT)
    field = c.choose('field', FIELDS)
    for text in STRINGS + LINES:
        if not meta_ok(field, text, ext):
            continue
        through(c, {field: text}, ext, (ext, field, text))
        c.state(ext, field, text)


def pairs(c):
    """text in two fields"""
    ext = c.choose('format', EXT)
    one = c.choose('first', FIELDS)
    two = c.choose('second', [f for f in FIELDS if f != one])
    texts = STRINGS + LINES if c.thorough else ['a: b', '# x', '', 'NAME', 'x\ny',
                                                '\u03bcm', ' x ']
    for a in texts:
        for b in texts:
            if not (meta_ok(one, a, ext) and meta_ok(two, b, ext)):
                continue
            through(c, {one: a, two: b}, ext, (ext, one, a, two, b), 1)
            c.state(ext, one, a, two, b)


def combos(c):
    """any subset of the fields"""
    ext = c.choose('format', EXT)
    meta = {}
    for field in FIELDS:
        if c.choose(field, [False, True]):
            meta[field] = 'text of ' + field.lower()
    spec = c.choose('specification', [
        {}, {'temperature': '300 K'}, {'n_absolute': True,
                                       'wavelength_vacuum': False},
        {'substrate': 'glass: BK7', 'film_thickness': 12.5, 'direction': '[100]',
         'own key': 'x', 'pressure': None, 'nested': {'a': [1, 2]}},
        {'n_absolute': False, 'film_thickness': 0, 'substrate': '', 'annealed':
         False, 'doping': 0, 'remark': '', 'list': [], 'temperature': 0.0},
        {'Temperature': 'upper', 'temperature': 'lower', 'PRESSURE': 1,
         'Substrate': 'Si', 'Own Key': 'MiXed', 'direction ': 'blank', 7: 'seven',
         'temperature_2': 'K', 'n': 1, 'Direction': 'e', 'none': None, 'None': 'None',
         'deposition_temperature': None},
        {'direction': 'o', 'deposition_temperature': '20', 'pressure': '1e5',
         'temperature': '3e2', 'substrate': 'yes', 'film_thickness': '007',
         'wavelength_vacuum': 'null', 'n_absolute': 'true', 'date': '2001-01-01'}])
    if ext != '.yml' and spec:
        c.prune()           # text files hold no specification
    meta['Specification'] = spec
    through(c, meta, ext, (ext, sorted(meta), spec), 3)
    c.state(ext, sorted(meta), spec)


MAG = [1.0, 1e-3, 1e-8, 1e-12, 1e-30, 1e-300, 1e3, 1e8, 1e12, 1e30, 1e150,
       1.2345678901234567, 1 / 3., 7e-5, 0.0, -1.0]


def magnitudes(c):
    """numbers of any size survive"""
    ext = c.choose('format', EXT)
    kind = c.choose('definition', ['tabulated_n', 'tabulated_nk', 'tabulated_eps'])
    prt = c.choose('print settings', list(PRINT))
    with_print(c, prt)
    for mag in MAG:
        for xmag in (400.0, 1e-3 / 3, 123456.789012345):
            xs = xmag * (1 + np.arange(4) * np.array([0, 1e-9, .1, 1]))
            ys = mag * (1 + np.arange(4) / 3.)
            zs = mag * np.array([0.0, 1e-9, 1 / 7., 3])
            tab = np.column_stack([xs, ys] if kind == 'tabulated_n'
                                  else [xs, ys, zs])
            if kind == 'tabulated_nk' and mag < 0:
                continue
            mat = Material(**{kind: tab})
            path = fresh('c13n' + ext)
            c.check(write(c, mat, path), "refused")
            new = Material(file_path=path)
            c.op()
            for k, x in enumerate(xs):
                got, want = [(m.get_permittivity if kind == 'tabulated_eps' else
                              m.get_nk_data)(float(x), 'wavelength', 'nm')
                             for m in (new, mat)]
                # two rows are 1e-9 apart, text files keep 15 digits
                tol = 1e-11 * abs(mag) if k > 1 else 1e-4 * abs(mag)
                c.check(abs(got.real - want.real) <= tol and
                        abs(got.imag - want.imag) <= tol, "{} {}: {} at {} instead "
                        "of {}", ext, kind, got, x, want)
            c.state(ext, kind, mag, xmag)


def lengths(c):
    """tables of every length, also through print settings"""
    ext = c.choose('format', EXT)
    count = c.choose('rows', [1, 2, 3, 4, 5, 10, 50, 100, 499, 500, 501, 999, 1000,
                              1001, 1500, 3000] +
                     (list(range(6, 50)) if c.thorough else []))
    prt = c.choose('print settings', ['default', 'short', 'narrow'])
    order = c.choose('order', ['ascending', 'descending'])
    with_print(c, prt)
    kind = c.choose('definition', ['tabulated_nk', 'tabulated_eps'])
    i = np.arange(count)
    tab = np.column_stack([300 + 0.7 * i, 1.5 + .5 * np.sin(i), .2 + .1 * np.cos(i)])
    mat = Material(**{kind: tab if order == 'ascending' else tab[::-1].copy()})
    path = fresh('c13l' + ext)
    c.check(write(c, mat, path), "refused")
    new = Material(file_path=path)
    got = (new.get_permittivity if 'eps' in kind else new.get_nk_data)(
        tab[:, 0], 'wavelength', 'nm')
    c.check(ref.close(got, tab[:, 1] + 1j * tab[:, 2], 1e-11),
            "values differ for {} rows", count)
    mid = (tab[1:, 0] + tab[:-1, 0]) / 2
    if count > 1:
        old = mat.get_nk_data(mid, 'wavelength', 'nm')
        c.check(ref.close(new.get_nk_data(mid, 'wavelength', 'nm'), old, 1e-10),
                "interpolated values differ for {} rows", count)
    c.op(3)
    c.state(ext, count, order, kind)


UNIT_SPELL = [(t, s) for t, u in ref.TU for s in ref.SPELLINGS[u]]


def units(c):
    """type and unit in every spelling"""
    ext = c.choose('format', EXT)
    stype, unit = c.choose('unit', UNIT_SPELL)
    case = c.choose('case', [str, str.upper, str.title])
    parts = c.choose('parts', ['n', 'nk', 'eps', 'n_alpha', 'one row', 'constant'])
    tu = (stype, ref.CANON[unit])
    tab = subjects.table(tu, 6)
    kws = {'spectrum_type': case(stype), 'unit': case(unit)}
    low, high = subjects.LOW, subjects.HIGH
    if parts == 'constant':
        if ext != '.yml':
            c.prune()
        mat = Material(tabulated_n=tab[:, :2].copy(), **kws)
        mat.data['imag'] = Constant(.3, valid_range=subjects.rng(tu), **kws)
    elif parts == 'one row':
        mat = Material(tabulated_nk=tab[:1].copy(), **kws)
        low = high = ref.to_m(tu, tab[0, 0])
    else:
        mat = Material(**{'tabulated_' + parts: tab[:, :2].copy() if parts == 'n'
                          else tab}, **kws)
    before = describe(mat, low, high)
    path = fresh('c13u' + ext)
    c.check(write(c, mat, path), "refused")
    new = Material(file_path=path)
    same(c, before, describe(new, low, high), ext, (ext, stype, unit, parts))
    c.op()
    c.state(ext, stype, unit, parts)


def part_combos(c):
    """yaml: any two parts, with their own units and ranges"""
    name = c.choose('quantity', ['nk', 'eps'])
    kinds = ['none', 'zero', 'constant', 'bounded', 'table', 'same table', 'model',
             'one row']
    real = c.choose('real', kinds)
    imag = c.choose('imag', kinds)
    tus = [('wavelength', 'um'), ('energy', 'ev'), ('wavelength', 'nm')]
    rtu = c.choose('real unit', tus if real not in ('none', 'zero', 'constant')
                   else tus[:1])
    itu = c.choose('imag unit', tus if imag not in ('none', 'zero', 'constant')
                   else tus[:1])
    ignore = c.choose('ignore constant', [True, False])
    mat = Material(fixed_n=1.5) if name == 'nk' else Material(fixed_eps_r=1.5)
    low, high = 0.0, ref.INF
    for key, kind, tu, base in (('real', real, rtu, 1.5), ('imag', imag, itu, .2)):
        ends = subjects.rng(tu)
        kws = {'spectrum_type': tu[0], 'unit': tu[1]}
        if kind == 'none':
            continue
        if kind == 'zero':
            mat.data[key] = Constant(0.0)
            continue
        if kind == 'constant':
            mat.data[key] = Constant(base)
            continue
        if kind == 'bounded':
            mat.data[key] = Constant(base, valid_range=ends, **kws)
        elif kind in ('table', 'same table'):
            xs = np.linspace(ends[0], ends[1], 5 if kind == 'same table' else
                             (4 if key == 'real' else 7))
            xs[-1] = ends[1]
            mat.data[key] = Interpolation(np.column_stack([xs, base + .1 * np.sin(
                np.arange(len(xs)))]), **kws)
        elif kind == 'model':
            if key == 'imag' or name == 'eps' or tu[1] != 'um':
                c.prune()           # models say themselves what they describe
            import dispersion.spectral_data as sd
            mat.data[key] = sd.Cauchy(np.array([1.5, .01, -2.]), ends, **kws)
        elif kind == 'one row':
            if 'one row' in (real, imag) and real != imag:
                c.prune()
            one = ref.from_m(tu, 5e-7)
            mat.data[key] = Constant(base, valid_range=(one, one), **kws)
            low = high = 5e-7
            continue
        if low != high:
            low, high = subjects.LOW, subjects.HIGH
    if low < high and np.isfinite(high):
        low, high = low * (1 + 1e-8), high * (1 - 1e-8)
    if low == high and rtu != itu:
        c.prune()
    before = describe(mat, low, high)
    path = fresh('c13p.yml')
    c.check(write(c, mat, path, ignore_constant=ignore), "refused")
    for _ in range(2):
        new = Material(file_path=path)
        same(c, before, describe(new, low, high), '.yml', (real, imag, rtu, itu),
             check_unit=False)
        # the same range
        for obj in (new,):
            rng = Spectrum(obj.get_maximum_valid_range(),
                           obj.defaults['spectrum_type'], obj.defaults['unit']
                           ).convert_to('wavelength', 'm')
            old = Spectrum(before['range'], before['type'], before['unit']
                           ).convert_to('wavelength', 'm')
            c.check(ref.close(np.sort(rng), np.sort(old), 2e-9, 0.0),
                    "range {} instead of {}", rng, old)
        write(c, new, path, ignore_constant=ignore)
        c.op(2)
    c.state(name, real, imag, rtu, itu, ignore)
    # text files: exactly if one table is all there is
    for ext in EXT[1:]:
        path = fresh('c13q' + ext)
        done = write(c, mat, path)
        if done:
            new = Material(file_path=path)
            same(c, before, describe(new, low, high), ext, (real, imag, rtu, itu),
                 check_unit=False)
        c.check(done == os.path.exists(path), "file left behind or missing")
        table_r = real in ('table', 'same table', 'one row')
        table_i = imag in ('table', 'same table', 'one row')
        zero_r = real == 'zero'
        zero_i = imag in ('none', 'zero')
        if (table_r and zero_i) or (zero_r and table_i):
            c.check(done, "{} {} refused", real, imag)
        c.outcome(ext, done)


def same_numbers(c):
    """parts tabulated at the same numbers, but in different units"""
    rtu = c.choose('real unit', ref.TU)
    itu = c.choose('imag unit', ref.TU)
    name = c.choose('quantity', ['nk', 'eps'])
    xs = c.choose('numbers', [[400., 500., 650., 700.], [.5, 1., 2.5]])
    rows = c.choose('rows', ['all', 'one'])
    if rows == 'one':
        xs = xs[1:2]
    xs = np.array(xs)
    mat = Material(fixed_n=1.5) if name == 'nk' else Material(fixed_eps_r=1.5)
    parts = {'real': (rtu, 1.5 + .1 * np.sin(xs)), 'imag': (itu, .1 + .01 * xs)}
    for key, (tu, ys) in parts.items():
        if len(xs) == 1:
            mat.data[key] = Constant(ys[0], valid_range=(xs[0], xs[0]),
                                     spectrum_type=tu[0], unit=tu[1])
        else:
            mat.data[key] = Interpolation(np.column_stack([xs, ys]),
                                          spectrum_type=tu[0], unit=tu[1])
    for ext in EXT:
        path = fresh('c13s' + ext)
        done = write(c, mat, path)
        c.check(done == os.path.exists(path), "file left behind or missing")
        c.check(done or ext != '.yml', "refused")
        c.check(done or rtu != itu, "{}: one table refused", ext)
        if not done:
            continue
        new = Material(file_path=path)
        for key, (tu, ys) in parts.items():
            got = new.data[key].evaluate(Spectrum(xs, *tu))
            c.check(ref.close(got, ys, 1e-9), "{} {} {}: {} is {} instead of {}", ext,
                    rtu, itu, key, got, ys)
            rng = new.data[key].valid_range.convert_to(*tu)
            c.check(ref.close(np.sort(rng), [xs[0], xs[-1]], 1e-9),
                    "{} {} {}: range of {} is {}", ext, rtu, itu, key, rng)
    c.state(rtu, itu, name, tuple(xs))


FORMULA = {name: 'formula {}'.format(i + 1) for i, name in enumerate(
    ['Sellmeier', 'Sellmeier2', 'Polynomial', 'RefractiveIndexInfo', 'Cauchy',
     'Gases', 'Herzberger', 'Retro', 'Exotic'])}


def rii_style(c):
    """files in the style of refractiveindex.info, data in micrometre"""
    import yaml
    import dispersion.spectral_data as sd
    real = c.choose('real', ['table', 'constant', 'bounded', 'none'] + list(FORMULA))
    imag = c.choose('imag', ['none', 'table', 'same table', 'constant', 'bounded'])
    ignore = c.choose('ignore constant', [True, False])
    name = c.choose('quantity', ['nk', 'eps'])
    if name == 'eps' and real in FORMULA:
        c.prune()
    um = {'spectrum_type': 'wavelength', 'unit': 'um'}
    ends = subjects.rng(('wavelength', 'um'))
    mat = Material(fixed_n=0.0, **um) if name == 'nk' else \
        Material(fixed_eps_r=0.0, **um)
    low, high = 0.0, ref.INF
    for key, kind, base, count in (('real', real, 1.5, 5),
                                   ('imag', imag, .2, 5 if imag == 'same table'
                                    else 4)):
        if kind == 'none':
            continue
        if kind == 'constant':
            mat.data[key] = Constant(base)
            continue
        low, high = subjects.LOW, subjects.HIGH
        if kind == 'bounded':
            mat.data[key] = Constant(base, valid_range=ends, **um)
        elif kind in FORMULA:
            mat.data[key] = getattr(sd, kind)(np.array(ref.TYPICAL[kind]), ends, **um)
        else:
            xs = np.linspace(ends[0], ends[1], count)
            mat.data[key] = Interpolation(np.column_stack(
                [xs, base + .1 * np.sin(xs * 9)]), **um)
    before = describe(mat, low, high)
    path = fresh('c13r.yml')
    opts = {'use_rii_aliases': True, 'ignore_constant': ignore}
    for _ in range(2):
        c.check(write(c, mat, path, **opts), "refused")
        with open(path, encoding='utf8') as fpt:
            content = yaml.safe_load(fpt)
        sets = {d['type'].split()[-1]: d for d in content['DATA']}
        tag = (real, imag, name)
        for dset in content['DATA']:
            if dset['type'].startswith('tabulated'):
                c.check('data' in dset, "{}: keys {}", tag, sorted(dset))
        if real in FORMULA:
            dset = sets.get(FORMULA[real][-1], {})
            c.check(dset.get('type') == FORMULA[real] and 'coefficients' in dset and
                    [float(v) for v in str(dset.get('wavelength_range')).split()]
                    == list(ends), "{}: formula written as {}", tag,
                    content['DATA'])
        mat = Material(file_path=path, **um)
        same(c, before, describe(mat, low, high), '.yml', tag)
        c.op()
    c.state(real, imag, ignore, name)


SMALL = [0.0, 1e-300, 1e-12, 1e-9, 1e-7, 5e-5, 1e-3, 1.5, -1e-9, -2.5, 1e9]


def constants(c):
    """constants of every size"""
    name = c.choose('quantity', ['nk', 'eps'])
    real = c.choose('real', SMALL)
    imag = c.choose('imag', SMALL)
    opts = c.choose('options', [{}, {'ignore_constant': False},
                                {'use_rii_aliases': True}])
    rng = c.choose('range', [None, (400., 800.), (0.0, 800.), (400., ref.INF)])
    mat = Material(**{'fixed_' + name: complex(real, imag)})
    if rng is not None:
        for key, val in (('real', real), ('imag', imag)):
            mat.data[key] = Constant(val, valid_range=rng, unit='nm')
    path = fresh('c13k.yml')
    for _ in range(2):
        c.check(write(c, mat, path, **opts), "refused")
        mat = Material(file_path=path)
        got = (mat.get_nk_data if name == 'nk' else mat.get_permittivity)(
            np.array([4.5e-7, 7e-7]))
        c.check(np.all(np.abs(got.real - real) <= 1e-12 * abs(real)) and
                np.all(np.abs(got.imag - imag) <= 1e-12 * abs(imag)),
                "{} instead of {}", got, complex(real, imag))
        if rng is not None and not opts.get('use_rii_aliases'):
            c.check(ref.close(mat.get_maximum_valid_range(), rng, 1e-9),
                    "range {} instead of {}", mat.get_maximum_valid_range(), rng)
        c.op()
    c.state(name, real, imag, rng)


def variants(par):
    """sets of parameters with zeros and extreme values"""
    par = [float(v) for v in par]
    out = [par, [0.0] * len(par), par[:-1] + [0.0], par[:-2] + [0.0, 0.0],
           [0.0] + par[1:], [v * 1e-9 for v in par], [v * 1e7 for v in par],
           [-v for v in par], [v / 3. for v in par]]
    for i in range(len(par)):
        out.append(par[:i] + [1e-7 * par[i] or 1e-9] + par[i + 1:])
        out.append(par[:i] + [0.0] + par[i + 1:])
    return out


def model_state(mat, name, low, high):
    """what the model is, also where it has no finite value"""
    met = ref.spread(low, high, 5)
    with np.errstate(all='ignore'):
        try:
            val = (mat.get_permittivity if name in ref.MODELS_EPS
                   else mat.get_nk_data)(met)
        except (ValueError, ZeroDivisionError, FloatingPointError) as exc:
            return type(exc).__name__
    return np.asarray(val)


def parameters(c):
    """models with any parameters"""
    name = c.choose('model', list(ref.TYPICAL))
    kind = c.choose('container', [np.array, list])
    style = c.choose('style', [{}, {'use_rii_aliases': True}]
                     if name in FORMULA else [{}])
    tu = ref.model_tu(name)
    ends = subjects.rng(tu)
    kws = {'spectrum_type': tu[0], 'unit': tu[1]}
    for par in variants(ref.TYPICAL[name]):
        with np.errstate(all='ignore'):
            mat = Material(model_kw=dict(kws, name=name, valid_range=kind(ends),
                                         parameters=kind(par)))
        before = model_state(mat, name, subjects.LOW, subjects.HIGH)
        path = fresh('c13f.yml')
        for _ in range(2):
            c.check(write(c, mat, path, **style), "{} {} refused", name, par)
            with np.errstate(all='ignore'):
                mat = Material(file_path=path, **(kws if style else {}))
            after = model_state(mat, name, subjects.LOW, subjects.HIGH)
            c.check(type(before) is type(after) and
                    (before == after if isinstance(before, str) else
                     np.allclose(before, after, 1e-9, 0.0, equal_nan=True)),
                    "{} with {}: {} instead of {}", name, par, after, before)
            c.op()
        c.state(name, tuple(par), bool(style))
    c.outcome(name)


def overwrite(c):
    """existing files are replaced as a whole, or kept if refused"""
    ext = c.choose('format', EXT + ['.xyz', '', '.yaml', '.TXT'])
    old = c.choose('existing', ['missing', 'longer', 'shorter', 'other metadata'])
    mat_name = c.choose('material', ['table nk', 'fixed n', 'model Cauchy',
                                     'table nk long', 'one row'])
    path = fresh('c13o' + ext)
    if old == 'longer':
        content = '# NAME: old\n' + '1 2 3\n' * 4000
    elif old == 'shorter':
        content = '1 2 3\n'
    else:
        content = '# NAME: old\n# COMMENT: old\n# AUTHOR: old\n# UNIT: eV\n9 9 9\n'
    if old != 'missing':
        with open(path, 'w') as fpt:
            fpt.write(content)
    mat, low, high = subjects.MATERIALS[mat_name]()
    before = describe(mat, low, high)
    done = write(c, mat, path)
    want = ext == '.yml' or (ext in EXT and one_table(mat_name))
    c.check(done == want, "{} {}: {}", ext, mat_name, done)
    if done:
        new = Material(file_path=path)
        same(c, before, describe(new, low, high), ext, (ext, old, mat_name),
             not mat_name.startswith('fixed'))
    else:
        if old == 'missing':
            c.check(not os.path.exists(path), "refused, but file left behind")
        else:
            with open(path) as fpt:
                c.check(fpt.read() == content, "refused, but file changed")
    left = [f for f in os.listdir(os.environ['MC_WORK']) if f.endswith('.tmp')]
    c.check(not left, "temporary files left: {}", left)
    c.state(ext, old, mat_name)
    c.outcome(ext, done)


def again(c):
    """one writer used several times, also after a failure"""
    name = c.choose('material', ['table nk', 'table eps', 'fixed n', 'fixed eps',
                                 'model Cauchy', 'one row', 'model and table'])
    ext = c.choose('format', EXT)
    comment = c.choose('meta comment', ['', 'one line', 'two\nlines'])
    mat, low, high = subjects.MATERIALS[name]()
    mat.meta_data.update(Name='Foo', Comment='no comment', MetaComment=comment,
                         Specification={'temperature': '20 C', 'own': 1})
    folder = subjects.path('c13w')
    shutil.rmtree(folder, ignore_errors=True)
    path = os.path.join(folder, 'm' + ext)
    before = describe(mat, low, high)
    out = Writer(path, mat)
    can = ext == '.yml' or one_table(name)
    steps = ['no folder', 'write', 'with constants', 'without constants']
    for step in [c.choose('step{}'.format(i), steps) for i in range(3)]:
        c.op()
        if step == 'no folder':
            shutil.rmtree(folder, ignore_errors=True)
        elif not os.path.isdir(folder):
            os.mkdir(folder)
        opts = {} if 'const' not in step else {'ignore_constant':
                                               step == 'without constants'}
        try:
            out.write_file(**opts)
            done = True
        except (ValueError, OSError):
            done = False
        c.check(done == (can and step != 'no folder'), "{}: {}", step, done)
        c.check(os.path.exists(path) == done, "{}: {}", step, done)
        if done:
            new = Material(file_path=path)
            same(c, before, describe(new, low, high), ext, (name, ext, step),
                 name not in MIXED and not name.startswith('fixed'))
    unchanged(c, before, describe(mat, low, high), name)
    c.state(name, ext, comment)
    c.outcome(name, ext)


def without_value(c):
    """entries of the file that was read have no value"""
    ext = c.choose('format', EXT)
    text = "DATA:\n  - type: tabulated nk\n    data: |\n        400 1.5 .1\n" \
           "        500 1.6 .2\n"
    empty = []
    for field in ('NAME', 'FULLNAME', 'AUTHOR', 'COMMENTS', 'REFERENCES', 'SPECS'):
        how = c.choose(field, ['missing', 'no value', 'given'])
        if how == 'no value':
            empty.append(field)
        if how != 'missing':
            text += field + ":" + ("" if how == 'no value' else " {a: 1}" if
                                   field == 'SPECS' else " text") + "\n"
    with open(subjects.path('c13e.yml'), 'w') as fpt:
        fpt.write(text)
    mat = Material(file_path=subjects.path('c13e.yml'), unit='nm')
    before = describe(mat, 4e-7, 5e-7)
    path = fresh('c13f' + ext)
    c.check(write(c, mat, path), "refused")
    same(c, before, describe(Material(file_path=path), 4e-7, 5e-7), ext, (ext, empty))
    c.op(2)
    c.state(ext, text)


RANGES = {'none': None, 'open below': (0.0, 1000.), 'open above': (300., ref.INF),
          'wide': (300., 1000.), 'inner': (450., 650.), 'narrow': (500., 500.0002),
          'narrower': (500., 500.0000005), 'point': (500., 500.)}
XS = np.array([400., 500., 650., 700.])
TABLES = {'table': XS, 'almost': XS * (1 + 1e-6), 'closer': XS + 1e-11 * XS,
          'one apart': XS + np.array([0, 0, 1e-4, 0]), 'shorter': XS[:-1]}


def bounds_of_parts(c):
    """each part has a range of its own"""
    name = c.choose('quantity', ['nk', 'eps'])
    kinds = [(v, r) for v in (0.0, .25) for r in RANGES] + list(TABLES)
    real = c.choose('real', kinds)
    ext = c.choose('format', EXT)
    opts = c.choose('options', [{}, {'ignore_constant': False}])
    for imag in kinds:
        mat = Material(fixed_n=1.5, unit='nm') if name == 'nk' else \
            Material(fixed_eps_r=1.5, unit='nm')
        want = {}
        for key, kind in (('real', real), ('imag', imag)):
            if kind in TABLES:
                xs = TABLES[kind]
                ys = .1 + xs * 1e-3 + (key == 'real')
                mat.data[key] = Interpolation(np.column_stack([xs, ys]), unit='nm')
            else:
                rng = RANGES[kind[1]]
                mat.data[key] = Constant(kind[0], unit='nm', **(
                    {} if rng is None else {'valid_range': rng}))
                rng = rng or (0.0, ref.INF)
                xs = np.array([max(rng[0], 1.0), min(rng[1], 1e4)])
                ys = np.full(2, kind[0])
            want[key] = (xs, ys, np.array([xs[0], xs[-1]]) if kind in TABLES
                         else np.array(rng))
        path = fresh('c13b' + ext)
        tag = (real, imag, ext, opts)
        done = write(c, mat, path, **opts)
        c.check(done == os.path.exists(path), "{}: file left or missing", tag)
        c.check(done or ext != '.yml', "{}: refused", tag)
        if not done:
            free = (0.0, 'none')
            c.check(not ((real in TABLES and imag in (free, real)) or
                         (real == free and imag in TABLES)), "{}: refused", tag)
            continue
        new = Material(file_path=path)
        for key, (xs, ys, rng) in want.items():
            got = new.data[key].evaluate(Spectrum(xs, unit='nm'))
            c.check(np.allclose(got, ys, 1e-12, 0.0), "{}: {} is {} instead of {}",
                    tag, key, got, ys)
            got = np.sort(new.data[key].valid_range.convert_to('wavelength', 'nm'))
            c.check(np.allclose(got, rng, 1e-12, 0.0),
                    "{}: range of {} is {} instead of {}", tag, key, got, rng)
    c.state(name, real, ext)


def equality(c):
    """materials compare equal when metadata and kind of data agree"""
    ext = c.choose('format', EXT)
    kind = c.choose('definition', ['tabulated_n', 'tabulated_nk', 'tabulated_eps'])
    spec = c.choose('specification', [{}, {'temperature': '300 K'}])
    tab = np.array([[400., 2.5, .1], [500., 2.7, .3], [600., 2.6, .2]])
    mat = Material(**{kind: tab if kind != 'tabulated_n' else tab[:, :2]})
    for field in FIELDS:
        mat.meta_data[field] = 'some ' + field
    mat.meta_data['Specification'] = dict(spec)
    path = fresh('c13q' + ext)
    c.check(write(c, mat, path), "refused")
    back = Material(file_path=path)
    alike = all(mat.meta_data[k] == back.meta_data[k] for k in mat.meta_data)
    c.check(ext != '.yml' or alike, "metadata {} instead of {}", back.meta_data,
            mat.meta_data)
    for one, two in ((mat, back), (back, mat)):
        c.op()
        c.check((one == two) is alike and (one != two) is not alike,
                "{} {}: equal {}, metadata alike {}", ext, kind, one == two, alike)
    c.check(mat == mat and back == back, "not equal to itself")
    c.check(not mat == 'text' and not mat == None and not mat == 1,   # noqa
            "equal to something else")
    again = Material(file_path=path)
    c.check(again == back, "read twice, not equal")
    for field in FIELDS + ['Specification']:
        other = Material(file_path=path)
        other.meta_data[field] = {'x': 1} if field == 'Specification' else 'other'
        c.op(2)
        c.check(not other == back and not back == other,
                "{} {}: equal with another {}", ext, kind, field)
        c.state(ext, kind, field)
    other = Material(file_path=path)
    other.meta_data['own entry'] = 'text'
    for one, two in ((other, back), (back, other)):
        c.op()
        c.check(not one == two, "{} {}: equal with another entry", ext, kind)
    data = Material(**({'fixed_n': 1.5} if 'eps' in kind else {'fixed_eps_r': 2.0}))
    for field in FIELDS + ['Specification', 'Alias']:
        data.meta_data[field] = back.meta_data[field]
    c.check(not data == back and not back == data, "index equals permittivity")
    c.outcome(ext, alike)


SCENARIOS = {'equality': equality, 'materials': materials, 'metadata': metadata, 'pairs': pairs,
             'combos': combos, 'magnitudes': magnitudes, 'lengths': lengths,
             'units': units, 'part combos': part_combos, 'same numbers':
             same_numbers, 'rii style': rii_style, 'overwrite': overwrite,
             'constants': constants, 'bounds of parts': bounds_of_parts,
             'parameters': parameters, 'again': again, 'without value': without_value}

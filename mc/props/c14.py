"""C14: reading documented files"""
import itertools
import json
import os
import subprocess
import sys
import numpy as np
from dispersion import Material
from mc import ref, subjects

BOUNDS = {'quick': "all ordered selections of 4 of 8 header entries x 3 formats; "
                   "all abscissa sequences of length 4 over 4 values; 80 header "
                   "lines at all positions; yaml data sets in all combinations, "
                   "orders, styles; 8 hash seeds",
          'thorough': "ordered selections of 5 header entries; sequences of length 6"}
ASSUMPTIONS = ["the header is one block of lines at the start of the file",
               "without the optional ruamel.yaml (not installed)"]
MARK = {'.txt': '#', '.csv': '#', '.nk': ';'}
SEP = {'.txt': '\t', '.csv': ',', '.nk': '\t'}
EXT = list(MARK)


def put(name, text, newline='\n'):
    path = subjects.path(name)
    with open(path, 'w', encoding='utf-8', newline='') as fpt:
        fpt.write(text.replace('\n', newline))
    return path


def rows_text(rows, sep, fmt=repr):
    return "".join(sep.join(fmt(v) for v in row) + "\n" for row in rows)


ENTRIES = {'Reference': ('REFERENCES', 'J. Foo, Opt. 12: 34 (2020)'),
           'Author': ('AUTHOR', 'An Author'),
           'FullName': ('FULLNAME', 'Full: name, of 100% it'),
           'Name': ('NAME', 'Ag'),
           'Comment': ('COMMENTS', 'see http://x.org:80/a?b'),
           'type': ('SPECTRUMTYPE', 'energy'),
           'unit': ('UNIT', 'eV'),
           'data': ('DATATYPE', 'tabulated eps')}
META = ['Reference', 'Author', 'FullName', 'Name', 'Comment', 'MetaComment']


def view(mat, what, x, tu):
    func = mat.get_permittivity if what == 'eps' else mat.get_nk_data
    return func(x, *tu)


def expect_table(c, mat, rows, what, tu, tag):
    """values at all rows and half way between, and the range"""
    rows = [tuple(float(v) for v in r) for r in rows]
    xs = np.array([r[0] for r in rows])
    re_ = np.array([r[1] for r in rows])
    im_ = np.array([r[2] if len(r) > 2 else 0.0 for r in rows])
    if what in ('k', 'eps_i'):
        re_, im_ = 0 * re_, re_
    base = 'eps' if what.startswith('eps') else 'nk'
    got = view(mat, base, xs, tu)
    c.check(ref.close(got, re_ + 1j * im_, 1e-8), "{}: {} instead of {}", tag, got,
            re_ + 1j * im_)
    if len(rows) > 1:
        mid = (xs[1:] + xs[:-1]) / 2
        want = ((re_[1:] + re_[:-1]) / 2 + 1j * (im_[1:] + im_[:-1]) / 2)
        got = view(mat, base, mid, tu)
        c.check(ref.close(got, want, 1e-6), "{}: {} instead of {}", tag, got, want)
    c.op(2)
    for bad in (xs[0] * (1 - 1e-5), xs[-1] * (1 + 1e-5)):
        try:
            view(mat, base, float(bad), tu)
        except ValueError:
            continue
        c.fail("{}: valid at {}".format(tag, bad))
    rng = mat.get_maximum_valid_range()
    want = np.array([xs[0], xs[-1]])
    c.check(ref.close(rng, want, 1e-8), "{}: range {} instead of {}", tag, rng, want)


def expect_meta(c, mat, want, tag):
    for key in META:
        exp = want.get(key, "")
        got = mat.meta_data[key]
        c.check(got == exp or key == 'MetaComment' and
                got.split('\n') != [] and
                [l.strip() for l in got.strip().split('\n')] ==
                [l.strip() for l in exp.strip().split('\n')],
                "{}: {} is {!r} instead of {!r}", tag, key, got, exp)


CASES = [str, str.lower, str.title, lambda s: s[0].lower() + s[1:]]
DATA3 = [(1.5, 2.0, .1), (2.0, 2.5, .3), (3.0, 3.5, .2)]


def headers(c):
    """ordered selections of header entries"""
    ext = c.choose('format', EXT)
    first = c.choose('first', list(ENTRIES))
    second = c.choose('second', [e for e in ENTRIES if e != first])
    case = c.choose('case', list(range(len(CASES))))
    size = 5 if c.thorough else 4
    rest = [e for e in ENTRIES if e not in (first, second)]
    for tail in itertools.permutations(rest, size - 2):
        if not c.thorough and (case + rest.index(tail[0])) % 2:
            continue
        for cut in range(size - 1):
            names = [first, second] + list(tail)
            if cut and (cut + case) % 3:
                continue
            names = names[:size - cut]
            caller = {}
            header = {n: ENTRIES[n][1] for n in names}
            lines = ["{} {}: {}".format(MARK[ext], CASES[case](ENTRIES[n][0]),
                                        header[n]) for n in names]
            if 'type' in header and 'unit' not in header:
                caller['unit'] = 'electronvolt'
            if 'unit' in header and 'type' not in header:
                caller['spectrum_type'] = 'Energy'
            tu = (('energy', 'ev') if 'type' in header or 'unit' in header
                  else ('wavelength', 'nm'))
            path = put('c14h' + ext, "\n".join(lines) + "\n" +
                       rows_text(DATA3, SEP[ext]))
            mat = Material(file_path=path, **caller)
            c.op()
            tag = (ext, names)
            expect_meta(c, mat, header, tag)
            expect_table(c, mat, DATA3, 'eps' if 'data' in header else 'nk', tu, tag)
            c.state(ext, tuple(names), case)
    c.outcome(ext)


def fallbacks(c):
    """type and unit from the file, else from the caller, else the default"""
    ext = c.choose('format', EXT + ['.yml', 'rii'])
    ftype = c.choose('type in file', [None, 'wavelength', 'energy', 'Wavenumber'])
    funit = c.choose('unit in file', [None, 'nm', 'eV', '1/cm', 'micrometer', ''])
    ctype = c.choose('type of caller', [None, 'wavelength', 'energy'])
    cunit = c.choose('unit of caller', [None, 'nanometer', 'um', 'ev'])
    caller = {k: v for k, v in (('spectrum_type', ctype), ('unit', cunit))
              if v is not None}
    stype = (ftype or ctype or 'wavelength').lower()
    unit = ref.CANON[(funit or cunit or 'nm').lower()]
    rows = DATA3
    if ext in EXT:
        lines = []
        if ftype is not None:
            lines.append("{} SPECTRUMTYPE: {}".format(MARK[ext], ftype))
        if funit is not None:
            lines.append("{} UNIT: {}".format(MARK[ext], funit))
        path = put('c14f' + ext, "".join(l + "\n" for l in lines) +
                   rows_text(rows, SEP[ext]))
        kind = 'table'
    else:
        kind = c.choose('data', ['table', 'model'])
        text = "DATA:\n"
        if kind == 'table':
            text += "  - {}: tabulated nk\n    {}: |\n".format(
                *(('type', 'data') if ext == 'rii' else ('DataType', 'Data')))
            text += "".join("        " + l for l in
                            rows_text(rows, ' ').splitlines(True))
        else:
            text += "  - {}: {}\n    {}: 0.5 2.5\n    {}: 1.5 0.01 -2\n".format(
                *(('type', 'formula 5', 'wavelength_range', 'coefficients')
                  if ext == 'rii' else ('DataType', 'model Cauchy', 'ValidRange',
                                        'Parameters')))
        if ftype is not None:
            text += "    SpectrumType: {}\n".format(ftype)
        if funit is not None:
            text += "    Unit: {}\n".format(funit or "''")
        path = put('c14f.yml', text)
    ok = (stype, unit) in ref.TU
    if kind == 'model':
        ok = (stype, unit) == ('wavelength', 'um')
    try:
        mat = Material(file_path=path, **caller)
        err = None
    except ValueError as exc:
        mat, err = None, exc
    c.op()
    tag = (ext, kind, ftype, funit, ctype, cunit)
    c.check((mat is not None) == ok, "{}: {}", tag,
            "accepted" if err is None else err)
    if ok and kind == 'table':
        expect_table(c, mat, rows, 'nk', (stype, unit), tag)
    elif ok:
        got = mat.get_nk_data(1.25e-6)
        c.check(ref.close(got, 1.5 + .01 / 1.25 ** 2 + 0j), "{}: {}", tag, got)
        c.check(ref.close(mat.get_maximum_valid_range(), [.5, 2.5]), "range")
    c.state(tag)
    c.outcome(ext, ok)


COMMENTS = ['plain comment', 'note: with colon', 'http://a.b/c', '', ' ',
            'date: 2020-01-01 12:30:00', 'Wavelength: 400', 'k: v: w', ':', ': x',
            '# nested', 'temperature:300', '\u03bc: \u00e9', 'a,b,c', '1.0 2.0 3.0',
            '{x: y}', "it's", 'unknown key: NAME: x', 'x' * 200, 'tab\tkey: v',
            'Auth: x', 'Comm: y', 'Ref: z', 'Refer: z', 'Full: f', 'Nam: n',
            'Uni: eV', 'Spect: energy', 'Spectrum: energy', 'Data: tabulated eps',
            'Full name: x', 'Spectrum type: energy', 'U nit: eV',
            'Valid: 1 2', 'Spec: none', 'My name: z', 'The unit: eV',
            'Original author: w', 'File comment: u']


def comments(c):
    """unrecognised lines anywhere in the header"""
    ext = c.choose('format', EXT)
    where = c.choose('position', [0, 1, 2, 3])
    blank = c.choose('blank after mark', [True, False])
    newline = c.choose('line end', ['\n', '\r\n'])
    fixed = [('Name', 'NAME: Cu'), ('unit', 'UNIT: um'),
             ('Author', 'AUTHOR: me : you')]
    lead = MARK[ext] + (' ' if blank else '')
    begin = c.choose('first comment', COMMENTS)
    for n_lines in (1, 2):
        for pick in itertools.product(COMMENTS, repeat=n_lines):
            if pick[0] != begin:
                continue
            if n_lines == 2 and not c.thorough and \
                    (COMMENTS.index(pick[0]) + COMMENTS.index(pick[1])) % 5:
                continue
            texts = [t for _, t in fixed]
            spread = texts[:where] + list(pick) + texts[where:]
            path = put('c14c' + ext, "".join(lead + t + "\n" for t in spread) +
                       rows_text([(.4, 1.5, .1), (.5, 1.6, .2)], SEP[ext]), newline)
            mat = Material(file_path=path)
            c.op()
            tag = (ext, pick, where)
            c.check(mat.meta_data['Name'] == 'Cu' and
                    mat.meta_data['Author'] == 'me : you',
                    "{}: name {!r} author {!r}", tag, mat.meta_data['Name'],
                    mat.meta_data['Author'])
            got = [l.strip() for l in mat.meta_data['MetaComment'].split('\n')
                   if l.strip()]
            want = [t.strip() for t in pick if t.strip()]
            c.check(got == want, "{}: comment {} instead of {}", tag, got, want)
            for key in ('Reference', 'FullName', 'Comment'):
                c.check(mat.meta_data[key] == '', "{}: {} is {!r}", tag, key,
                        mat.meta_data[key])
            expect_table(c, mat, [(.4, 1.5, .1), (.5, 1.6, .2)], 'nk',
                         ('wavelength', 'um'), tag)
            c.state(ext, where, pick, blank, newline)


def keep(rows):
    out = {}
    for row in rows:
        out.setdefault(row[0], row)
    return [out[x] for x in sorted(out)]


FORMATS = {'repr': repr, 'exp': '{:.6e}'.format, 'EXP': '{:.6E}'.format,
           'plus': '{:+.3f}'.format, 'padded': '{:>14.4f}'.format,
           'short': '{:g}'.format, 'bare': lambda v: _bare(v),
           'integer': lambda v: ('{:.0f}'.format(v) if v == int(v)
                                 else '{!r}'.format(v)),
           'exponent': lambda v: '{:.4e}'.format(v).replace('e+00', 'e0'),
           'zeros': '{:09.4f}'.format}


def _bare(val):
    """without the zeros that are not needed"""
    text = '{:.4f}'.format(val).rstrip('0')
    return text[1:] if text.startswith('0.') else text


def monotonic(c):
    """every sequence of abscissae"""
    ext = c.choose('format', EXT + ['.yml'])
    cols = c.choose('columns', [2, 3])
    fmt = c.choose('numbers', list(FORMATS))
    gaps = c.choose('blank lines', ['none', 'between', 'around'])
    alphabet = [.5, 1.0, 2.5, 4.0]
    begin = c.choose('first abscissa', alphabet)
    for length in range(1, (6 if c.thorough else 4) + 1):
        for xs in itertools.product(alphabet, repeat=length):
            if xs[0] != begin:
                continue
            if not c.thorough and length == 4 and \
                    sum(alphabet.index(x) * (i + 1) for i, x in enumerate(xs)) % 4:
                continue
            if c.thorough and length > 4 and \
                    sum(alphabet.index(x) * (i + 1) for i, x in enumerate(xs)) % 7:
                continue
            rows = [(x, (1.5 + .1 * i) * (-1) ** (i % 3 // 2), .1 + .05 * i)[:cols]
                    for i, x in enumerate(xs)]
            sep = SEP.get(ext, '  ')
            lines = rows_text(rows, sep, FORMATS[fmt]).splitlines()
            if gaps == 'between':
                lines = "\n\n".join(lines).split('\n')
            elif gaps == 'around':
                lines = ['', ''] + lines + ['', '']
            if ext == '.yml':
                text = "DATA:\n  - type: tabulated {}\n    data: |\n".format(
                    'n' if cols == 2 else 'nk')
                text += "".join("      " + l + "\n" for l in lines
                                if l.strip() or gaps == 'between')
            else:
                text = "\n".join(lines) + "\n"
            mat = Material(file_path=put('c14t' + ext, text))
            c.op()
            expect_table(c, mat, keep(rows), 'nk', ('wavelength', 'nm'),
                         (ext, xs, fmt, gaps))
            c.state(ext, xs, cols)
    c.outcome(ext, cols)


VALUES = ['x', '', 'a: b', 'ends with:', ':starts', '::', 'http://a.b/c?d=e#f', '# hash',
          'a # b', '; semi', 'a;b', 'a, b, c', '"quoted"', "it's", '1', '1.50', '-', '~',
          'null', 'None', 'true', '[1, 2]', '{a: b}', '%', '\\ back', 'two  blanks',
          'tab\there', '\u00b5 \u00e9', 'UNIT: eV', 'NAME: y', 'x' * 500, '*', '&a', '!b',
          'nan', 'UPPER lower']


def values(c):
    """texts of the metadata"""
    ext = c.choose('format', EXT)
    newline = c.choose('line end', ['\n', '\r\n'])
    field = c.choose('field', ['Name', 'FullName', 'Author', 'Comment', 'Reference'])
    style = c.choose('style', ['{}{}: {}', '{} {}:{}', '{}{}: {} ', '{}\t{}:\t{}'])
    rows = [(400., 1.5, .1), (500., 1.6, .2)]
    for text in VALUES:
        for other in ('Name', 'Reference'):
            lines = [style.format(MARK[ext], field.upper(), text)]
            want = {field: text}
            if other != field:
                lines.append(style.format(MARK[ext], other.upper(), 'other'))
                want[other] = 'other'
            for order in (lines, lines[::-1]):
                path = put('c14v' + ext, "".join(line + "\n" for line in order) +
                           rows_text(rows, SEP[ext]), newline)
                mat = Material(file_path=path)
                c.op()
                tag = (ext, field, text)
                expect_meta(c, mat, want, tag)
                expect_table(c, mat, rows, 'nk', ('wavelength', 'nm'), tag)
                c.state(ext, order)


LINES = ['x', 'a: b', 'ends with:', '# hash', 'a # b', "it's", '"quoted"', '1', '1.50',
         'true', 'null', '2001-01-01', '~', '\u00b5 \u00e9', 'x' * 300, '[1, 2]', '*a',
         'NAME: y', '<b>html</b> &amp; <a href="http://x.y/">z</a>', '']


def yaml_style(text, style):
    """scalar that stands for the text in yaml"""
    if style == 'absent':
        return ("\n", "") if text == '' else (None, None)
    if style == 'plain':
        plain = text and not set(text) & set(':#*[]{}&"\'~') and \
            text not in ('1', '1.50', 'true', 'null', '2001-01-01')
        return (" " + text + "\n", text) if plain else (None, None)
    if style == 'single':
        return " '" + text.replace("'", "''") + "'\n", text
    if style == 'double':
        return ' "' + text.replace('\\', '\\\\').replace('"', '\\"') + '"\n', text
    if text == '':
        return None, None
    two = style.startswith('two')
    body = "".join("    {}\n".format(line) for line in ([text, text] if two else [text]))
    if style.endswith('literal'):
        return " |\n" + body, ("{0}\n{0}\n" if two else "{}\n").format(text)
    if style.endswith('strip'):
        return " |-\n" + body, ("{0}\n{0}" if two else "{}").format(text)
    return " >\n" + body, ("{0} {0}\n" if two else "{}\n").format(text)


def yaml_meta(c):
    """metadata of yaml files in every style"""
    field = c.choose('field', ['Name', 'FullName', 'Author', 'Comment', 'Reference'])
    style = c.choose('style', ['absent', 'plain', 'single', 'double', 'literal', 'strip', 'folded',
                               'two literal', 'two strip', 'two folded'])
    case = c.choose('case', [0, 1, 2, 3])
    where = c.choose('position', ['first', 'after data', 'last'])
    newline = c.choose('line end', ['\n', '\r\n'])
    data = ("DATA:\n  - type: tabulated nk\n    data: |\n        0.4 1.5 .1\n"
            "        0.5 1.6 .2\n")
    specs = "SPECS:\n    temperature: 20 C\n    n_absolute: true\n    own: [1, x]\n"
    for text in LINES:
        scalar, want = yaml_style(text, style)
        if scalar is None:
            continue
        entry = "{}:{}".format(CASES[case](ENTRIES[field][0]), scalar)
        parts = {'first': [entry, specs, data], 'after data': [data, entry, specs],
                 'last': [specs, data, entry]}[where]
        path = put('c14y.yml', "".join(parts), newline)
        mat = Material(file_path=path, unit='um')
        c.op()
        expect_meta(c, mat, {field: want}, (field, style, text))
        c.check(mat.meta_data['Specification'] ==
                {'temperature': '20 C', 'n_absolute': True, 'own': [1, 'x']},
                "specification {}", mat.meta_data['Specification'])
        expect_table(c, mat, [(.4, 1.5, .1), (.5, 1.6, .2)], 'nk', ('wavelength', 'um'),
                     (field, style, text))
        c.state(field, style, case, where, text)


def dense(c):
    """rows in any order, some of them very close to each other"""
    ext = c.choose('format', EXT + ['.yml'])
    gap = c.choose('relative distance', [1e-11, 1e-9, 1e-7])
    alphabet = [500.0, 500.0 * (1 + gap), 600.0, 600.0 * (1 + gap)]
    for length in range(1, 5):
        for xs in itertools.product(alphabet, repeat=length):
            rows = [(x, 1.5 + .1 * i, .1 + .05 * i) for i, x in enumerate(xs)]
            text = rows_text(rows, SEP.get(ext, '  '))
            if ext == '.yml':
                text = "DATA:\n  - type: tabulated nk\n    data: |\n" + "".join(
                    "      " + line + "\n" for line in text.splitlines())
            mat = Material(file_path=put('c14d' + ext, text))
            at = keep(rows)
            got = mat.get_nk_data([r[0] for r in at], 'wavelength', 'nm')
            c.op(2)
            # converting to metre and back moves the points by 1e-13 nm
            c.check(ref.close(np.real(got), [r[1] for r in at], 1e-2) and
                    ref.close(np.imag(got), [r[2] for r in at], 1e-2),
                    "{}: {} instead of {}", (ext, xs), got, at)
            c.state(ext, xs)


def datatypes(c):
    """declared kind of table"""
    ext = c.choose('format', EXT + ['.yml'])
    what = c.choose('kind', ['n', 'k', 'nk', 'eps', 'eps_r', 'eps_i', 'n_alpha'])
    cols = 3 if what in ('nk', 'eps', 'n_alpha') else 2
    count = c.choose('rows', [1, 2, 5, 300])
    tu = c.choose('unit', ref.TU)
    spell = c.choose('spelling', ref.SPELLINGS[tu[1]])
    xs = subjects.table(tu, max(count, 2))[:count, 0]
    if ref.ROUNDING[tu[1]]:
        # positions the unit can express
        xs = np.round(xs, {'nm': 5, 'um': 8, 'cm': 12, 'a': 4, 'ev': 8}[tu[1]])
    rows = [(float(x), 1.5 + .1 * (i % 4), .1 + .02 * (i % 3))[:cols]
            for i, x in enumerate(xs)]
    if ext == '.yml':
        text = ("DATA:\n  - DataType: tabulated {}\n    SpectrumType: {}\n"
                "    Unit: {}\n    Data: |-\n".format(what, tu[0], spell) +
                "".join("        " + l for l in
                        rows_text(rows, ' ').splitlines(True)))
    else:
        text = "".join("{} {}\n".format(MARK[ext], l) for l in (
            'SPECTRUMTYPE: ' + tu[0], 'UNIT: ' + spell,
            'DATATYPE: tabulated ' + what)) + rows_text(rows, SEP[ext])
    mat = Material(file_path=put('c14d' + ext, text))
    c.op()
    if what == 'n_alpha':
        lam = ref.to_m(tu, np.array([r[0] for r in rows])) * 100
        rows = [(r[0], r[1], r[2] * l / (4 * np.pi)) for r, l in zip(rows, lam)]
    expect_table(c, mat, rows, 'nk' if what == 'n_alpha' else what, tu,
                 (ext, what, tu))
    c.state(ext, what, tu, count)


# ---------------------------------------------------------------- yaml
def dataset_text(kind, style, units, shuffle):
    """one data set; returns text"""
    rii = style == 'rii'
    if kind[0] == 'formula':
        name = ref.MODELS_N[kind[1] - 1]
        items = [('type', 'formula {}'.format(kind[1])) if rii else
                 ('DataType', 'model ' + name),
                 ('wavelength_range' if rii else 'ValidRange', '0.45 0.75'),
                 ('coefficients' if rii else 'Parameters',
                  " ".join(repr(v) for v in ref.TYPICAL[name]))]
        if not rii:
            items.append(('Yields', 'n'))
    elif kind[0] == 'eps model':
        items = [('DataType', 'model ' + kind[1]), ('ValidRange', '1.0 4.0'),
                 ('Parameters', " ".join(repr(v) for v in ref.TYPICAL[kind[1]])),
                 ('Yields', 'eps')]
    else:
        rows = TABLES[kind[1]]
        items = [('type' if rii else 'DataType', 'tabulated ' + kind[1]),
                 ('data' if rii else 'Data', "|\n" + "".join(
                     "        " + l for l in
                     rows_text(rows, '\t' if shuffle and rii else '  ' if shuffle
                               else ' ').splitlines(True))[:-1])]
        if not rii:
            items.append(('ValidRange', '{!r} {!r}'.format(rows[0][0],
                                                           rows[-1][0])))
    if units:
        items += [('SpectrumType', 'energy'), ('Unit', 'electronvolt')] \
            if kind[0] == 'eps model' else [('SpectrumType', 'wavelength'),
                                            ('Unit', 'micrometer')]
    if shuffle:
        items = items[::-1]
    text = ""
    for i, (key, val) in enumerate(items):
        text += "  {} {}: {}\n".format('-' if i == 0 else ' ', key, val)
    return text


TABLES = {'n': [(.4, 1.5), (.6, 1.7), (.8, 1.6)],
          'k': [(.42, .1), (.5, .3), (.78, .2)],
          'nk': [(.4, 1.5, .1), (.55, 1.8, .3), (.8, 1.6, .2)],
          'eps': [(.4, 2.5, .1), (.55, 2.8, .3), (.8, 2.6, .2)],
          'eps_r': [(.4, 2.5), (.6, -1.7), (.8, 2.6)],
          'eps_i': [(.42, .1), (.5, .3), (.78, .2)]}
REALS = [None] + [('formula', i) for i in range(1, 10)] + [('table', 'n'),
                                                           ('table', 'eps_r')]
IMAGS = [None, ('table', 'k'), ('table', 'eps_i')]
WHOLE = [('table', 'nk'), ('table', 'eps')] + [('eps model', m)
                                               for m in ref.MODELS_EPS]


def part_value(kind, lam):
    """value at lam (micrometre) and range"""
    if kind is None:
        return 0.0, (0.0, ref.INF)
    if kind[0] == 'formula':
        return ref.evaluate_formula(ref.MODELS_N[kind[1] - 1],
                                    ref.TYPICAL[ref.MODELS_N[kind[1] - 1]],
                                    lam), (.45, .75)
    if kind[0] == 'eps model':
        return ref.evaluate_formula(kind[1], ref.TYPICAL[kind[1]],
                                    ref.HC_E * 1e6 / lam), (ref.HC_E * 1e6 / 4,
                                                            ref.HC_E * 1e6)
    rows = TABLES[kind[1]]
    xs = [r[0] for r in rows]
    val = ref.linear(xs, [r[1] for r in rows], lam)
    if len(rows[0]) > 2:
        val = val + 1j * ref.linear(xs, [r[2] for r in rows], lam)
    return val, (xs[0], xs[-1])


def datasets(c):
    """yaml data sets in every combination, order and style"""
    style = c.choose('style', ['package', 'rii'])
    units = c.choose('units in file', [True, False])
    sets = c.choose('data sets', [(r, i) for r in REALS for i in IMAGS
                                  if r or i] + [(w,) for w in WHOLE])
    swap = c.choose('order', ['as is', 'swapped'])
    shuffle = c.choose('keys', ['as is', 'reversed'])
    extra = c.choose('other entries', ['none', 'before', 'after', 'lower case'])
    if style == 'rii' and any(s and s[0] == 'eps model' for s in sets):
        c.prune()
    if not units and any(s and s[0] == 'eps model' for s in sets):
        c.prune()
    if len(sets) == 2 and sets[0] and sets[1] and (
            (sets[0][1] == 'eps_r') != (sets[1][1] == 'eps_i')):
        c.prune()
    present = [s for s in sets if s]
    if swap == 'swapped':
        if len(present) < 2:
            c.prune()
        present = present[::-1]
    meta = ("REFERENCES: 'Ref: 1; 2 # 3'\nCOMMENTS: some comment\nNAME: Xy\n"
            "FULLNAME: \"X y: z\"\nAUTHOR: Au Thor\nSPECS:\n  n_absolute: true\n"
            "  temperature: 20 \u00b0C\n")
    if extra == 'after':
        meta = meta.replace("  n_absolute: true\n", "")
    if extra == 'lower case':
        meta = "\n".join(l if l.startswith(' ') else l.split(':')[0].lower() + ':' +
                         l.split(':', 1)[1] for l in meta.split('\n') if l) + '\n'
    data = ("data:\n" if extra == 'lower case' else "DATA:\n") + "".join(
        dataset_text(s, style, units, shuffle == 'reversed') for s in present)
    text = {'none': data, 'before': meta + data, 'after': data + meta,
            'lower case': meta + data}[extra]
    head = "# first line\n# second: line\n\n" if extra != 'none' else ""
    path = put('c14y.yml', head + text)
    caller = {} if units else {'spectrum_type': 'wavelength', 'unit': 'um'}
    mat = Material(file_path=path, **caller)
    c.op()
    tag = (style, units, sets, swap, shuffle, extra)
    if extra == 'none':
        expect_meta(c, mat, {}, tag)
    else:
        expect_meta(c, mat, {'Reference': 'Ref: 1; 2 # 3',
                             'Comment': 'some comment', 'Name': 'Xy',
                             'FullName': 'X y: z', 'Author': 'Au Thor',
                             'MetaComment': 'first line\nsecond: line'}, tag)
        spec = {'n_absolute': True, 'temperature': '20 \u00b0C'}
        if extra == 'after':
            del spec['n_absolute']
        c.check(mat.meta_data['Specification'] == spec, "{}: {}", tag, mat.meta_data['Specification'])
    eps = any('eps' in str(s) for s in present)
    func = mat.get_permittivity if eps else mat.get_nk_data
    lam = np.array([.46, .5, .61, .74])
    low, high = 0.0, ref.INF
    want = np.zeros(4, complex)
    for which, s in enumerate(sets):
        for k, l in enumerate(lam):
            val, rng = part_value(s, float(l))
            want[k] += val * (1j if len(sets) == 2 and which == 1 else 1)
        low, high = max(low, rng[0]), min(high, rng[1])
    got = func(lam * 1e-6)
    c.check(ref.close(got, want, 1e-6, 1e-8), "{}: {} instead of {}", tag, got, want)
    for bad in (low * (1 - 1e-5), high * (1 + 1e-5)):
        try:
            func(bad * 1e-6)
        except ValueError:
            continue
        c.fail("{}: valid at {} um".format(tag, bad))
    func(np.array([low, high]) * 1e-6 * np.array([1 + 1e-9, 1 - 1e-9]))
    c.op(4)
    c.state(tag)
    c.outcome(style, len(present))


def combined(c):
    """index and permittivity in one file do not describe a material"""
    style = c.choose('style', ['package', 'rii'])
    reals = [r for r in REALS if r]
    imags = [i for i in IMAGS if i]
    sets = c.choose('data sets', [
        (r, i) for r in reals for i in imags
        if (r[1] == 'eps_r') != (i[1] == 'eps_i')] +
        [(a, b) for a in WHOLE for b in [('table', 'n'), ('table', 'k')]
         if a != ('table', 'nk')] +
        [(('table', 'nk'), b) for b in [('table', 'eps_i'), ('table', 'eps'),
                                        ('eps model', 'Drude')]] +
        [(('formula', 2), b) for b in [('table', 'eps'), ('eps model', 'Drude')]])
    if style == 'rii' and any(s[0] == 'eps model' for s in sets):
        c.prune()
    for order in (sets, sets[::-1]):
        path = put('c14c.yml', "DATA:\n" + "".join(
            dataset_text(s, style, True, False) for s in order))
        try:
            mat = Material(file_path=path)
            got = mat.get_nk_data(0.6e-6)
        except (ValueError, TypeError, KeyError):
            c.op()
            continue
        c.fail("{} read as a material, index {} at 600 nm".format(order, got))
    c.state(style, sets)
    c.outcome('refused')


OWN = {'none': (None, None), 'um': ('wavelength', 'um'), 'nm': ('wavelength', 'nm'),
       'eV': ('energy', 'eV'), '1/cm': ('WaveNumber', '1/cm'), 'only unit': (None, 'A'),
       'only type': ('wavelength', None)}


def mixed(c):
    """every data set has a type and unit of its own, else those of the caller"""
    caller = c.choose('caller', [('wavelength', 'um'), ('wavelength', 'nm'),
                                 ('energy', 'ev')])
    own = [c.choose('units of ' + p, list(OWN)) for p in ('real', 'imag')]
    kinds = c.choose('data sets', [('tabulated n', 'tabulated k'),
                                   ('constant n', 'tabulated k'),
                                   ('tabulated n', 'constant k'),
                                   ('constant eps_r', 'tabulated eps_i'),
                                   ('tabulated eps_r', 'tabulated eps_i'),
                                   ('formula 5', 'tabulated k'),
                                   ('formula 5', 'constant k'),
                                   ('tabulated n', 'tabulated k row')])
    swap = c.choose('order', ['as is', 'swapped'])
    spans = [(500e-9, 800e-9), (450e-9, 700e-9)]
    texts, ok, limits = [], True, []
    for part in range(2):
        ftype, funit = OWN[own[part]]
        tu = ((ftype or caller[0]).lower(), ref.CANON[(funit or caller[1]).lower()])
        kind = kinds[part]
        if tu not in ref.TU or (kind == 'formula 5' and
                                tu != ('wavelength', 'um')):
            ok = False
            tu = tu if tu in ref.TU else ('wavelength', 'um')
        ends = sorted(float(ref.from_m(tu, v)) for v in spans[part])
        if kind.endswith('row'):
            kind = kind[:-4]
            ends = [float(ref.from_m(tu, 600e-9))] * 2
        values = (1.5, 1.7) if part == 0 else (.1, .3)
        text = "  - DataType: {}\n".format(kind)
        if kind.startswith('tabulated'):
            # linear in the unit of the data set
            rows = [(x, v) for x, v in zip(ends, values)]
            if ends[0] == ends[1]:
                rows = rows[:1]
            text += "    Data: |\n" + "".join(
                "        {!r} {!r}\n".format(*r) for r in rows)
        elif kind.startswith('constant'):
            text += "    ValidRange: {!r} {!r}\n    Value: {!r}\n".format(
                ends[0], ends[1], values[0])
        else:
            text += ("    ValidRange: {!r} {!r}\n    Parameters: 1.5 0.01 -2\n"
                     .format(*ends))
        if ftype:
            text += "    SpectrumType: {}\n".format(ftype)
        if funit:
            text += "    Unit: {}\n".format(funit)
        texts.append(text)
        limits.append((tu, kind, ends, values))
    path = put('c14m.yml', "DATA:\n" + "".join(
        texts[::-1] if swap == 'swapped' else texts))
    tag = (caller, own, kinds, swap)
    try:
        mat = Material(file_path=path, spectrum_type=caller[0], unit=caller[1])
    except ValueError:
        mat = None
    c.op()
    c.check((mat is not None) == ok, "{}: {}", tag,
            "accepted" if mat is not None else "refused")
    c.outcome(ok, kinds)
    c.state(tag)
    if not ok:
        return
    func = mat.get_permittivity if 'eps' in kinds[0] else mat.get_nk_data
    points = [600e-9] if kinds[1].endswith('row') else [510e-9, 600e-9, 690e-9]
    for lam in points:
        want = []
        for tu, kind, ends, values in limits:
            if kind.startswith('tabulated') and ends[0] != ends[1]:
                want.append(ref.linear(ends, values, float(ref.from_m(tu, lam))))
            elif kind == 'formula 5':
                want.append(1.5 + .01 / (lam * 1e6) ** 2)
            else:
                want.append(values[0])
        got = func(lam)
        c.op()
        c.check(ref.close(got, complex(*want), 1e-6), "{}: {} instead of {} at {}",
                tag, got, want, lam)
    if len(points) == 3:
        func(np.array([500e-9 * (1 + 1e-8), 700e-9 * (1 - 1e-8)]))
        for bad in (499.9e-9, 700.1e-9):
            try:
                func(bad)
            except ValueError:
                continue
            c.fail("{}: valid at {}".format(tag, bad))


BROKEN = {
    'text.txt': ["", "0,4 1,5\n0,5 1,6\n", "1 2 3\n2 3 4 5\n", "# NAME: x\n", "1 2 3 4\n", "1\n2\n", "a b c\n",
                 "1 2 3\n4 5\n", "# DATATYPE: tabulated foo\n1 2 3\n2 3 4\n",
                 "# DATATYPE: tabulated\n1 2 3\n2 3 4\n",
                 "# DATATYPE: bogus nk\n1 2 3\n2 3 4\n",
                 "# UNIT: parsec\n1 2 3\n2 3 4\n",
                 "# SPECTRUMTYPE: colour\n1 2 3\n2 3 4\n",
                 "# UNIT: eV\n1 2 3\n2 3 4\n",
                 "# SPECTRUMTYPE: energy\n# UNIT: nm\n1 2 3\n2 3 4\n",
                 "# DATATYPE: tabulated nk\n1 2\n2 3\n", "1,2,3\n2,3,4\n",
                 "; NAME: x\n1 2 3\n2 3 4\n"],
    'text.csv': ["", "0,4 1,5\n0,5 1,6\n", "0,4;1,5\n0,5;1,6\n", "1 2 3\n4 5 6\n", "1;2;3\n2;3;4\n", "1,2,3,4\n2,3,4,5\n",
                 "1,2,3\n4,5\n", "# UNIT: x\n1,2\n2,3\n"],
    'text.nk': ["", "1,2,3\n2,3,4\n", "# NAME: x\n1 2 3\n", "1 2 3 4\n",
                "; UNIT: bar\n1 2 3\n"],
    'yaml.yml': ["", "just text\n",
                 "DATA:\n  - type: formula 5\n    wavelength_range: .4 .8\n"
                 "    coefficients: 1,5 0,01 -2\n    SpectrumType: wavelength\n"
                 "    Unit: um\n",
                 "DATA:\n  - type: formula 5\n    wavelength_range: 0,4 0,8\n"
                 "    coefficients: 1.5 0.01 -2\n    SpectrumType: wavelength\n"
                 "    Unit: um\n",
                 "DATA:\n  - type: tabulated n\n    data: |\n      0,4 1,5\n"
                 "      0,5 1,6\n",
                 "DATA:\n  - type: tabulated nk\n    data: |\n      1 2 3\n"
                 "      2 3\n",
                 "DATA:\n  - type: constant n\n    Value: 1,5\n",
                 "DATA:\n  - type: constant nk\n    Value: 1.5\n", "NAME: x\n", "DATA: 5\n",
                 "DATA:\n  - type: formula 10\n    wavelength_range: .4 .8\n"
                 "    coefficients: 1 2 3\n",
                 "DATA:\n  - type: formula 0\n    wavelength_range: .4 .8\n"
                 "    coefficients: 1 2 3\n",
                 "DATA:\n  - type: formula x\n    wavelength_range: .4 .8\n"
                 "    coefficients: 1 2 3\n",
                 "DATA:\n  - type: bogus n\n    data: 1 2\n",
                 "DATA:\n  - type: tabulated q\n    data: 1 2\n",
                 "DATA:\n  - type: tabulated n\n",
                 "DATA:\n  - data: |\n      1 2\n      2 3\n",
                 "DATA:\n  - type: tabulated n\n    data: a b\n",
                 "DATA:\n  - type: tabulated nk\n    data: |\n      1 2\n      2 3\n",
                 "DATA:\n  - type: formula 1\n    coefficients: 1 2 3\n",
                 "DATA:\n  - type: formula 1\n    wavelength_range: .4 .8\n",
                 "DATA:\n  - type: formula 1\n    wavelength_range: a b\n"
                 "    coefficients: 1 2 3\n    SpectrumType: wavelength\n"
                 "    Unit: um\n",
                 "DATA:\n  - DataType: model Bogus\n    ValidRange: .4 .8\n"
                 "    Parameters: 1 2 3\n",
                 "DATA:\n  - type: tabulated n\n    Unit: furlong\n"
                 "    data: |\n      1 2\n      2 3\n",
                 "DATA:\n  - type: tabulated n\n    SpectrumType: taste\n"
                 "    data: |\n      1 2\n      2 3\n",
                 "DATA: [\n"]}


def broken(c):
    """files that cannot be interpreted"""
    name = c.choose('file', list(BROKEN))
    for text in BROKEN[name]:
        path = put(name, text)
        try:
            mat = Material(file_path=path)
        except Exception:
            mat = None
        c.op()
        c.check(mat is None, "{} with {!r} was read", name, text)
        c.state(name, text)


SEED_SCRIPT = r'''
import json, os, sys, warnings
import pandas, matplotlib.pyplot, scipy.interpolate
sys.pycache_prefix = os.environ['MC_PYC']
warnings.simplefilter('ignore')
from dispersion import Material
out = []
for path in sys.argv[1:]:
    mat = Material(file_path=path)
    out.append([{k: str(v) for k, v in sorted(mat.meta_data.items())},
                [[v.real, v.imag] for v in mat.get_nk_data([4.5e-7, 6e-7])],
                list(map(float, mat.get_maximum_valid_range()))])
print(json.dumps(out))
'''


def hash_seeds(c):
    """the result does not depend on the order of sets"""
    seed = c.choose('PYTHONHASHSEED', list(range(40 if c.thorough else 8)))
    head = [('FullName', 'FULLNAME', 'Full'), ('Name', 'NAME', 'Nm'),
            ('Comment', 'COMMENTS', 'Cm'), ('Reference', 'REFERENCES', 'Rf'),
            ('Author', 'AUTHOR', 'Au'), (None, 'UNIT', 'nm'),
            (None, 'SPECTRUMTYPE', 'wavelength'), (None, 'DATATYPE', 'tabulated nk'),
            (None, 'VALIDRANGE', '400 700'), (None, 'YIELDS', 'nk')]
    rows = [(400., 1.5, .1), (500., 1.7, .3), (700., 1.6, .2)]
    paths = []
    for ext in EXT:
        paths.append(put('c14s' + ext, "".join(
            "{} {}: {}\n".format(MARK[ext], k, v) for _, k, v in head) +
            MARK[ext] + " free text\n" + rows_text(rows, SEP[ext])))
    text = "".join("{}: {}\n".format(k, v) for f, k, v in head if f)
    text += ("DATA:\n  - DataType: tabulated nk\n    SpectrumType: wavelength\n"
             "    Unit: nm\n    ValidRange: 400 700\n    Yields: nk\n    Data: |\n" +
             "".join("      " + l for l in rows_text(rows, ' ').splitlines(True)))
    paths.append(put('c14s.yml', "# free text\n" + text))
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    run = subprocess.run([sys.executable, '-c', SEED_SCRIPT] + paths, env=env,
                         capture_output=True, text=True, timeout=100)
    c.check(run.returncode == 0, "failed: {}", run.stderr[-600:])
    for path, (meta, nk, rng) in zip(paths, json.loads(run.stdout)):
        for field, _, val in head:
            if field:
                c.check(meta[field] == val, "{}: {} is {!r}", path, field,
                        meta[field])
        c.check(meta['MetaComment'].strip() == 'free text', "comment {!r}",
                meta['MetaComment'])
        c.check(ref.close(np.array(nk), [[1.6, .2], [1.65, .25]], 1e-8), "nk {}",
                nk)
        c.check(ref.close(rng, [400, 700]), "range {}", rng)
        c.op()
    c.state(seed)


SCENARIOS = {'headers': headers, 'fallbacks': fallbacks, 'comments': comments,
             'monotonic': monotonic, 'dense': dense, 'values': values, 'yaml metadata': yaml_meta,
             'datatypes': datatypes, 'datasets': datasets, 'combined': combined, 'mixed': mixed,
             'broken': broken, 'hash seeds': hash_seeds}

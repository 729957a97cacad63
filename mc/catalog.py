"""data base trees for the catalogue properties, with what each file means

nothing in here uses the code under test
"""
import json
import math
import os
import shutil
import numpy as np
from mc import ref

COLUMNS = ['Alias', 'Name', 'FullName', 'Author', 'Comment', 'Reference',
           'SpectrumType', 'Unit', 'SpectrumLowerBound', 'SpectrumUpperBound',
           'N_Reference', 'K_Reference', 'Path', 'Module']
TEXT = COLUMNS[:8] + ['Path', 'Module']
MARK = {'.txt': '#', '.csv': '#', '.nk': ';'}
SEP = {'.txt': '\t', '.csv': ',', '.nk': '\t'}
HEAD = {'Reference': 'REFERENCES', 'Comment': 'COMMENTS', 'Author': 'AUTHOR',
        'FullName': 'FULLNAME', 'Name': 'NAME'}


class File:
    """one data file: its text and what it means"""

    def __init__(self, name, rows=None, tu=None, kind='nk', model=None, meta=None,
                 style='package', constant=None):
        self.name = name
        self.rows = rows
        self.tu = tu
        self.kind = kind
        self.model = model
        self.meta = meta or {}
        self.style = style
        self.constant = constant        # value, lower and upper end, unit
        self.base, self.ext = os.path.splitext(name)

    def text(self):
        if self.ext in MARK:
            mark = MARK[self.ext]
            lines = ["{} {}: {}".format(mark, HEAD[k], v)
                     for k, v in self.meta.items()]
            if self.tu:
                lines += ["{} SPECTRUMTYPE: {}".format(mark, self.tu[0]),
                          "{} UNIT: {}".format(mark, self.tu[1])]
            if self.kind not in ('n', 'nk'):
                lines.append("{} DATATYPE: tabulated {}".format(mark, self.kind))
            lines += [SEP[self.ext].join(repr(float(v)) for v in row)
                      for row in self.rows]
            return "\n".join(lines) + "\n"
        text = "".join("{}: '{}'\n".format(HEAD[k], v.replace("'", "''"))
                       for k, v in self.meta.items()) + "DATA:\n"
        rii = self.style == 'rii'
        if self.model:
            name, low, high = self.model
            form = ('type: formula {}'.format(ref.MODELS_N.index(name) + 1) if rii
                    else 'DataType: model ' + name)
            text += "  - {}\n    {}: {!r} {!r}\n    {}: {}\n".format(
                form, 'wavelength_range' if rii else 'ValidRange', low, high,
                'coefficients' if rii else 'Parameters',
                " ".join(repr(v) for v in ref.TYPICAL[name]))
            if not rii:
                text += "    Yields: {}\n".format(
                    'eps' if name in ref.MODELS_EPS else 'n')
                text += "    SpectrumType: {}\n    Unit: {}\n".format(
                    *ref.model_tu(name))
        if self.constant:
            text += ("  - DataType: constant n\n    Value: {!r}\n    ValidRange: "
                     "{!r} {!r}\n    SpectrumType: {}\n    Unit: {}\n".format(
                         *self.constant))
        if self.rows:
            text += "  - {}: tabulated {}\n    {}: |\n{}".format(
                'type' if rii else 'DataType', self.kind,
                'data' if rii else 'Data',
                "".join("        " + " ".join(repr(float(v)) for v in row) + "\n"
                        for row in self.rows))
            if self.tu and not rii:
                text += "    SpectrumType: {}\n    Unit: {}\n".format(*self.tu)
        return text

    def units(self, default):
        return self.tu or default

    def bounds(self, default):
        """in metre"""
        low, high = 0.0, math.inf
        if self.model:
            ends = ref.to_m(ref.model_tu(self.model[0]), np.array(self.model[1:]))
            low, high = float(min(ends)), float(max(ends))
        if self.constant:
            ends = sorted(float(ref.to_m(self.constant[3:], v))
                          for v in self.constant[1:3])
            low, high = max(low, ends[0]), min(high, ends[1])
        if self.rows:
            ends = ref.to_m(self.units(default),
                            np.array([r[0] for r in self.rows], float))
            low, high = max(low, float(min(ends))), min(high, float(max(ends)))
        return low, high

    def index(self, metres, default):
        """refractive index or None outside the range; also whether the point
        is so close to an end that rounding decides"""
        low, high = self.bounds(default)
        if not low * (1 - 1e-9) <= metres <= high * (1 + 1e-9):
            return None
        value = 0j
        eps = self.kind.startswith('eps')
        if self.model:
            name = self.model[0]
            tu = ref.model_tu(name)
            value += ref.evaluate_formula(name, ref.TYPICAL[name],
                                          ref.from_m(tu, metres))
            eps = eps or name in ref.MODELS_EPS
        if self.constant:
            value += self.constant[0]
        if self.rows:
            rows = sorted(self.rows)
            xs = [float(r[0]) for r in rows]
            x = min(max(ref.from_m(self.units(default), metres), xs[0]), xs[-1])
            cols = [ref.linear(xs, [float(r[i]) for r in rows], x)
                    for i in range(1, len(rows[0]))]
            if self.kind in ('k', 'eps_i'):
                value += 1j * cols[0]
            elif self.kind == 'n_alpha':
                # table converted point by point, then linear
                kap = [float(r[2]) * ref.to_m(self.units(default), float(r[0]))
                       * 100 / (4 * math.pi) for r in rows]
                value += cols[0] + 1j * ref.linear(xs, kap, x)
            else:
                value += cols[0] + (1j * cols[1] if len(cols) > 1 else 0)
        return np.sqrt(complex(value)) if eps else value


def row(fil, module, default, path, ref_m, name=None, fullname=None, author=None):
    """expected row of the catalogue"""
    low, high = fil.bounds(default)
    ends = sorted([ref.from_m(default, low), ref.from_m(default, high)])
    index = fil.index(ref_m, default)
    index = complex(math.nan, math.nan) if index is None else index
    return {'Alias': '', 'Name': fil.base if name is None else name,
            'FullName': fil.meta.get('FullName', '') if fullname is None
            else fullname,
            'Author': fil.meta.get('Author', '') if author is None else author,
            'Comment': fil.meta.get('Comment', ''),
            'Reference': fil.meta.get('Reference', ''),
            'SpectrumType': 'wavelength', 'Unit': default[1],
            'SpectrumLowerBound': ends[0], 'SpectrumUpperBound': ends[1],
            'N_Reference': index.real, 'K_Reference': index.imag,
            'Path': path, 'Module': module}


def same_number(got, want, rel=1e-6, absolute=1e-7):
    got = float(got)
    if math.isnan(want) or math.isnan(got):
        return math.isnan(want) and math.isnan(got)
    if math.isinf(want) or math.isinf(got):
        return got == want
    return abs(got - want) <= rel * abs(want) + absolute


def same_row(got, want):
    """name of the first column that differs, or None"""
    for col in COLUMNS:
        if col in ('SpectrumType', 'Unit'):
            if ref.CANON.get(str(got[col]).lower(), str(got[col]).lower()) != \
                    ref.CANON.get(want[col], want[col]):
                return col
        elif col in TEXT:
            if not isinstance(got[col], str) or got[col] != want[col]:
                return col
        elif not same_number(got[col], want[col]):
            return col
    return None


def compare(c, frame, want, tag):
    """the data frame holds exactly the rows wanted, in any order"""
    c.check(sorted(frame.columns) == sorted(COLUMNS), "{}: columns {}", tag,
            list(frame.columns))
    c.check(list(frame.index) == list(range(len(frame))),
            "{}: row numbers {}", tag, list(frame.index))
    got, exp = {}, {}
    for _, line in frame.iterrows():
        got.setdefault((line['Module'], line['Path']), []).append(line)
    for line in want:
        exp.setdefault((line['Module'], line['Path']), []).append(line)
    for key, lines in exp.items():
        c.check(key in got, "{}: no row for {}", tag, key)
        left = list(got[key])
        for line in lines:
            # several pages of a library may share one file
            c.check(left, "{}: {} rows for {} instead of {}", tag, len(got[key]),
                    key, len(lines))
            left.sort(key=lambda r: same_row(r, line) is not None)
            bad = same_row(left[0], line)
            c.check(bad is None, "{}: {} of {} is {!r} instead of {!r}", tag, bad,
                    key, bad and left[0][bad], bad and line[bad])
            del left[0]
        c.check(not left, "{}: {} rows for {} instead of {}", tag, len(got[key]),
                key, len(lines))
    c.check(len(got) == len(exp), "{}: rows {} instead of {}", tag, sorted(got),
            sorted(exp))


NM = ('wavelength', 'nanometer')
UM = ('wavelength', 'micrometer')
ref.UNIT.setdefault(NM, ref.UNIT[('wavelength', 'nm')])
ref.UNIT.setdefault(UM, ref.UNIT[('wavelength', 'um')])
META = {'Reference': "A. B, J. Opt. 3: 4, \"q\" (2020)", 'Comment': 'c, d: e',
        'Author': 'O. Nother', 'FullName': "Full it's", 'Name': 'in file'}
USER = [
    File('nk.txt', [(400, 1.5, .1), (500, 1.8, .3), (800, 1.6, .2)], meta=META),
    File('n only.csv', [(500, 1.7), (700, 1.9)], kind='n'),
    File('energy.nk', [(1.5, 2.0, .1), (2.0, 2.5, .3), (3.0, 3.5, .2)],
         ('energy', 'ev'), meta={'Author': 'me'}),
    File('formula.yml', model=('Sellmeier', .4, 1.6), meta=META),
    File('form.k.yml', [(.5, .1), (.6, .3), (.9, .2)], ('wavelength', 'um'), 'k',
         model=('Cauchy', .45, .75)),
    File('eps.txt', [(.4, -2.5, .1), (.7, -1.8, .6)], ('wavelength', 'um'), 'eps'),
    File('drude.yml', model=('Drude', 1.0, 4.0), meta={'Reference': 'x'}),
    File('one.txt', [(632.8, 1.6, .2)], meta={'Comment': 'one row'}),
    File('down.csv', [(800, 1.6, .2), (500, 1.8, .3), (400, 1.5, .1)]),
    File('wn.txt', [(8000., 1.5, .1), (20000., 1.9, .3)], ('wavenumber', '1/cm')),
    File('hz.csv', [(4e14, 1.5, .1), (7e14, 1.9, .3)], ('frequency', 'hz'),
         'n_alpha'),
    File('table.yml', [(500, 1.5, .1), (650, 1.9, .3)], ('wavelength', 'nm')),
    File('.hidden.txt', [(450, 1.5, .1), (650, 1.9, .3)]),
    File('\u00b5 \u03b5,"q".txt', [(450, 1.4, .1), (650, 1.8, .3)]),
    File('many.dots.v1.csv', [(10.0, 1.4, .1), (650, 1.8, .3)]),
    File('_under.nk', [(450, 1.4, .1), (650, 1.8, .3)], meta={'Name': 'only name'}),
    File('nk.csv', [(450, 1.3, .1), (750, 1.7, .3)], meta={'FullName': 'only full'}),
    File('const.yml', constant=(1.25, 0.0, math.inf, 'wavelength', 'm')),
    File('const eV.yml', constant=(1.75, 0.0, math.inf, 'energy', 'ev')),
    File('half.yml', constant=(1.5, 2.0, math.inf, 'energy', 'ev'),
         meta={'Comment': 'ends at 2 eV'}),
    File('mixed.yml', [(.5, .1), (.6, .3), (.9, .2)], ('wavelength', 'um'), 'k',
         constant=(1.5, 1.6, 3.0, 'energy', 'ev')),
    File('gain.txt', [(400, 1.5, -.1), (500, 1.8, 0.0), (800, 1.6, -.2)]),
    File('gain eps.csv', [(400, 2.5, -.1), (800, 2.6, -.4)], kind='eps'),
]
#: files that are no data files, and folders
OTHER = {'readme.md': "text", 'image.png': "\x00", 'noext': "1 2 3\n",
         'old.txt.bak': "1 2 3\n", 'table.xls': "", 'note.yaml': "a: b\n",
         'script.py': "raise\n"}
RII = [
    File('Johnson.yml', [(.4, 1.5, .1), (.5, 1.8, .3), (.8, 1.6, .2)], UM, 'nk',
         meta={'Reference': 'P. B. Johnson', 'Comment': 'c1: c2'}, style='rii'),
    File('Malitson.yml', model=('Sellmeier', .3, 2.0), style='rii',
         meta={'Reference': 'Mal, "x"'}),
    File('Rakic.yml', [(.5, .1), (.6, .3), (.9, .2)], UM, 'k',
         model=('Polynomial', .45, .75), style='rii',
         meta={'Comment': 'only'}),
    File('n.yml', [(1.0, 1.5), (2.0, 1.7)], UM, 'n', style='rii'),
    File('gain.yml', [(.4, 1.5, -.1), (.8, 1.6, -.2)], UM, 'nk', style='rii'),
]


def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def write(folder, name, text):
    full = os.path.join(folder, name)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    with open(full, 'w', encoding='utf-8') as fpt:
        fpt.write(text)


def put_user(root, module, files, other=()):
    folder = os.path.join(root, module)
    os.makedirs(folder, exist_ok=True)
    for fil in files:
        write(folder, fil.name, fil.text())
    for name in other:
        write(folder, name, OTHER[name])


def put_rii(root, shelves, library='catalog-nk.yml', data='data-nk',
            missing=()):
    """shelves: list of lists of items; a book is (book, name, pages), a page is
    (page, File) and a divider a string; returns expected (book, name, page,
    file, path)"""
    base = os.path.join(root, 'RefractiveIndexInfo', 'database')
    os.makedirs(os.path.join(base, data), exist_ok=True)
    out = []
    lib = ""
    for i, shelf in enumerate(shelves):
        lib += ("- SHELF: shelf{0}\n  name: \"Shelf: {0}\"\n  content:{1}\n"
                .format(i, "" if shelf else " []"))
        for j, book in enumerate(shelf):
            if isinstance(book, str):
                lib += "    - DIVIDER: \"{}\"\n".format(book)
                continue
            lib += ("    - BOOK: {}\n      name: \"{}\"\n      content:{}\n"
                    .format(book[0], book[1], "" if book[2] else " []"))
            for k, page in enumerate(book[2]):
                if isinstance(page, str):
                    lib += "        - DIVIDER: \"{}\"\n".format(page)
                    continue
                rel = ("shelf{}/{}-{}/{}".format(i, book[0], j, page[1].name)
                       if len(page) == 2 else page[2])
                lib += ("        - PAGE: {}\n          name: \"P: {}\"\n"
                        "          data: {}\n".format(page[0], page[0], json.dumps(rel)))
                if (i, j, k) in missing:
                    continue
                write(os.path.join(base, data), rel, page[1].text())
                out.append((book[0], book[1], page[0], page[1],
                            os.path.join('database', data, rel)))
    for name in ([library] if isinstance(library, str) else library):
        write(base, name, lib)
    return out


def config(root, modules, ref_spec=(632.8, 'wavelength', 'nanometer'),
           name='catalogue.csv', interactive=False):
    return {'Path': root, 'File': name, 'Interactive': interactive,
            'WarnMissingPackages': False, 'Modules': modules,
            'ReferenceSpectrum': {'Value': ref_spec[0],
                                  'SpectrumType': ref_spec[1],
                                  'Unit': ref_spec[2]}}

"""C15: rebuilding the catalogue"""
import itertools
import os
import warnings
from dispersion import Catalogue
from mc import catalog, ref, subjects

BOUNDS = {'quick': "21 kinds of data file: all singles x 8 reference points x 2 "
                   "modules, all ordered pairs, all subsets of 4 files in 6 listing "
                   "orders, subsets of 7 foreign entries of size 0, 1, 2, 7; all libraries of 2 "
                   "shelves x 2 books x pages/dividers/missing files; 3 modules "
                   "on/off/absent x order x 12 rebuild selections x 2 rounds of "
                   "file changes",
          'thorough': "all ordered triples of files; all subsets of foreign entries; all 24 listing orders; 3 "
                      "rounds of file changes"}
ASSUMPTIONS = ["data files that exist can be read",
               "extensions are in lower case",
               "the order of rows is not specified"]
NM, UM = catalog.NM, catalog.UM
REFS = [(632.8, 'wavelength', 'nanometer'), (0.55, 'Wavelength', 'um'),
        (1.9, 'energy', 'eV'), (5e14, 'frequency', 'Hertz'),
        (15000.0, 'wavenumber', '1/cm'), (100.0, 'wavelength', 'micrometer'),
        (400.0, 'wavelength', 'nm'), (3e15, 'angularfrequency', 'rad/s')]


def ref_m(point):
    return ref.to_m((point[1].lower(), ref.CANON[point[2].lower()]), point[0])


class Listing:
    """directory listings in a chosen order"""

    def __init__(self, order):
        self.order = order
        self.real = (os.listdir, os.scandir)

    def sort(self, names):
        names = sorted(names)
        for _, i in sorted(zip(self.order, range(len(self.order))), reverse=True):
            if i < len(names):
                names.append(names.pop(i))
        return names

    def __enter__(self):
        real_list, real_scan = self.real
        os.listdir = lambda path='.': self.sort(real_list(path))

        def scan(path='.'):
            with real_scan(path) as entries:
                found = {e.name: e for e in entries}
            return _Scan(iter([found[n] for n in self.sort(found)]))
        os.scandir = scan
        return self

    def __exit__(self, *args):
        os.listdir, os.scandir = self.real


class _Scan:
    def __init__(self, entries):
        self.entries = entries

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass


def build(c, conf, rebuild, tag):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        cat = Catalogue(config=conf, rebuild=rebuild)
    c.op()
    return cat, caught


def user_rows(files, module, point):
    return [catalog.row(f, module, NM, f.name, ref_m(point)) for f in files]


def singles(c):
    """one file of each kind"""
    fil = c.choose('file', list(range(len(catalog.USER))))
    module = c.choose('module', ['UserData', 'Filmetrics'])
    fil = catalog.USER[fil]
    root = catalog.fresh(subjects.path('c15'))
    catalog.put_user(root, module, [fil])
    low, high = fil.bounds(NM)
    # reference points at and next to the ends of the range
    ends = [(w * 1e9, 'wavelength', 'nm') for w in
            (low * (1 + 1e-6), low * (1 - 1e-5), high * (1 - 1e-6),
             high * (1 + 1e-5)) if not (low == high and w not in
                                        (low * (1 - 1e-5), high * (1 + 1e-5)))]
    for point in REFS + ends:
        for how in ('All', module, [module]):
            conf = catalog.config(root, {module: True}, point)
            if how != 'All':
                catalog.write(root, 'catalogue.csv',
                              ",".join(catalog.COLUMNS) + "\n")
            cat, _ = build(c, conf, how, '')
            catalog.compare(c, cat.database, user_rows([fil], module, point),
                            (fil.name, point, how))
            c.state(fil.name, module, point, how)
        c.outcome(fil.index(ref_m(point), NM) is None)


def pairs(c):
    """several files, in every listing order"""
    first = c.choose('first', list(range(len(catalog.USER))))
    point = c.choose('reference', REFS[:3])
    rest = [i for i in range(len(catalog.USER)) if i != first]
    size = 3 if c.thorough else 2
    root = subjects.path('c15p')
    for tail in itertools.permutations(rest, size - 1):
        files = [catalog.USER[i] for i in (first,) + tail]
        catalog.fresh(root)
        catalog.put_user(root, 'UserData', files)
        rank = sorted(f.name for f in files)
        with Listing([[f.name for f in files].index(n) for n in rank]):
            cat, _ = build(c, catalog.config(root, {'UserData': True}, point),
                           'All', '')
        catalog.compare(c, cat.database, user_rows(files, 'UserData', point),
                        [f.name for f in files])
        c.state([f.name for f in files], point)


def subsets(c):
    """sets of files between other things"""
    pick = c.choose('files', [s for n in range(5) for s in
                              itertools.combinations(range(0, 12, 3), n)])
    other = c.choose('other files', [s for n in (range(8) if c.thorough else (0, 1, 2, 7))
                                     for s in itertools.combinations(catalog.OTHER, n)])
    module = c.choose('module', ['UserData', 'Filmetrics'])
    files = [catalog.USER[i] for i in pick]
    root = catalog.fresh(subjects.path('c15s'))
    catalog.put_user(root, module, files, other)
    for sub in ('sub', 'folder.txt', 'x.yml'):
        # folders are not part of the module
        catalog.write(os.path.join(root, module, sub), 'inner.txt', "1 2 3\n2 3 4\n")
    orders = list(itertools.permutations(range(3)))
    for order in orders if c.thorough or len(other) in (0, 7) else orders[:2]:
        with Listing(list(order) + [3, 4, 5]):
            cat, _ = build(c, catalog.config(root, {module: True}), 'All', '')
        catalog.compare(c, cat.database, user_rows(files, module, REFS[0]),
                        (pick, other, order))
    c.state(pick, other, module)
    c.outcome(len(files))


# ---------------------------------------------------------- refractiveindex.info
PAGES = [[], [0], ['div', 0], [0, 1], [1, 'div', 2], [3, 0], ['div'], [0, 0]]


def library(c):
    """all small libraries"""
    name = c.choose('library', ['catalog-nk.yml', 'library.yml',
                                ['catalog-nk.yml', 'library.yml']])
    data = c.choose('data folder', ['data', 'data-nk'])
    shape = c.choose('books', [(1,), (2,), (1, 1), (2, 1), ('div', 1),
                               (1, 'div', 1), (0, 2)])
    point = c.choose('reference', REFS[:3])
    first = c.choose('pages of first book', PAGES)
    root = subjects.path('c15r')
    for second in PAGES:
        for gone in ((), 'first', 'last', 'all'):
            books = iter([first, second] + [[0], [1]])
            shelves = []
            split = len(shape) > 1 and shape[1] == 1
            number = 0
            items = []
            for part in shape:
                if part == 'div':
                    items.append('Divider: x')
                    continue
                for _ in range(part):
                    pages = [p if p == 'div' else
                             ("Page{}-{}".format(i, catalog.RII[p].base),
                              catalog.RII[p] if i == 0 else
                              _renamed(catalog.RII[p], i))
                             for i, p in enumerate(next(books))]
                    items.append(("Book{}".format(number),
                                  "Full: {} (x, [y]) - z".format(number), pages))
                    number += 1
                if split:
                    shelves.append(items)
                    items = []
            shelves.append(items)
            shelves = [s for s in shelves if s]
            every = [(i, j, k) for i, s in enumerate(shelves)
                     for j, b in enumerate(s) if not isinstance(b, str)
                     for k, p in enumerate(b[2]) if not isinstance(p, str)]
            if gone and not every:
                continue
            missing = {'first': every[:1], 'last': every[-1:], 'all': every,
                       (): []}[gone]
            catalog.fresh(root)
            exp = catalog.put_rii(root, shelves, name, data, missing)
            conf = catalog.config(root, {'RefractiveIndexInfo': True}, point)
            cat, caught = build(c, conf, 'All', '')
            tag = (name, data, shape, first, second, gone)
            catalog.compare(c, cat.database, rii_rows(exp, point), tag)
            c.check(not missing or caught, "{}: no warning of missing files", tag)
            c.state(tag, point)
            c.outcome(len(exp))
            if not c.thorough and (shape != (2,) or point != REFS[0]):
                break


def _renamed(fil, number):
    out = catalog.File('{}-{}.yml'.format(fil.base, number), fil.rows, fil.tu,
                       fil.kind, fil.model, fil.meta, fil.style)
    return out


def rii_rows(found, point):
    return [catalog.row(f, 'RefractiveIndexInfo', UM, path, ref_m(point), book,
                        full, page) for book, full, page, f, path in found]


# --------------------------------------------------------------------- twins
def twins(c):
    """files and pages that differ in one respect only"""
    same = c.choose('what is the same', ['name', 'content', 'stem', 'both modules',
                                         'letter case', 'everything'])
    kind = c.choose('kind of file', [0, 1, 3, 6, 7, 17])
    how = c.choose('rebuild', ['All', ['UserData', 'Filmetrics'], 'U F U',
                                 'F U F'])
    fil = catalog.USER[kind]

    def named(name, source=fil):
        return catalog.File(name, source.rows, source.tu, source.kind, source.model,
                            source.meta, source.style, source.constant)
    other = catalog.USER[3 if fil.ext == '.yml' and kind != 3 else 17] \
        if fil.ext == '.yml' else catalog.USER[8 if fil.ext == '.csv' else 5]
    user, film = {'name': ([fil], [named(fil.name, other)]),
                  'content': ([fil, named('copy' + fil.ext)], []),
                  'stem': ([named('x.yml', catalog.USER[3]), named('x.txt',
                            catalog.USER[0]), named('x.csv', catalog.USER[1]),
                            named('x.nk', catalog.USER[2])], [named('x' + fil.ext)]),
                  'both modules': ([fil, other], [fil, other]),
                  'letter case': ([named('a' + fil.ext), named('A' + fil.ext)],
                                  [named('A' + fil.ext)]),
                  'everything': ([fil], [fil])}[same]
    root = catalog.fresh(subjects.path('c15t'))
    catalog.put_user(root, 'UserData', user)
    catalog.put_user(root, 'Filmetrics', film)
    conf = catalog.config(root, {'UserData': True, 'Filmetrics': True}, REFS[0])
    if how != 'All':
        catalog.write(root, 'catalogue.csv', ",".join(catalog.COLUMNS) + "\n")
    want = user_rows(user, 'UserData', REFS[0]) + user_rows(film, 'Filmetrics',
                                                            REFS[0])
    for part in ([{'U': 'UserData', 'F': 'Filmetrics'}[x] for x in how.split()]
                 if isinstance(how, str) and ' ' in how else [how]):
        cat, _ = build(c, conf, part, '')
        cat.save_to_file()
    for cat in (cat, Catalogue(config=conf)):
        catalog.compare(c, cat.database, want, (same, fil.name, how))
        for i, line in cat.database.iterrows():
            mat = cat.get_material(i)
            source = [f for f in (user if line.Module == 'UserData' else film)
                      if f.name == line.Path][0]
            low, high = source.bounds(NM)
            point = min(max(6e-7, low), high)
            got = mat.get_nk_data(point)
            c.check(ref.close(got, source.index(point, NM), 1e-6),
                    "{}: material of {} {} is {}", same, line.Module, line.Path, got)
    c.state(same, kind, str(how))


SHARED = "main/shared.yml"


def twin_pages(c):
    """pages, books and shelves that share a file or a name"""
    shape = c.choose('library', list(range(6)))
    fil = catalog.RII[c.choose('file', [0, 1, 2, 3, 4])]
    gone = c.choose('missing', [False, True])
    root = catalog.fresh(subjects.path('c15u'))
    one, two = ('P', fil, SHARED), ('Q', fil, SHARED)
    shelves = {0: [[('Ag', 'Silver', [one, two])]],
               1: [[('Ag', 'Silver', [one]), ('Au', 'Gold', [one])]],
               2: [[('Ag', 'Silver', [one])], [('Ag', 'Silver', [two])]],
               3: [[('Ag', 'Silver', [one]), ('Ag', 'Argentum', [one, two])]],
               4: [[('Ag', 'Silver', [('P', catalog.RII[0]), ('P', fil, SHARED)])]],
               5: [[('Ag', 'Silver', [one, one])], [('Ag', 'Silver', [one])]]}[shape]
    missing = [(0, 0, 0)] if gone and shape == 4 else []
    if gone and not missing:
        c.prune()
    found = catalog.put_rii(root, shelves, missing=missing)
    conf = catalog.config(root, {'RefractiveIndexInfo': True}, REFS[0])
    cat, _ = build(c, conf, 'All', '')
    cat.save_to_file()
    for cat in (cat, Catalogue(config=conf)):
        catalog.compare(c, cat.database, rii_rows(found, REFS[0]), (shape, fil.name))
    c.state(shape, fil.name, gone)


# ---------------------------------------------------------------- selections
MODULES = ['UserData', 'RefractiveIndexInfo', 'Filmetrics']
CHOICES = ['All'] + MODULES + [list(s) for n in (1, 2, 3) for s in
                               itertools.combinations(MODULES, n)]
STATES = [None, True, False]


class Tree:
    """files of all modules and their changes"""

    def __init__(self, root):
        self.root = catalog.fresh(root)
        self.point = REFS[0]
        self.user = {'UserData': [catalog.USER[0], catalog.USER[2],
                                  catalog.USER[16]],
                     'Filmetrics': [catalog.USER[1]]}
        self.shelf = [[('Ag', 'Silver', [('J', catalog.RII[0]),
                                         ('S', catalog.RII[3])]),
                       ('Au', 'Gold', [('R', catalog.RII[2])])]]
        self.write()

    def write(self):
        for module in MODULES:
            catalog.fresh(os.path.join(self.root, module))
        for module, files in self.user.items():
            catalog.put_user(self.root, module, files)
        self.found = catalog.put_rii(self.root, self.shelf)

    def rows(self, module):
        if module == 'RefractiveIndexInfo':
            return rii_rows(self.found, self.point)
        return user_rows(self.user[module], module, self.point)

    def change(self, what):
        """add, remove or alter a file of every module"""
        if what == 'add':
            self.user['UserData'].append(catalog.USER[3])
            self.user['Filmetrics'].append(catalog.USER[4])
            self.shelf[0].append(('SiO2', 'Glass', [('M', catalog.RII[1])]))
        elif what == 'remove':
            del self.user['UserData'][:1]
            del self.user['Filmetrics'][:1]
            del self.shelf[0][:1]
        elif what == 'empty':
            self.user = {'UserData': [], 'Filmetrics': []}
            self.shelf = [[('Ag', 'Silver', [])]]
        elif what == 'alter':
            self.user['UserData'][:1] = [_altered(catalog.USER[0])]
            self.user['Filmetrics'][:1] = [_altered(catalog.USER[1])]
            self.shelf[0][:1] = [('Ag', 'Silver!',
                                 [('J2', _altered(catalog.RII[0]))])]
        self.write()


def _altered(fil):
    rows = [tuple(v + 0.03125 for v in r) for r in fil.rows]
    return catalog.File(fil.name, rows, fil.tu, fil.kind, fil.model,
                        {'Reference': 'new', 'Author': 'new'}, fil.style)


def selection(c):
    """which modules are rebuilt, kept and dropped"""
    flags = c.choose('modules', [f for f in itertools.product(STATES, repeat=3)
                                 if c.thorough or True in f])
    reverse = c.choose('order of modules', [False, True])
    change = c.choose('change', ['alter', 'add', 'remove', 'empty', 'none'])
    alias = c.choose('aliases', [True, False] if c.thorough else
                     [change != 'none'])
    modules = {m: f for m, f in zip(MODULES, flags) if f is not None}
    if reverse:
        modules = dict(reversed(list(modules.items())))
    for how in CHOICES:
        tree = Tree(subjects.path('c15m'))
        conf = catalog.config(tree.root, {m: True for m in MODULES})
        cat, _ = build(c, conf, 'All', '')
        old = {m: tree.rows(m) for m in MODULES}
        if alias:
            for i in range(len(cat.database)):
                name = "al {}".format(i)
                cat.register_alias(i, name)
                key = (cat.database.Module[i], cat.database.Path[i])
                for line in sum(old.values(), []):
                    if (line['Module'], line['Path']) == key:
                        line['Alias'] = name
        cat.save_to_file()
        tree.change(change)
        step(c, tree, modules, how, old, (flags, reverse, change, alias, how))


def step(c, tree, modules, how, old, tag):
    """one rebuild; returns the catalogue and the rows expected"""
    conf = catalog.config(tree.root, modules)
    named = [how] if isinstance(how, str) else how
    wrong = [m for m in named if modules.get(m) is False]
    file = os.path.join(tree.root, 'catalogue.csv')
    with open(file, 'rb') as fpt:
        before = fpt.read()
    try:
        cat, _ = build(c, conf, how, tag)
    except ValueError:
        cat = None
    c.check((cat is None) == bool(wrong), "{}: {}", tag,
            "no error for a disabled module" if cat else "refused")
    with open(file, 'rb') as fpt:
        c.check(fpt.read() == before, "{}: the catalogue file changed", tag)
    c.state(tag)
    c.outcome(bool(wrong), len(modules))
    if cat is None:
        return None, None
    want = {}
    for module, enabled in modules.items():
        if enabled:
            want[module] = (tree.rows(module) if how == 'All' or module in named
                            else old.get(module, []))
    catalog.compare(c, cat.database, sum(want.values(), []), tag)
    return cat, want


def rounds(c):
    """file changes and rebuilds one after another"""
    depth = 3 if c.thorough else 2
    tree = Tree(subjects.path('c15n'))
    modules = {m: True for m in MODULES}
    old = {m: [] for m in MODULES}
    catalog.write(tree.root, 'catalogue.csv', ",".join(catalog.COLUMNS) + "\n")
    for i in range(depth):
        how = c.choose('rebuild {}'.format(i), CHOICES)
        cat, old = step(c, tree, modules, how, old, (i, how))
        if cat is None:
            return
        cat.save_to_file()
        again, _ = build(c, catalog.config(tree.root, modules), None, '')
        catalog.compare(c, again.database, sum(old.values(), []), 'reload')
        change = c.choose('change {}'.format(i), ['alter', 'add', 'remove',
                                                  'empty'])
        tree.change(change)


SCENARIOS = {'twins': twins, 'twin pages': twin_pages, 'singles': singles,
             'pairs': pairs, 'subsets': subsets,
             'library': library, 'selection': selection, 'rounds': rounds}

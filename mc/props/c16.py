"""C16: aliases, lookup, saving and loading the catalogue"""
import csv
import math
import os
import sys
import types
import warnings
import numpy as np
import pandas as pd
from dispersion import Catalogue
from mc import catalog, ref, subjects

BOUNDS = {'quick': "all histories of 4 operations out of 10 on 4-row catalogues "
                   "(all histories of 3 starting from a rebuilt one); 30 texts in "
                   "all 10 text columns and all pairs of texts; 10 x 10 numbers in "
                   "all 4 number columns; all subsets and orders of 4 rows; all "
                   "refusals in all alias states; all sequences of 3 out of 16 "
                   "edits of the data frame, handed back in 2 ways",
          'thorough': "histories of 5 operations, 4 edits; all pairs of texts in all pairs "
                      "of columns"}
ASSUMPTIONS = ["aliases are non-empty strings",
               "qgrid (not installed) is replaced by a stand-in"]
FILES = [('UserData', catalog.File('one.txt', [(400, 1.5, .1), (800, 1.7, .3)])),
         ('UserData', catalog.File('two.csv', [(1.5, 2.5, .1), (3.1, 2.7, .3)],
                                   ('energy', 'ev'))),
         ('Filmetrics', catalog.File('one.txt', [(400, 3.5, .2), (800, 3.7, .3)])),
         ('RefractiveIndexInfo',
          catalog.File('m.yml', [(.4, 4.5, .2), (.8, 4.7, .3)], catalog.UM,
                       style='rii'))]
MODULES = {m: True for m in ('UserData', 'Filmetrics', 'RefractiveIndexInfo')}


def default(module):
    return catalog.UM if module == 'RefractiveIndexInfo' else catalog.NM


def rows():
    out = []
    for i, (module, fil) in enumerate(FILES):
        path = (os.path.join('database', 'data-nk', 'shelf0', 'B-0', fil.name)
                if module == 'RefractiveIndexInfo' else fil.name)
        line = catalog.row(fil, module, default(module), path, 632.8e-9)
        if module == 'RefractiveIndexInfo':
            line.update(Name='B', FullName='Book', Author='P')
        out.append(line)
    return out


def write_tree(root):
    catalog.fresh(root)
    for module, fil in FILES[:3]:
        catalog.put_user(root, module, [fil])
    catalog.put_rii(root, [[('B', 'Book', [('P', FILES[3][1])])]])
    write_csv(root, rows())


def write_csv(root, lines):
    with open(os.path.join(root, 'catalogue.csv'), 'w', newline='',
              encoding='utf-8') as fpt:
        out = csv.writer(fpt)
        out.writerow(catalog.COLUMNS)
        for line in lines:
            out.writerow([line[col] for col in catalog.COLUMNS])


def identify(c, mat, line, tag):
    """mat is the material of the file of this row"""
    for module, fil in FILES:
        if module == line['Module'] and os.path.basename(line['Path']) == fil.name:
            break
    lam = np.array([450e-9, 600e-9, 750e-9])
    want = np.array([fil.index(w, default(module)) for w in lam])
    got = mat.get_nk_data(lam)
    c.check(ref.close(got, want, 1e-6), "{}: {} instead of {} for {}", tag, got,
            want, (line['Module'], line['Path']))


def frame_rows(frame):
    return [(label, dict(line)) for label, line in frame.iterrows()]


def same(c, frame, model, tag):
    """labels, order and content"""
    got = frame_rows(frame)
    c.check([g[0] for g in got] == [m[0] for m in model], "{}: rows {} instead of {}",
            tag, [g[0] for g in got], [m[0] for m in model])
    for (label, line), (_, want) in zip(got, model):
        bad = catalog.same_row(line, want)
        c.check(bad is None, "{}: {} of row {} is {!r} instead of {!r}", tag, bad,
                label, bad and line[bad], bad and want[bad])


def refused(func, *args):
    try:
        func(*args)
    except Exception:
        return True
    return False


def audit(c, cat, model, tag, lookups=True):
    """state and all lookups agree with the model"""
    same(c, cat.get_database(), model, tag)
    used = [line['Alias'] for _, line in model if line['Alias']]
    if not lookups:
        return
    for _, line in model:
        if line['Alias']:
            identify(c, cat.get_material(line['Alias']), line, (tag, 'alias'))
            c.op()
    for pos, (_, line) in enumerate(model):
        identify(c, cat.get_material(pos), line, (tag, 'row', pos))
        c.op()
    for name in ('a', 'b', 'A', 'c', 'one.txt', 'one', 'B', '0', 'nan', ' ', ''):
        if name not in used:
            c.check(refused(cat.get_material, name), "{}: {!r} found", tag, name)
    for bad in (len(model), len(model) + 7, 0.0, None, 1.5, ['a'], b'a'):
        c.check(refused(cat.get_material, bad), "{}: {!r} found", tag, bad)
    c.op(17)


OPS = ([('register', i, a) for i, a in ((0, 'a'), (0, 'b'), (2, 'a'), (2, 'b'),
                                         (3, 'a'))] +
       [('select', 1, 'a'), ('save',), ('reload',), ('sort',), ('filter',)])


def apply(c, cat, model, saved, op, root):
    """one operation on the catalogue and the model"""
    if op[0] in ('register', 'select'):
        frame = cat.get_database()
        label = op[1]
        known = [l for l, _ in model]
        if op[0] == 'select':
            # selected by path, as documented
            hit = [l for l, line in model if line['Path'] == 'two.csv']
            arg = frame[frame.Path == 'two.csv']
            label = hit[0] if hit else None
        else:
            arg = label
        owner = [l for l, line in model if line['Alias'] == op[2]]
        bad = label not in known or (owner and owner != [label])
        c.check(refused(cat.register_alias, arg, op[2]) == bool(bad),
                "{}: {}", op, "accepted" if bad else "refused")
        if not bad:
            dict(model)[label]['Alias'] = op[2]
    elif op[0] == 'save':
        cat.save_to_file()
        saved = [(i, dict(line)) for i, (_, line) in enumerate(model)]
    elif op[0] == 'reload':
        cat = Catalogue(config=catalog.config(root, dict(MODULES)))
        model = [(i, dict(line)) for i, line in saved]
    elif op[0] == 'sort':
        frame = cat.get_database()
        cat.set_database(frame.sort_values(['Path', 'Module'], ascending=False))
        model = sorted(model, key=lambda m: (m[1]['Path'], m[1]['Module']),
                       reverse=True)
    elif op[0] == 'filter':
        frame = cat.get_database()
        cat.set_database(frame[frame.Module != 'Filmetrics'])
        model = [m for m in model if m[1]['Module'] != 'Filmetrics']
    c.op()
    aliases = [line['Alias'] for line in
               (dict(r) for _, r in frame_rows(cat.get_database())) if line['Alias']]
    c.check(len(set(aliases)) == len(aliases), "{}: aliases {}", op, aliases)
    return cat, model, saved


def histories(c):
    """all sequences of operations"""
    start = c.choose('start', ['file', 'rebuilt'])
    depth = (5 if c.thorough else 4) - (start == 'rebuilt')
    root = subjects.path('c16')
    if not os.path.isdir(root):
        write_tree(root)
    write_csv(root, rows())
    saved = list(enumerate(rows()))
    if start == 'file':
        cat = Catalogue(config=catalog.config(root, dict(MODULES)))
        model = list(enumerate(rows()))
    else:
        cat = Catalogue(config=catalog.config(root, dict(MODULES)), rebuild='All')
        by_path = {(r['Module'], r['Path']): r for r in rows()}
        model = [(l, by_path[line['Module'], line['Path']])
                 for l, line in frame_rows(cat.get_database())]
    done = []
    for i in range(depth):
        op = c.choose('op {}'.format(i), OPS)
        done.append(op)
        cat, model, saved = apply(c, cat, model, saved, op, root)
        audit(c, cat, model, done, lookups=i == depth - 1)
        c.state([(l, line['Alias']) for l, line in model],
                [line['Alias'] for _, line in saved])
    c.outcome(len(model), sum(1 for _, line in model if line['Alias']))


TEXTS = ['', 'a', ' a', 'a ', ' ', 'x,y', 'q"uote', '""', '"', "'", 'line\nbreak',
         'cr\rx', 'crlf\r\nx', 'tab\tx', 'nan', 'NaN', 'NA', 'N/A', 'null', 'None',
         '1', '1.50', '1e5', '007', 'True', '#hash', '\u00b5\u03b5\u4e2d', 'a;b',
         'back\\slash', '-', 'inf', '=1+1', '\u00a0', 'x' * 300]
NUMBERS = [0.0, 1.0, 0.1 + 0.2, 1e-300, 123456789.123456789, 2.5e17, 1 / 3,
           632.8, 1e-7, 700.0]


def round_trip(c, root, frame, tag):
    cat = Catalogue(config=catalog.config(root, dict(MODULES)))
    cat.set_database(frame)
    want = frame_rows(frame)
    cat.save_to_file()
    again = Catalogue(config=catalog.config(root, dict(MODULES)))
    got = frame_rows(again.get_database())
    c.op(2)
    c.check(len(got) == len(want), "{}: {} rows instead of {}", tag, len(got),
            len(want))
    c.check(list(again.get_database().columns) == catalog.COLUMNS,
            "{}: columns {}", tag, list(again.get_database().columns))
    for (_, line), (_, exp) in zip(got, want):
        for col in catalog.COLUMNS:
            if col in catalog.TEXT:
                c.check(line[col] == exp[col] and isinstance(line[col], str),
                        "{}: {} is {!r} instead of {!r}", tag, col, line[col],
                        exp[col])
            else:
                c.check(catalog.same_number(line[col], exp[col], 1e-12, 0.0),
                        "{}: {} is {!r} instead of {!r}", tag, col, line[col],
                        exp[col])
    return again


def prepared():
    root = subjects.path('c16t')
    if not os.path.isdir(root):
        write_tree(root)
    write_csv(root, rows())
    return root


def texts(c):
    """saving and loading of any text"""
    first = c.choose('text', TEXTS)
    column = c.choose('column', catalog.TEXT)
    others = [x for x in catalog.TEXT if x != column]
    root = prepared()
    at = catalog.TEXT.index(column)
    for n, second in enumerate(TEXTS):
        for other in (others if c.thorough else [others[(n + at) % len(others)]]):
            lines = rows()
            lines[1][column] = first
            lines[2][other] = second
            lines[2][column] = second
            if column == 'Alias' and first == second:
                lines[2][column] = second and second + '2'  # unique, always
            frame = pd.DataFrame(lines, columns=catalog.COLUMNS)
            round_trip(c, root, frame, (first, column, second, other))
            c.state(first, column, second, other)


def numbers(c):
    """saving and loading of any number"""
    first = c.choose('number', NUMBERS + [math.inf, math.nan])
    column = c.choose('column', [x for x in catalog.COLUMNS
                                 if x not in catalog.TEXT])
    bound = 'Bound' in column
    if bound and first != first or not bound and first == math.inf:
        c.prune()
    root = prepared()
    for second in NUMBERS + [math.inf if bound else math.nan]:
        lines = rows()
        for i, line in enumerate(lines):
            line[column] = second if i % 2 else first
        if bound and c.choices:
            lines[0]['N_Reference'] = math.nan
        frame = pd.DataFrame(lines, columns=catalog.COLUMNS)
        round_trip(c, root, frame, (first, column, second))
        c.state(first, column, second)


def shapes(c):
    """any number and order of rows"""
    import itertools
    pick = c.choose('rows', [p for n in range(5) for p in
                             itertools.permutations(range(4), n)])
    root = prepared()
    frame = pd.DataFrame(rows(), columns=catalog.COLUMNS)
    frame = frame.iloc[list(pick)]
    again = round_trip(c, root, frame, pick)
    for pos, i in enumerate(pick):
        identify(c, again.get_material(pos), rows()[i], (pick, pos))
        c.op()
    c.check(list(again.get_database().index) == list(range(len(pick))), "labels")
    # other file names next to it are left alone
    c.check(sorted(x for x in os.listdir(root)) ==
            sorted(list(MODULES) + ['catalogue.csv']), "files {}", os.listdir(root))
    c.state(pick)


NAMES = ['a', 'A', 'b', ' a', '1', '0', 'nan', 'x,y', 'q"', 'new\nline',
         '\u03bc', 'None', 'a b']


def names(c):
    """aliases of any text: registration, uniqueness, saving, lookup"""
    first = c.choose('first alias', NAMES)
    second = c.choose('second alias', NAMES)
    how = c.choose('row given as', ['number', 'selection'])
    move = c.choose('then', ['same row again', 'other row', 'rename', 'swap'])
    root = prepared()
    cat = Catalogue(config=catalog.config(root, dict(MODULES)))
    model = list(enumerate(rows()))

    def register(label, alias):
        arg = label
        if how == 'selection':
            arg = cat.get_database().loc[[label]]
        owner = [l for l, line in model if line['Alias'] == alias]
        bad = bool(owner) and owner != [label]
        c.check(refused(cat.register_alias, arg, alias) == bad,
                "alias {!r} for row {} {}", alias, label,
                'accepted' if bad else 'refused')
        if not bad:
            model[label][1]['Alias'] = alias
        same(c, cat.get_database(), model, (label, alias))
        c.op()
    register(0, first)
    register(1, second)
    if move == 'same row again':
        register(0, first)
        register(1, second)
    elif move == 'other row':
        register(2, first)
        register(3, second)
    elif move == 'rename':
        register(0, second)
        register(2, first)
    else:
        register(0, 'tmp')
        register(1, first)
        register(0, second)
    for when in ('before', 'after saving'):
        for _, line in model:
            if line['Alias']:
                identify(c, cat.get_material(line['Alias']), line,
                         (when, line['Alias']))
                c.op()
        for name in NAMES:
            if name not in [line['Alias'] for _, line in model]:
                c.check(refused(cat.get_material, name), "{!r} found", name)
        if when == 'before':
            cat.save_to_file()
            cat = Catalogue(config=catalog.config(root, dict(MODULES)))
            same(c, cat.get_database(), model, 'reloaded')
    c.state([line['Alias'] for _, line in model], how, move)
    c.outcome(first == second, move)


WRONG = ['none', 'two', 'text', 'float', 'None', 'list', 'beyond', 'far', 'series']


def refusals(c):
    """refused registrations change nothing"""
    state = c.choose('aliases', [(x, y) for x in ('', 'a', 'b') for y in
                                 ('', 'b', 'c') if x != y or not x])
    kind = c.choose('row', WRONG)
    alias = c.choose('alias', ['a', 'b', 'new'])
    root = prepared()
    lines = rows()
    lines[0]['Alias'], lines[2]['Alias'] = state
    write_csv(root, lines)
    cat = Catalogue(config=catalog.config(root, dict(MODULES)))
    frame = cat.get_database()
    arg = {'none': frame[frame.Name == 'no such'], 'two': frame[frame.Name == 'one'],
           'text': 'one', 'float': 1.0, 'None': None, 'list': [1], 'beyond': 4,
           'far': 10**6, 'series': frame.Name}[kind]
    c.check(refused(cat.register_alias, arg, alias), "{} accepted", kind)
    c.op()
    same(c, cat.get_database(), list(enumerate(lines)), kind)
    cat.save_to_file()
    again = Catalogue(config=catalog.config(root, dict(MODULES)))
    same(c, again.get_database(), list(enumerate(lines)), (kind, 'saved'))
    c.state(state, kind, alias)


class Widget:
    """stand-in of a qgrid widget"""

    def __init__(self, frame, show_toolbar=None, precision=None, grid_options=None,
                 **_):
        self.frame = frame.copy()
        self.editable = (grid_options or {}).get('editable')

    def get_changed_df(self):
        return self.frame.copy()


def interactive(c):
    """editing with a widget"""
    on = c.choose('Interactive', [True, False])
    present = c.choose('qgrid installed', [True, False])
    ops = [c.choose('op {}'.format(i), ['view', 'edit', 'change', 'take', 'save',
                                        'reload'])
           for i in range(4 if c.thorough else 3)]
    root = prepared()
    old = sys.modules.get('qgrid')
    if present:
        module = types.ModuleType('qgrid')
        module.show_grid = Widget
        sys.modules['qgrid'] = module
    else:
        sys.modules['qgrid'] = None

    def undo():
        sys.modules.pop('qgrid', None)
        if old is not None:
            sys.modules['qgrid'] = old
    c.cleanup.append(undo)
    conf = catalog.config(root, dict(MODULES), interactive=on)
    if on and not present:
        c.check(refused(Catalogue, conf), "interactive without qgrid")
        c.op()
        return
    cat = Catalogue(config=conf)
    model, saved, edited, widget = rows(), rows(), None, None
    for i, op in enumerate(ops):
        if op in ('view', 'edit', 'take') and not on:
            func = {'view': cat.view_interactive, 'edit': cat.edit_interactive,
                    'take': cat.save_interactive}[op]
            c.check(refused(func), "{} although disabled", op)
        elif op in ('view', 'edit'):
            widget = getattr(cat, op + '_interactive')()
            c.check(isinstance(widget, Widget) and
                    bool(widget.editable) == (op == 'edit'), "widget of {}", op)
            same(c, widget.frame, list(enumerate(model)), op)
            edited = [dict(line) for line in model]
        elif op == 'change':
            if widget is None:
                c.prune()
            widget.frame.at[i, 'Alias'] = 'w{}'.format(i)
            edited[i]['Alias'] = 'w{}'.format(i)
        elif op == 'take':
            if widget is None:
                c.prune()
            cat.save_interactive()
            model = [dict(line) for line in edited]
        elif op == 'save':
            cat.save_to_file()
            saved = [dict(line) for line in model]
        elif op == 'reload':
            cat = Catalogue(config=conf)
            model, widget = [dict(line) for line in saved], None
        c.op()
        same(c, cat.get_database(), list(enumerate(model)), ops[:i + 1])
    for pos, line in enumerate(model):
        if line['Alias']:
            identify(c, cat.get_material(line['Alias']), line, ops)
    c.state(on, ops)


EDITS = ['alias a', 'alias b', 'clear', 'move', 'twice', 'copy row', 'copy aliased',
         'remove', 'remove first', 'reverse', 'same row twice', 'case', 'blank']


def edit_frame(frame, lines, what):
    """one change of the data frame and of the list of rows; lines is changed"""
    def put(pos, alias):
        frame.iloc[pos, list(frame.columns).index('Alias')] = alias
        lines[pos]['Alias'] = alias
    last = len(lines) - 1
    if what == 'alias a':
        put(0, 'a')
    elif what == 'alias b':
        put(last, 'b')
    elif what == 'clear':
        put(0, '')
    elif what == 'move':
        put(last, lines[0]['Alias'])
        put(0, '')
    elif what == 'twice':
        put(last, 'a')
    elif what == 'case':
        put(1 if last else 0, 'A')
    elif what == 'blank':
        put(last, 'a ')
    elif what in ('copy row', 'copy aliased', 'same row twice'):
        # as the button of a widget that adds a row
        pos = 0 if what == 'copy aliased' else last
        times = 2 if what == 'same row twice' else 1
        frame = pd.concat([frame] + [frame.iloc[[pos]]] * times, ignore_index=True)
        lines.extend(dict(lines[pos]) for _ in range(times))
    elif what == 'remove':
        frame, lines[:] = frame.iloc[:last], lines[:last]
    elif what == 'remove first':
        frame, lines[:] = frame.iloc[1:], lines[1:]
    elif what == 'reverse':
        frame, lines[:] = frame.iloc[::-1], lines[::-1]
    return frame.reset_index(drop=True), lines


def edits(c):
    """the data frame edited and handed back"""
    how = c.choose('handed back', ['set_database', 'interactive'])
    ops = [c.choose('op {}'.format(i), EDITS + ['save', 'reload', 'register'])
           for i in range(4 if c.thorough else 3)]
    root = prepared()
    old = sys.modules.get('qgrid')
    module = types.ModuleType('qgrid')
    module.show_grid = Widget
    sys.modules['qgrid'] = module

    def undo():
        sys.modules.pop('qgrid', None)
        if old is not None:
            sys.modules['qgrid'] = old
    c.cleanup.append(undo)
    conf = catalog.config(root, dict(MODULES), interactive=how == 'interactive')
    cat = Catalogue(config=conf)
    model, saved = rows(), rows()
    for i, op in enumerate(ops):
        tag = ops[:i + 1]
        if op == 'save':
            cat.save_to_file()
            saved = [dict(line) for line in model]
        elif op == 'reload':
            cat = Catalogue(config=conf)
            model = [dict(line) for line in saved]
        elif op == 'register':
            bad = len(model) < 2 or any(line['Alias'] == 'b' for n, line in
                                        enumerate(model) if n != 1)
            c.check(refused(cat.register_alias, 1, 'b') == bad, "{}: {}", tag,
                    "accepted" if bad else "refused")
            if not bad:
                model[1]['Alias'] = 'b'
        else:
            if not model:
                c.prune()
            if how == 'interactive':
                cat.edit_interactive()
                frame, lines = edit_frame(cat.qgrid_widget.frame,
                                          [dict(line) for line in model], op)
                cat.qgrid_widget.frame = frame

                def hand(cat=cat):
                    cat.save_interactive()
            else:
                frame, lines = edit_frame(cat.get_database().copy(),
                                          [dict(line) for line in model], op)

                def hand(cat=cat, frame=frame):
                    cat.set_database(frame)
            names = [line['Alias'] for line in lines if line['Alias']]
            bad = len(set(names)) < len(names)
            c.check(refused(hand) == bad, "{}: {} with aliases {}", tag,
                    "accepted" if bad else "refused", names)
            if not bad:
                model = lines
            c.outcome(op, bad)
        c.op()
        audit(c, cat, list(enumerate(model)), tag, i == len(ops) - 1)
    c.state(how, ops)


def repeated(c):
    """frames whose row labels are not unique, as two frames put together"""
    labels = [c.choose('label {}'.format(i), [0, 1, 2]) for i in range(4)]
    owner = c.choose('row with alias', [None, 0, 1, 2, 3])
    root = prepared()

    def start():
        lines = rows()
        if owner is not None:
            lines[owner]['Alias'] = 'a'
        frame = pd.DataFrame(lines, columns=catalog.COLUMNS)
        frame.index = labels
        cat = Catalogue(config=catalog.config(root, dict(MODULES)))
        cat.set_database(frame)
        return cat, lines
    for kind in ('label', 'slice'):
        for pos in range(4):
            cat, lines = start()
            for i, line in enumerate(lines):
                identify(c, cat.get_material(i), line, (labels, i))
            if owner is not None:
                identify(c, cat.get_material('a'), lines[owner], (labels, 'a'))
            key = labels[pos] if kind == 'label' else cat.get_database().iloc[[pos]]
            bad = labels.count(labels[pos]) > 1
            c.check(refused(cat.register_alias, key, 'z') == bad, "{} {}: {}",
                    labels, pos, 'accepted' if bad else 'refused')
            if not bad:
                lines[pos]['Alias'] = 'z'
                identify(c, cat.get_material('z'), lines[pos], (labels, 'z'))
            c.check([line['Alias'] for _, line in frame_rows(cat.get_database())] ==
                    [line['Alias'] for line in lines], "{} {}: aliases {}", labels,
                    pos, list(cat.get_database().Alias))
            cat.save_to_file()
            cat = Catalogue(config=catalog.config(root, dict(MODULES)))
            same(c, cat.get_database(), list(enumerate(lines)), (labels, pos))
            c.op(8)
    c.state(labels, owner)


def no_alias(c):
    """frames whose rows lack an alias in different ways"""
    marks = [c.choose('alias {}'.format(i), ['', np.nan, None, 'a', 'b'])
             for i in range(4)]
    root = prepared()
    lines = rows()
    for line, mark in zip(lines, marks):
        line['Alias'] = mark if mark in ('a', 'b') else ''
    frame = pd.DataFrame(lines, columns=catalog.COLUMNS)
    frame['Alias'] = pd.Series(marks, dtype=object)
    cat = Catalogue(config=catalog.config(root, dict(MODULES)))
    bad = marks.count('a') > 1 or marks.count('b') > 1
    c.check(refused(cat.set_database, frame) == bad, "{}: {}", marks,
            'accepted' if bad else 'refused')
    if bad:
        return
    for i, line in enumerate(lines):
        identify(c, cat.get_material(i), line, (marks, i))
        if line['Alias']:
            identify(c, cat.get_material(line['Alias']), line, (marks, line['Alias']))
    for name in ('', 'nan', 'None'):
        c.check(refused(cat.get_material, name), "{}: material {!r}", marks, name)
    free = [i for i, line in enumerate(lines) if not line['Alias']]
    for i in free[:1] + free[-1:]:
        c.check(not refused(cat.register_alias, i, 'row {}'.format(i)),
                "{}: refused for row {}", marks, i)
        lines[i]['Alias'] = 'row {}'.format(i)
        identify(c, cat.get_material('row {}'.format(i)), lines[i], (marks, i))
    cat.save_to_file()
    cat = Catalogue(config=catalog.config(root, dict(MODULES)))
    same(c, cat.get_database(), list(enumerate(lines)), marks)
    c.op(12)
    c.state([str(m) for m in marks])


ODD = ['..odd', '-x', '~', '~root', '$HOME', '%20', '*?[a]', 'tab\tx',
       "quote'", 'new\nline', ' lead', 'nan', '1', '\u00b5', 'a.txt', 'x' * 200]


def every_file(c):
    """files of every kind and of unusual names are found from their rows"""
    where = c.choose('module', ['UserData', 'Filmetrics', 'RefractiveIndexInfo'])
    what = c.choose('file', ['kinds'] + ODD)
    how = c.choose('catalogue', ['rebuilt', 'saved'])
    root = catalog.fresh(subjects.path('c16e'))
    if where == 'RefractiveIndexInfo':
        files = [f for f in catalog.RII if f.index(f.bounds(catalog.UM)[0],
                                                   catalog.UM) is not None]
    else:
        files = list(catalog.USER)
    if what != 'kinds':
        files = [catalog.File(what + f.ext, f.rows, f.tu, f.kind, f.model, f.meta,
                              f.style, f.constant)
                 for f in {f.ext: f for f in files}.values()]
    if where == 'RefractiveIndexInfo':
        found = catalog.put_rii(root, [[('B', 'Book', [
            ('P{}'.format(i), f) for i, f in enumerate(files)])]])
        source = {path: f for _, _, _, f, path in found}
    else:
        catalog.put_user(root, where, files)
        source = {f.name: f for f in files}
    conf = catalog.config(root, {where: True})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cat = Catalogue(config=conf, rebuild='All')
    c.op()
    for i in range(len(cat.get_database())):
        cat.register_alias(i, 'alias {}'.format(i))
    if how == 'saved':
        cat.save_to_file()
        cat = Catalogue(config=conf)
    c.check(sorted(cat.get_database().Path) == sorted(source), "rows {}",
            list(cat.get_database().Path))
    for i, line in cat.get_database().iterrows():
        fil = source[line.Path]
        low, high = fil.bounds(default(where))
        for point in (low, high, math.sqrt(low * high)):
            if not 1e-9 < point < 1e-2:
                continue
            point = min(max(point, low * (1 + 1e-9)), high * (1 - 1e-9))
            if low == high:
                point = low
            want = fil.index(point, default(where))
            for key in (i, 'alias {}'.format(i)):
                got = cat.get_material(key).get_nk_data(point)
                c.op()
                c.check(ref.close(got, want, 1e-5), "{} {}: {} instead of {} at {}",
                        where, line.Path, got, want, point)
        c.state(where, line.Path, how)


SCENARIOS = {'histories': histories, 'texts': texts, 'numbers': numbers,
             'shapes': shapes, 'names': names, 'refusals': refusals,
             'interactive': interactive, 'edits': edits,
             'every file': every_file, 'repeated labels': repeated,
             'rows without alias': no_alias}

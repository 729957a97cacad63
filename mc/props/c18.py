"""C18: the setup and rebuild dialogues"""
import builtins
import os
import sys
import types
import warnings
import numpy as np
import yaml
import dispersion
from dispersion import Catalogue, Material
from dispersion.scripts import catalogue_rebuild, setup_dispersion
from mc import catalog, ref, subjects

BOUNDS = {'quick': "all answer sequences with at most 1 unusual answer (other "
                   "spelling, invalid, denied, end of input) for 10 prior states, "
                   "at most 2 for a fresh one; rebuild dialogue: all sequences of "
                   "3 answers out of 11 x 4 prior states",
          'thorough': "2 unusual answers for all prior states, 3 for a fresh one; "
                      "sequences of 5"}
ASSUMPTIONS = ["the download is a stand-in that records the request and lays down "
               "a small database", "a database downloaded without error has its "
               "library"]
LIB = [[('Ag', 'Silver', [('J', catalog.RII[0])]),
        ('Au', 'Gold', [('R', catalog.RII[2])])]]
OWN = catalog.USER[0]


class Asked(Exception):
    """a question that should not come"""


class Console:
    """answers from the explorer, following the dialogue the user is in"""

    def __init__(self, c, model, limit):
        self.c = c
        self.model = model
        self.limit = limit
        self.count = 0

    def __call__(self, prompt=''):
        self.count += 1
        if self.model.state is None or self.count > 40:
            raise Asked("one more question: {!r} after {}".format(
                prompt, self.model.log))
        usual, unusual = self.model.options()
        options = usual + (unusual if self.limit > 0 else [])
        answer = self.c.choose(self.model.state, options)
        if answer in unusual:
            self.limit -= 1
        self.c.op()
        self.model.log.append(answer)
        if answer is EOF:
            self.model.ended = True
            raise EOFError()
        self.model.take(answer)
        return answer


class _Eof:
    def __repr__(self):
        return 'end of input'


EOF = _Eof()
UNCLEAR = ['', 'Y', 'maybe', ' y', 'yn', '1']
YES, NO = ('y', 'yes'), ('n', 'no')


class Setup:
    """model of the setup dialogue"""

    def __init__(self, default, other, prior, small):
        self.small = small
        self.state = 'root'
        self.log = []
        self.ended = False
        self.default = default
        self.other = other
        self.root = None
        self.file = None
        self.rii = None
        self.download = False
        self.rebuild = None
        self.prior = prior

    def options(self):
        usual, unusual = self.all_options()
        if self.small and self.state in ('root', 'file'):
            return usual[:1], unusual[:3] + [EOF]
        if self.small:
            return usual, unusual[:-4] + [EOF]
        return usual, unusual

    def all_options(self):
        if self.state == 'root':
            return (['', self.other],
                    ['relative/path', self.default, '.', '~/x', ' ', 'y'] +
                    ([self.other + ' '] if self.prior == 'fresh' else []) + [EOF])
        if self.state == 'file':
            return (['', 'my cat.csv'],
                    ['sub/x.csv', 'c.txt', '..', '/abs.csv', '.', 'x/', ' x y.csv ', EOF])
        if self.state.startswith('confirm'):
            return ['y'], ['n', 'yes', 'no'] + UNCLEAR + [EOF]
        return ['y', 'n'], ['yes', 'no'] + UNCLEAR + [EOF]

    def take(self, answer):
        if self.state == 'root':
            value = answer or self.default
            if os.path.isabs(value):
                self.value, self.state = value, 'confirm root'
        elif self.state == 'file':
            value = answer or 'catalogue.csv'
            if '/' not in value and value not in ('.', '..'):
                self.value, self.state = value, 'confirm file'
        elif answer not in YES + NO:
            return
        elif self.state == 'confirm root':
            if answer in YES:
                self.root, self.state = self.value, 'file'
            else:
                self.state = 'root'
        elif self.state == 'confirm file':
            if answer in YES:
                self.file, self.state = self.value, 'install'
            else:
                self.state = 'file'
        elif self.state == 'install':
            self.rii = answer in YES
            self.state = 'download' if self.rii else 'rebuild'
        elif self.state == 'download':
            self.download = answer in YES
            self.state = 'rebuild'
        elif self.state == 'rebuild':
            self.rebuild = answer in YES
            self.state = None


PRIOR = ['fresh', 'root exists', 'own data', 'config', 'catalogue', 'library',
         'old library', 'empty database', 'no library', 'library folder',
         'everything']


def lay(root, home, prior):
    """prior state of the folders; returns rows expected of the library"""
    if prior == 'fresh':
        return None
    os.makedirs(root, exist_ok=True)
    if prior in ('own data', 'everything'):
        catalog.put_user(root, 'UserData', [OWN], ['readme.md'])
    if prior in ('config', 'everything'):
        catalog.write(os.path.join(home, '.config', 'dispersion'), 'config.yaml',
                      "Path: /nowhere\nFile: old.csv\n")
    if prior in ('catalogue', 'everything'):
        for name in ('catalogue.csv', 'my cat.csv', 'c.txt'):
            catalog.write(root, name, "old content\n")
    if prior in ('library', 'everything'):
        return catalog.put_rii(root, LIB)
    if prior == 'old library':
        return catalog.put_rii(root, LIB, 'library.yml', 'data')
    if prior == 'empty database':
        os.makedirs(os.path.join(root, 'RefractiveIndexInfo', 'database', 'data'))
    if prior == 'library folder':
        os.makedirs(os.path.join(root, 'RefractiveIndexInfo', 'database',
                                 'library.yml'))
    if prior == 'no library':
        os.makedirs(os.path.join(root, 'RefractiveIndexInfo', 'other'))
    return None


def files(folder):
    out = {}
    for base, dirs, names in os.walk(folder):
        for name in names:
            full = os.path.join(base, name)
            with open(full, 'rb') as fpt:
                out[os.path.relpath(full, folder)] = fpt.read()
        for name in dirs:
            out[os.path.relpath(os.path.join(base, name), folder) + os.sep] = None
    return out


def patch(c, console, clone=None):
    old_input = builtins.input
    old_git = sys.modules.get('git')
    old_home = os.environ['HOME']
    builtins.input = console
    module = types.ModuleType('git')
    module.Repo = types.SimpleNamespace(clone_from=clone)
    sys.modules['git'] = module

    def undo():
        builtins.input = old_input
        sys.modules.pop('git', None)
        if old_git is not None:
            sys.modules['git'] = old_git
        os.environ['HOME'] = old_home
    c.cleanup.append(undo)


def run_setup(c, prior, limit, small=False):
    base = catalog.fresh(subjects.path('c18'))
    home = os.path.join(base, 'home')
    os.makedirs(os.path.join(home, '.config'))
    os.makedirs(os.path.join(base, 'cwd'))
    default = os.path.join(home, '.config', 'dispersion')
    other = os.path.join(base, 'my $HOME data', 'deep', 'root')
    model = Setup(default, other, prior, small)
    for root in (default, other):
        lib = lay(root, home, prior)
    before = files(base)
    clones = []

    def clone(url, to_path, **_):
        clones.append((url, os.path.realpath(to_path)))
        if os.path.isdir(to_path) and os.listdir(to_path):
            raise RuntimeError("folder not empty")
        catalog.put_rii(os.path.dirname(to_path), LIB)
    console = Console(c, model, limit)
    patch(c, console, clone)
    os.environ['HOME'] = home
    old = os.getcwd()
    os.chdir(os.path.join(base, 'cwd'))
    c.cleanup.append(lambda: os.chdir(old))
    failed = None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            setup_dispersion.main()
        except EOFError:
            failed = 'end'
        except RuntimeError as exc:
            failed = str(exc)
        except Asked as exc:
            c.fail(str(exc))
    c.op()
    after = files(base)
    tag = (prior, model.log)
    # downloads
    rii_dir = os.path.join(model.root or '', 'RefractiveIndexInfo')
    c.check(clones == [] if not model.download else
            len(clones) == 1 and clones[0][1] == os.path.realpath(rii_dir) and
            'refractiveindex.info-database' in clones[0][0],
            "{}: downloads {}", tag, clones)
    conf_name = 'home/.config/dispersion/config.yaml'
    full = model.download and os.path.relpath(rii_dir, base) + os.sep in before \
        and any(n.startswith(os.path.relpath(rii_dir, base) + os.sep) and
                n != os.path.relpath(rii_dir, base) + os.sep for n in before)
    if model.ended or full:
        c.check(failed is not None, "{}: no error", tag)
        if model.ended and model.state != 'rebuild':
            c.check(after.get(conf_name) == before.get(conf_name),
                    "{}: configuration was changed", tag)
        if full:
            c.check(after.get(conf_name) == before.get(conf_name),
                    "{}: configuration was changed", tag)
            return
    else:
        c.check(failed is None and model.state is None, "{}: ended early: {}, {}",
                tag, failed, model.state)
    c.state(prior, model.log)
    c.outcome(prior, model.rii, model.download, model.rebuild, model.ended)
    done = model.state in (None, 'rebuild')
    # files that have nothing to do with it
    allowed = {conf_name}
    if model.root:
        rel = os.path.relpath(model.root, base)
        allowed.add(os.path.join(rel, model.file or '-'))
    for name in set(before) | set(after):
        if before.get(name, 0) == after.get(name, 0) or name in allowed:
            continue
        if name.endswith(os.sep):
            ok = name in after
            ok = ok and (default.startswith(os.path.join(base, name).rstrip('/'))
                         or model.root and (
                             model.root.startswith(
                                 os.path.join(base, name).rstrip('/'))
                             or name.startswith(os.path.relpath(model.root, base))))
        else:
            ok = model.root and name.startswith(os.path.join(
                os.path.relpath(model.root, base), '')) and (
                    'UserData/example_file' in name or
                    model.download and 'RefractiveIndexInfo/' in name)
        c.check(ok, "{}: {} was touched", tag, name)
    cat_name = os.path.join(os.path.relpath(model.root, base), model.file) \
        if model.file else None
    if cat_name and not model.rebuild:
        c.check(before.get(cat_name) == after.get(cat_name),
                "{}: catalogue was changed", tag)
    if not done:
        return
    # folders
    has_lib = bool(model.download or lib)
    for module, wanted in (('UserData', True), ('RefractiveIndexInfo', model.rii)):
        name = os.path.relpath(os.path.join(model.root, module), base) + os.sep
        c.check((name in after) == (wanted or name in before), "{}: folder {}", tag,
                name)
    # configuration
    enabled = bool(model.rii and has_lib)
    with open(os.path.join(base, conf_name), encoding='utf-8') as fpt:
        conf = yaml.safe_load(fpt)
    c.check(conf == catalog.config(
        model.root, {'UserData': True, 'RefractiveIndexInfo': enabled},
        name=model.file), "{}: configuration {}", tag, conf)
    # examples
    data = os.path.join(model.root, 'UserData')
    mat = Material(file_path=os.path.join(data, 'example_file.txt'))
    c.check(ref.close(mat.get_nk_data([5e-7, 6.5e-7]), [1.6 + .05j, 1.45]),
            "{}: example", tag)
    mat = Material(file_path=os.path.join(data, 'example_file2.yml'))
    want = ref.evaluate_formula('Sellmeier', [0, 1, .05, 2, .1, 10, 25], .5) + .05j
    c.check(ref.close(mat.get_nk_data(5e-7), want), "{}: example: {}", tag,
            mat.get_nk_data(5e-7))
    if not model.rebuild:
        return
    # catalogue
    cat = Catalogue(config=conf)
    frame = cat.get_database()
    found = set(zip(frame.Module, frame.Path))
    want = {('UserData', 'example_file.txt'), ('UserData', 'example_file2.yml')}
    if prior in ('own data', 'everything'):
        want.add(('UserData', OWN.name))
    paths = []
    if enabled:
        paths = [p[4] for p in (lib or catalog.put_rii(
            catalog.fresh(subjects.path('c18lib')), LIB))]
        want |= {('RefractiveIndexInfo', p) for p in paths}
    c.check(found == want and len(frame) == len(want), "{}: catalogue {}", tag,
            found)
    at = frame[frame.Path == 'example_file.txt']
    c.check(abs(float(at.N_Reference.iloc[0]) - 1.4672) < 1e-9 and
            float(at.SpectrumLowerBound.iloc[0]) == 400.0, "{}: example row {}", tag,
            dict(at.iloc[0]))


def setup(c):
    """all answers, one unusual"""
    prior = c.choose('prior state', PRIOR)
    run_setup(c, prior, 2 if c.thorough else 1, not c.thorough and prior not in
              ('fresh', 'everything', 'old library'))


def setup_deep(c):
    """more unusual answers in a fresh state"""
    run_setup(c, 'fresh', 3 if c.thorough else 2, True)


class Rebuild:
    """model of the rebuild dialogue"""

    def __init__(self):
        self.state = 'rebuild'
        self.log = []
        self.ended = False
        self.answer = None

    def options(self):
        return (['y', 'n'], UNCLEAR + ['N', 'ny', 'n ', EOF])

    def take(self, answer):
        if answer in ('y', 'n'):
            self.answer, self.state = answer, None


def rebuild(c):
    """the rebuild dialogue"""
    how = c.choose('called', ['rebuild_catalogue', 'script'])
    prior = c.choose('catalogue', ['none', 'good', 'damaged', 'read only'])
    base = catalog.fresh(subjects.path('c18r'))
    root, home = os.path.join(base, 'root'), os.path.join(base, 'home')
    catalog.put_user(root, 'UserData', [OWN])
    conf = catalog.config(root, {'UserData': True})
    catalog.write(os.path.join(home, '.config', 'dispersion'), 'config.yaml',
                  yaml.safe_dump(conf))
    path = os.path.join(root, 'catalogue.csv')
    os.environ['HOME'], old_home = home, os.environ['HOME']
    c.cleanup.append(lambda: os.environ.update(HOME=old_home))
    if prior == 'damaged':
        catalog.write(root, 'catalogue.csv', "old content\n")
    elif prior != 'none':
        lines = [catalog.row(catalog.USER[1], 'UserData', catalog.NM, 'gone.csv',
                             632.8e-9)]
        catalog.write(root, 'catalogue.csv', ",".join(catalog.COLUMNS) + "\n" +
                      ",".join(str(lines[0][x]) for x in catalog.COLUMNS) + "\n")
    if prior == 'read only':
        os.chmod(path, 0o444)
    before = files(base)
    model = Rebuild()
    patch(c, Console(c, model, 4 if c.thorough else 2))
    ended = False
    try:
        if how == 'script':
            catalogue_rebuild.main()
        else:
            dispersion.rebuild_catalogue()
    except EOFError:
        ended = True
    except Asked as exc:
        c.fail(str(exc))
    c.op()
    tag = (how, prior, model.log)
    c.check(ended == model.ended, "{}: end of input", tag)
    c.check(model.ended or model.state is None, "{}: ended early", tag)
    after = files(base)
    if model.answer == 'y':
        name = os.path.join('root', 'catalogue.csv')
        c.check({n for n in after if after[n] != before.get(n, 0)} == {name},
                "{}: files changed", tag)
        cat = Catalogue(config=conf)
        catalog.compare(c, cat.get_database(),
                        [catalog.row(OWN, 'UserData', catalog.NM, OWN.name,
                                     632.8e-9)], tag)
    else:
        c.check(after == before, "{}: files were changed", tag)
    c.state(how, prior, model.log)
    c.outcome(model.answer, prior)


SCENARIOS = {'setup': setup, 'fresh setup': setup_deep, 'rebuild': rebuild}

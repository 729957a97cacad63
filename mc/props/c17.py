"""C17: configuration

a copy of the package is used, because its folder is one of the places where a
configuration may be
"""
import copy
import importlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import warnings
import yaml
from mc.sched import Scheduler

BOUNDS = {'quick': "6 states of the home folder x 3 of the package folder x 14 "
                   "folder names; histories of 5 changes; 1 and 2 deviating fields "
                   "out of 70; 40 x 40 texts round trip; 2 threads, all schedules "
                   "with at most 3 preemptions at file system calls (2 with a writer)",
          'thorough': "histories of 6 changes; 4 preemptions; 3 threads"}
ASSUMPTIONS = ["HOME is set", "a configuration file that exists is valid yaml",
               "threads stand for processes: no state is shared in memory"]
SHARDS = 12
_PKG = None


def work(*parts):
    return os.path.join(os.environ['MC_WORK'], *parts)


def package():
    """(module dispersion.config, folder of the package copy)"""
    global _PKG
    if _PKG is None:
        src = os.path.join(os.environ['MC_REPO'], 'src', 'dispersion')
        folder = work('pkg', 'dispersion')
        shutil.copytree(src, folder, ignore=shutil.ignore_patterns(
            '__pycache__', 'config.yaml'))
        os.makedirs(work('first home', '.config'))
        os.environ['HOME'] = work('first home')
        sys.path.insert(0, work('pkg'))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            module = importlib.import_module('dispersion.config')
        if not os.path.realpath(module.__file__).startswith(
                os.path.realpath(folder)):
            raise RuntimeError("wrong package {}".format(module.__file__))
        _PKG = module, folder
    return _PKG


def remove(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.remove(path)


def sample(tag, path='/'):
    return {'Path': path, 'File': 'cat {}.csv'.format(tag), 'Interactive': False,
            'WarnMissingPackages': False, 'Modules': {'UserData': True},
            'ReferenceSpectrum': {'Value': 500.0, 'SpectrumType': 'wavelength',
                                  'Unit': 'nanometer'}}


def dump(path, conf):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as fpt:
        yaml.safe_dump(conf, fpt, allow_unicode=True)


HOMES = ['no home', 'home', '.config', 'dispersion', 'config', 'config is folder']
PKGS = ['none', 'config', 'config is folder']


def arrange(home, state, pkg_dir, pkg_state):
    remove(home)
    user = os.path.join(home, '.config', 'dispersion')
    depth = HOMES.index(state)
    if depth >= 1:
        os.makedirs(home)
    if depth >= 2:
        os.makedirs(os.path.join(home, '.config'))
    if depth >= 3:
        os.makedirs(user)
    if state == 'config':
        dump(os.path.join(user, 'config.yaml'), sample('user'))
    elif state == 'config is folder':
        os.makedirs(os.path.join(user, 'config.yaml'))
    remove(os.path.join(pkg_dir, 'config.yaml'))
    if pkg_state == 'config':
        dump(os.path.join(pkg_dir, 'config.yaml'), sample('pkg'))
    elif pkg_state == 'config is folder':
        os.makedirs(os.path.join(pkg_dir, 'config.yaml'))
    return user


def check_default(c, conf, user, tag):
    c.check(conf['Path'] == user, "{}: root {!r} instead of {!r}", tag,
            conf['Path'], user)
    c.check(os.path.isdir(user), "{}: {} does not exist", tag, user)
    c.check(conf['File'] == 'catalogue.csv' and conf['Interactive'] is False and
            conf['WarnMissingPackages'] is False and
            dict(conf['Modules']) == {'UserData': True, 'RefractiveIndexInfo': True}
            and dict(conf['ReferenceSpectrum']) ==
            {'Value': 632.8, 'SpectrumType': 'wavelength', 'Unit': 'nanometer'},
            "{}: default {}", tag, conf)


def expect(c, conf, state, pkg_state, user, tag):
    if state == 'config':
        c.check(conf == sample('user'), "{}: {}", tag, conf)
    elif pkg_state == 'config':
        c.check(conf == sample('pkg'), "{}: {}", tag, conf)
    else:
        check_default(c, conf, user, tag)


NAMES = ['home', 'a b', 'a: b', '#x', "it's", '"q"', '{}', '%s', '\u00b5\u4e2d',
         'x' * 100, '- y', 'yes', '~', 'a\\b', '@x', '&y', '*z', '!t', '|', ' lead',
         'trail ', '123', '[]', 'a\tb']


def quiet(func, *args, **kws):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return func(*args, **kws)


def resolve(c):
    """every state of the two places"""
    cfg, pkg_dir = package()
    state = c.choose('home', HOMES)
    pkg_state = c.choose('package', PKGS)
    name = c.choose('name', NAMES)
    home = work('homes', name)
    user = arrange(home, state, pkg_dir, pkg_state)
    os.environ['HOME'] = home
    for again in range(2):
        conf = quiet(cfg.get_config)
        c.op()
        expect(c, conf, state, pkg_state, user, (state, pkg_state, name, again))
        if state != 'config' and pkg_state != 'config':
            quiet(cfg.validate_config, conf)
    conf = quiet(cfg.default_config)
    check_default(c, conf, user, 'default')
    quiet(cfg.validate_config, conf)
    # the result is the caller's
    conf['File'] = 'changed'
    conf['Modules']['UserData'] = False
    check_default(c, quiet(cfg.default_config), user, 'default again')
    c.op(3)
    # nothing was put into the places
    there = sorted(os.listdir(user))
    c.check(there == (['config.yaml'] if state.startswith('config') else []),
            "files {}", there)
    remove(home)
    c.state(state, pkg_state, name)
    c.outcome(state == 'config', pkg_state)


START = r'''
import json, os, sys, warnings
import pandas, matplotlib.pyplot, scipy.interpolate
sys.pycache_prefix = os.environ['MC_PYC']
warnings.simplefilter('ignore')
if sys.argv[1] == 'setup':
    import dispersion.scripts.setup_dispersion
import dispersion
print(json.dumps(dispersion.get_config()))
print(json.dumps(dispersion.config if isinstance(dispersion.config, dict) else None))
'''


def first_start(c):
    """import in a fresh process"""
    state = c.choose('home', HOMES)
    pkg_state = c.choose('package', PKGS)
    how = c.choose('import', ['package'] + (['setup'] if c.thorough or
                                            pkg_state == 'none' else []))
    base = work('start')
    remove(base)
    shutil.copytree(os.path.join(os.environ['MC_REPO'], 'src', 'dispersion'),
                    os.path.join(base, 'pkg', 'dispersion'),
                    ignore=shutil.ignore_patterns('__pycache__', 'config.yaml'))
    home = os.path.join(base, 'home')
    user = arrange(home, state, os.path.join(base, 'pkg', 'dispersion'), pkg_state)
    env = dict(os.environ, HOME=home, PYTHONPATH=os.path.join(base, 'pkg'))
    run = subprocess.run([sys.executable, '-c', START, how], env=env, cwd=base,
                         capture_output=True, text=True, timeout=100)
    c.op()
    c.check(run.returncode == 0, "import failed: {}", run.stderr[-600:])
    expect(c, json.loads(run.stdout.splitlines()[0]), state, pkg_state, user,
           (state, pkg_state))
    remove(base)
    c.state(state, pkg_state, how)


def histories(c):
    """configurations come and go"""
    cfg, pkg_dir = package()
    home = work('hist')
    remove(home)
    remove(os.path.join(pkg_dir, 'config.yaml'))
    os.makedirs(home)
    os.environ['HOME'] = home
    user = os.path.join(home, '.config', 'dispersion')
    at = {'user': None, 'pkg': None}
    for i in range(6 if c.thorough else 5):
        op = c.choose('op {}'.format(i), ['write user', 'write pkg', 'write current',
                                          'delete user', 'delete pkg',
                                          'remove home', 'get'])
        conf = sample(str(i), home)
        if op == 'write user':
            os.makedirs(user, exist_ok=True)
            given = copy.deepcopy(conf)
            cfg.write_config(given, dir_path=user)
            c.check(given == conf, "the configuration was changed")
            at['user'] = conf
        elif op == 'write pkg':
            cfg.write_config(conf, dir_path=pkg_dir)
            at['pkg'] = conf
        elif op == 'write current':
            # written where it is read from
            where = 'user' if at['user'] else 'pkg'
            if at[where] is None:
                c.prune()
            cfg.write_config(conf)
            at[where] = conf
        elif op == 'delete user':
            if at['user'] is None:
                c.prune()
            os.remove(os.path.join(user, 'config.yaml'))
            at['user'] = None
        elif op == 'delete pkg':
            if at['pkg'] is None:
                c.prune()
            os.remove(os.path.join(pkg_dir, 'config.yaml'))
            at['pkg'] = None
        elif op == 'remove home':
            remove(home)
            at['user'] = None
        got = quiet(cfg.get_config)
        c.op(2)
        want = at['user'] or at['pkg']
        if want:
            c.check(got == want, "{}: {} instead of {}", op, got, want)
        else:
            check_default(c, got, user, op)
        c.state(i, bool(at['user']), bool(at['pkg']), op)
    remove(os.path.join(pkg_dir, 'config.yaml'))


TEXTS = NAMES + ['', ' ', 'line\nbreak', 'a,b', 'true', 'null', '1.5', '1e3',
                 '2020-01-01', 'a' * 200 + ' ' + 'b' * 200, '\u2028', '\U0001f600',
                 '=', '<<', '---', '...', '? x', 'a #b', "'", '"']


def round_trip(c):
    """a written configuration reads back equal"""
    cfg, _ = package()
    home = work('rt')
    user = os.path.join(home, '.config', 'dispersion')
    os.makedirs(user, exist_ok=True)
    os.environ['HOME'] = home
    first = c.choose('path', TEXTS)
    value = c.choose('reference', [632.8, 0.1 + 0.2, 1e-7, 1e20, 5e14, 1.0])
    for number, second in enumerate(TEXTS):
        conf = sample('x', first)
        conf['File'] = second
        conf['Interactive'] = bool(number & 1)
        conf['WarnMissingPackages'] = bool(number & 2)
        conf['Modules'] = [{}, {'UserData': False}, {'B': True, 'A': False},
                           {'UserData': True, 'RefractiveIndexInfo': False,
                            'Filmetrics': True}][number % 4]
        conf['ReferenceSpectrum'] = {'Value': value, 'SpectrumType': 'energy',
                                     'Unit': 'eV'}
        if number % 3 == 0:
            conf['Plotting'] = True
        cfg.write_config(copy.deepcopy(conf), dir_path=user)
        got = quiet(cfg.get_config)
        c.check(got == conf, "{} instead of {}", got, conf)
        got = quiet(cfg.read_config)
        c.check(got == conf, "{} instead of {}", got, conf)
        c.op(3)
        c.state(first, second, value)
    c.check(os.listdir(user) == ['config.yaml'], "files {}", os.listdir(user))


def partial(c):
    """configurations that are incomplete or unusual are stored as they are"""
    cfg, _ = package()
    home = work('part')
    user = os.path.join(home, '.config', 'dispersion')
    os.makedirs(user, exist_ok=True)
    os.environ['HOME'] = home
    conf = sample('x', '/')
    for field in list(conf):
        how = c.choose(field, ['present', 'missing'] if field != 'Path' else
                       ['present', 'missing', 'empty', 'none', 'relative'])
        if how == 'missing':
            del conf[field]
        elif how != 'present':
            conf[field] = {'empty': '', 'none': None, 'relative': './x/../y'}[how]
    inner = c.choose('reference', ['whole', 'no unit', 'no type', 'no value', 'empty'])
    if 'ReferenceSpectrum' in conf:
        for key in {'whole': [], 'no unit': ['Unit'], 'no type': ['SpectrumType'],
                    'no value': ['Value'],
                    'empty': list(conf['ReferenceSpectrum'])}[inner]:
            del conf['ReferenceSpectrum'][key]
    elif inner != 'whole':
        c.prune()
    for more in ({}, {'Own': {'a': [1, 2.5, None, 'x']}}, {'own key': ''}):
        whole = dict(conf, **more)
        if not whole:
            continue
        cfg.write_config(copy.deepcopy(whole), dir_path=user)
        for func in (cfg.get_config, cfg.read_config, cfg.get_config):
            got = quiet(func)
            c.check(got == whole, "{} instead of {}", got, whole)
        c.op(4)
        c.state(sorted(whole), inner)


def variants(folder):
    """(field, value, valid); value DROP removes the field"""
    good_dir, a_file = os.path.join(folder, 'root'), os.path.join(folder, 'file')
    out = [('Path', v, ok) for v, ok in (
        (good_dir, True), (folder, True), (os.path.join(good_dir, ''), True),
        (os.path.join(folder, 'missing'), False), (a_file, False), ('', False),
        (None, False), (5, False), (b'/', False), ([good_dir], False))]
    out += [('File', v, ok) for v, ok in (
        ('catalogue.csv', True), ('a', True), ('.hidden', True), ('a b.csv', True),
        (' a.csv', True), ('a.csv ', True), (' ', True), ('-', True), ('..a', True),
        ('a\nb', True), ('a\\b.csv', True), ('~', True), ('$HOME', True),
        ('\u03bc.csv', True), ('file', True), ('root', True), ('config.yaml', True),
        ('', False), ('sub/x.csv', False), ('/abs.csv', False), ('.', False),
        ('..', False), ('../x.csv', False), ('x/', False), ('x' * 300, False),
        ('nul\0', False), (None, False), (5, False), (True, False),
        (['catalogue.csv'], False))]
    for field in ('Interactive', 'WarnMissingPackages'):
        out += [(field, v, ok) for v, ok in (
            (True, True), (False, True), (0, False), (1, False), ('yes', False),
            ('', False), (None, False), (1.0, False), ([], False))]
    out += [('Modules', v, ok) for v, ok in (
        ({}, True), ({'UserData': True}, True), ({'UserData': False, 'X': True}, True),
        ({'UserData': 1}, False), ({'UserData': 'yes'}, False),
        ({'A': True, 'B': None}, False), ({'A': 0, 'B': True}, False))]
    for field, goods in (('Value', [1.0, 1e-7, 0.5]),
                         ('SpectrumType', ['energy', 'x']), ('Unit', ['eV', 'nm'])):
        bads = [None, [], True, 633] + (['text', '633.0', 1j] if field == 'Value'
                                        else [5.0, b'nm'])
        out += [('ReferenceSpectrum.' + field, v, True) for v in goods]
        out += [('ReferenceSpectrum.' + field, v, False) for v in bads]
    return out


DROP = ['Path', 'File', 'Interactive', 'WarnMissingPackages', 'Modules',
        'ReferenceSpectrum', 'ReferenceSpectrum.Value',
        'ReferenceSpectrum.SpectrumType', 'ReferenceSpectrum.Unit']


def snapshot(folder):
    out = {}
    for base, dirs, files in os.walk(folder):
        for name in dirs + files:
            full = os.path.join(base, name)
            info = os.stat(full)
            out[full] = (info.st_mtime_ns, info.st_size, info.st_ino, info.st_mode)
    return out


def put(conf, field, value):
    parts = field.split('.')
    for part in parts[:-1]:
        conf = conf[part]
    conf[parts[-1]] = value


def validation(c):
    """accepted exactly if every field is right, without effects on files"""
    cfg, _ = package()
    folder = work('val')
    if not os.path.isdir(folder):
        os.makedirs(os.path.join(folder, 'root'))
        os.makedirs(os.path.join(folder, 'cwd'))
        os.makedirs(os.path.join(folder, 'tmp'))
        for name in ('file', 'root/catalogue.csv', 'root/a', 'cwd/catalogue.csv',
                     'cwd/a', 'x.csv'):
            with open(os.path.join(folder, name), 'w') as fpt:
                fpt.write("content of " + name)
    old = os.getcwd()
    os.chdir(os.path.join(folder, 'cwd'))
    c.cleanup.append(lambda: os.chdir(old))
    every = variants(folder)
    first = c.choose('first field', every + [(f, 'DROP', False) for f in DROP])
    before = snapshot(folder)
    for second in [None] + every:
        if second and second[0].split('.')[0] == first[0].split('.')[0]:
            continue
        conf = sample('val', os.path.join(folder, 'root'))
        ok = True
        for field, value, good in [first] + ([second] if second else []):
            if value == 'DROP':
                continue
            put(conf, field, copy.deepcopy(value))
            ok = ok and good
        if first[1] == 'DROP':
            ok = False
            part = conf
            for key in first[0].split('.')[:-1]:
                part = part[key]
            del part[first[0].split('.')[-1]]
        given = copy.deepcopy(conf)
        try:
            cfg.validate_config(conf)
            got = True
        except Exception:
            got = False
        c.op()
        c.check(got == ok, "{} {}: {}", first, second,
                "accepted" if got else "refused")
        c.check(conf == given, "{} {}: configuration changed", first, second)
        c.state(first[0], str(first[1]), second and second[0],
                second and str(second[1]))
        c.outcome(ok)
    now = snapshot(folder)
    c.check(now == before, "files changed: {}",
            [k for k in set(now) | set(before) if now.get(k) != before.get(k)])


# ------------------------------------------------------------- schedules
def concurrent(c):
    """starts at the same time"""
    cfg, pkg_dir = package()
    state = c.choose('home', HOMES[:5])
    threads = c.choose('threads', [2, 3] if c.thorough else [2])
    home = work('conc')
    user = arrange(home, state, pkg_dir, 'none')
    os.environ['HOME'] = home
    sched = Scheduler(c, home, (4 if c.thorough else 3) - (threads == 3))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = sched.run([cfg.get_config] * threads)
    for conf, err in out:
        c.check(err is None, "{}: start failed: {!r}", sched.log, err)
        expect(c, conf, state, 'none', user, state)
    c.check(len(sched.log) > threads, "no file system call seen")
    c.state(state, sched.log)
    c.outcome(state)


def writer_reader(c):
    """a start while the configuration is being written"""
    cfg, pkg_dir = package()
    state = c.choose('home', ['dispersion', 'config'])
    kind = c.choose('threads', ['write, read', 'write, write', 'read, write'] +
                    (['remove, read', 'read, remove'] if state == 'config' else []))
    home = work('wr')
    user = arrange(home, state, pkg_dir, 'none')
    os.environ['HOME'] = home
    first, second = sample('first'), sample('second')

    def away():
        os.remove(os.path.join(user, 'config.yaml'))
    funcs = {'remove, read': [away, cfg.get_config],
             'read, remove': [cfg.get_config, away],
             'write, read': [lambda: cfg.write_config(first, user), cfg.get_config],
             'read, write': [cfg.get_config, lambda: cfg.write_config(first, user)],
             'write, write': [lambda: cfg.write_config(first, user),
                              lambda: cfg.write_config(second, user)]}[kind]
    sched = Scheduler(c, home, 4 if c.thorough else 2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = sched.run(funcs)
        final = cfg.get_config()
    for conf, err in out:
        c.check(err is None, "{}: failed: {!r}", sched.log, err)
        if conf is not None and conf != first:
            expect(c, conf, state if 'remove' not in kind or
                   conf == sample('user') else 'dispersion', 'none', user, sched.log)
    if 'read' in kind:
        conf = out[kind.split(', ').index('read')][0]
        c.check(conf is not None, "{}: nothing was read", sched.log)
    if 'remove' in kind:
        check_default(c, final, user, sched.log)
        c.state(state, kind, sched.log)
        return
    c.check(final == first or 'read' not in kind and final == second,
            "{}: {}", sched.log, final)
    c.check(os.listdir(user) == ['config.yaml'], "files {}", os.listdir(user))
    c.state(state, kind, sched.log)
    c.outcome(kind, final == first)


SCENARIOS = {'resolve': resolve, 'first start': first_start,
             'histories': histories, 'round trip': round_trip, 'partial': partial,
             'validation': validation, 'concurrent': concurrent,
             'writer and reader': writer_reader}

"""C20: interrupted saves"""
import errno
import os
import resource
import signal
import stat
import sys
import numpy as np
import pandas as pd
from dispersion import Catalogue, Interpolation, Material, Writer
from dispersion.config import write_config
from mc import catalog, ref, subjects

BOUNDS = {'quick': "8 kinds of file x 6 previous states x (crash or I/O error) x "
                   "every file system operation (3 error codes), and every byte of every opened "
                   "file (every 17th for unusual previous states); then a "
                   "complete save; pairs of faulty operations in two saves",
          'thorough': "every byte in all states, all pairs, longer files"}
ASSUMPTIONS = ["a crash ends the process; data handed to the operating system "
               "survive (no power failure)",
               "faults are injected at the operations the interpreter reports and "
               "at the size limit of files"]
ERRORS = [errno.ENOSPC, errno.EIO, errno.EACCES]


# ------------------------------------------------------------ kinds of files
def material(version, rows):
    tab = subjects.table(subjects.NM, rows)
    tab[:, 1] += .01 * version
    mat = Material(tabulated_nk=tab)
    mat.meta_data['Name'] = 'version {}'.format(version)
    mat.meta_data['Reference'] = 'r\u00e9f ' * version
    mat.meta_data['MetaComment'] = " several lines\n of comment {}".format(version)
    return mat


def mixed(version, rows):
    mat = subjects.MATERIALS['model Sellmeier']()[0]
    tab = subjects.table(subjects.NM, rows)[:, [0, 2]]
    tab[:, 1] += .01 * version
    mat.data['imag'] = Interpolation(tab, unit='nm')
    mat.meta_data['Comment'] = 'version {}'.format(version)
    mat.meta_data['MetaComment'] = " meta {}".format(version)
    return mat


def writer(name, make):
    def save(folder, version, rows):
        Writer(os.path.join(folder, name), make(version, rows)).write_file()
    return name, save


def save_config(folder, version, rows):
    conf = catalog.config(folder, {'UserData': True, 'X': bool(version & 1)},
                          (500.0 + version, 'wavelength', 'nm'),
                          'version {}.csv'.format(version))
    conf['Comment'] = ['x' * version] * (rows // 2)
    write_config(conf, dir_path=folder)


def save_catalogue(folder, version, rows):
    conf = catalog.config(folder, {'UserData': True})
    lines = []
    for i in range(1 + rows // 3):
        fil = catalog.USER[i % 4]
        line = catalog.row(fil, 'UserData', catalog.NM, fil.name, 632.8e-9)
        line['Alias'] = 'v{} {}'.format(version, i)
        lines.append(line)
    cat = CATALOGUES.get(folder)
    if cat is None:
        cat = CATALOGUES[folder] = empty_catalogue(conf, folder)
    cat.set_database(pd.DataFrame(lines, columns=catalog.COLUMNS))
    cat.save_to_file()


CATALOGUES = {}


def empty_catalogue(conf, folder):
    os.makedirs(os.path.join(folder, 'UserData'), exist_ok=True)
    return Catalogue(config=conf, rebuild='All')


KINDS = {'catalogue': ('catalogue.csv', save_catalogue),
         'configuration': ('config.yaml', save_config),
         'txt': writer('mat.txt', material), 'csv': writer('mat.csv', material),
         'nk': writer('mat.nk', material), 'yml': writer('mat.yml', material),
         'yml with model': writer('mix.yml', mixed),
         'txt without header': writer('plain.txt', lambda v, r: Material(
             tabulated_nk=subjects.table(subjects.NM, r) + .01 * v))}
PREVIOUS = ['none', 'older version', 'longer', 'empty', 'link', 'foreign']


def read(path):
    try:
        with open(path, 'rb') as fpt:
            return fpt.read()
    except FileNotFoundError:
        return None


def prepare(folder, kind, previous, rows):
    """previous state; returns its content"""
    name, save = KINDS[kind]
    catalog.fresh(folder)
    os.makedirs(os.path.join(folder, 'UserData'))
    os.makedirs(os.path.join(folder, 'elsewhere'))
    path = os.path.join(folder, name)
    if kind == 'catalogue' and folder not in CATALOGUES:
        CATALOGUES[folder] = empty_catalogue(catalog.config(
            folder, {'UserData': True}), folder)
    if previous == 'link':
        os.symlink(os.path.join('elsewhere', name), path)
    if previous in ('older version', 'link'):
        save(folder, 1, rows)
    elif previous == 'longer':
        save(folder, 1, rows * 3)
    elif previous == 'empty':
        open(path, 'w').close()
    elif previous == 'foreign':
        with open(path, 'w') as fpt:
            fpt.write("something else\n" * 3)
    return read(path)


# ------------------------------------------------------------ fault injection
WATCH = {'open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.chmod',
         'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.chown',
         'shutil.copyfile', 'shutil.move', 'tempfile.mkdtemp', 'tempfile.mkstemp',
         'os.scandir', 'os.listdir', 'shutil.rmtree', 'shutil.copymode',
         'shutil.copystat'}


def writes(args):
    mode, flags = args[1], args[2]
    if isinstance(mode, str):
        return any(x in mode for x in 'wax+')
    return bool(flags & (os.O_WRONLY | os.O_RDWR))


def child(folder, save, version, rows, plan):
    """saves under a fault plan in a new process; returns (status, events)

    status: 'done', 'error' or 'crash'
    plan: None, ('op', n, 'crash'|errno) or ('byte', nth open, k, 'crash'|'error')
    """
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid:
        os.close(wfd)
        with os.fdopen(rfd, 'rb') as fpt:
            data = fpt.read().decode().split()
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status) or os.WEXITSTATUS(status) == 77:
            return 'crash', []
        return data[0], data[1:]
    out = ['error']
    try:
        os.close(rfd)
        root = os.path.realpath(folder)
        seen = []
        opened = [0]
        armed = [True]

        def hook(event, args):
            if not armed[0] or event not in WATCH:
                return
            path = args[0] if args else None
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            if event == 'tempfile.mkdtemp' or event == 'tempfile.mkstemp':
                pass
            elif isinstance(path, str) and os.path.isabs(path) and not \
                    os.path.realpath(path).startswith(root) or event == 'open' and not isinstance(path, str):
                return
            if event == 'open' and writes(args):
                if plan and plan[0] == 'byte' and opened[0] == plan[1]:
                    resource.setrlimit(resource.RLIMIT_FSIZE,
                                       (plan[2], resource.RLIM_INFINITY))
                opened[0] += 1
            seen.append(event if event != 'open' else
                        'open-w' if writes(args) else 'open-r')
            if plan and plan[0] == 'op' and len(seen) - 1 == plan[1]:
                if plan[2] == 'crash':
                    os._exit(77)
                armed[0] = plan[1] is None
                raise OSError(plan[2], os.strerror(plan[2]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if plan and plan[-1] == 'crash'
                      else signal.SIG_IGN)
        sys.addaudithook(hook)
        try:
            save(folder, version, rows)
            out = ['done']
        except OSError:
            out = ['error']
        except Exception as exc:
            out = ['other:' + type(exc).__name__]
        armed[0] = False
        resource.setrlimit(resource.RLIMIT_FSIZE,
                           (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        os.write(wfd, " ".join(out + seen).encode())
    finally:
        os._exit(0)


_REFS = {}


def content(kind, version, rows):
    key = (kind, version, rows)
    if key not in _REFS:
        # the same folder name: it may be part of the content
        _REFS[key] = None
        folder = subjects.path('c20')
        name, save = KINDS[kind]
        prepare(folder, kind, 'none', rows)
        save(folder, version, rows)
        _REFS[key] = read(os.path.join(folder, name))
    return _REFS[key]


def verdict(c, kind, path, status, old, new, tag, link=False):
    now = read(path)
    if status == 'done':
        c.check(now == new, "{}: reported success, but the file holds {!r}", tag,
                now and now[:200])
    else:
        c.check(now in (old, new), "{}: {}: the file holds {!r} ({} bytes, old {}, "
                "new {})", tag, status, now and now[:200],
                None if now is None else len(now),
                None if old is None else len(old), len(new))
    if link:
        c.check(os.path.islink(path), "{}: the link is gone", tag)
    c.outcome(kind, status, 'new' if now == new else 'old')
    return now


def faults(c):
    """one fault, then a complete save"""
    kind = c.choose('file', list(KINDS))
    previous = c.choose('previous', PREVIOUS)
    how = c.choose('fault', ['crash', 'error'])
    where = c.choose('at', ['operation', 'byte'])
    rows = 12 if c.thorough else 4
    folder = subjects.path('c20')
    name, save = KINDS[kind]
    path = os.path.join(folder, name)
    new, final = content(kind, 2, rows), content(kind, 3, rows)
    prepare(folder, kind, previous, rows)
    status, events = child(folder, save, 2, rows, None)
    c.check(status == 'done' and read(path) == new and events,
            "{} over {}: undisturbed save: {} {!r}", kind, previous, status,
            read(path))
    c.op()
    if where == 'operation':
        plans = [('op', i, 'crash') for i in range(len(events))] if how == 'crash' \
            else [('op', i, e) for i in range(len(events))
                  for e in ERRORS]
    else:
        opens = sum(1 for e in events if e == 'open-w')
        step = 1 if c.thorough or previous == 'older version' else 17
        sizes = range(0, len(new) + 1, step)
        plans = [('byte', n, k, how) for n in range(opens) for k in sizes]
    for plan in plans:
        old = prepare(folder, kind, previous, rows)
        status, _ = child(folder, save, 2, rows, plan)
        c.op()
        tag = (kind, previous, plan, events)
        c.check(not status.startswith('other'), "{}: {}", tag, status)
        verdict(c, kind, path, status, old, new, tag, previous == 'link')
        c.state(kind, previous, plan)
        if plan[0] == 'byte' and plan[2] % 10 and not c.thorough:
            continue
        # whatever was left behind does not disturb the next save
        status, _ = child(folder, save, 3, rows, None)
        c.check(status == 'done' and read(path) == final,
                "{}: next save: {}, {!r}", tag, status, read(path))


def two_faults(c):
    """faults in two consecutive saves"""
    kind = c.choose('file', list(KINDS))
    previous = c.choose('previous', ['older version', 'none'])
    hows = c.choose('faults', [(a, b) for a in ('crash', 'error')
                               for b in ('crash', 'error')])
    rows = 4
    folder = subjects.path('c20')
    name, save = KINDS[kind]
    path = os.path.join(folder, name)
    second, third = content(kind, 2, rows), content(kind, 3, rows)
    prepare(folder, kind, previous, rows)
    _, events = child(folder, save, 2, rows, None)
    count = len(events)
    first = c.choose('first at', list(range(count)))
    for at in range(count) if c.thorough else range(first % 3, count, 3):
        old = prepare(folder, kind, previous, rows)
        tag = (kind, previous, hows, first, at)
        status, _ = child(folder, save, 2, rows, (
            'op', first, 'crash' if hows[0] == 'crash' else errno.ENOSPC))
        now = verdict(c, kind, path, status, old, second, tag)
        status, _ = child(folder, save, 3, rows, (
            'op', at, 'crash' if hows[1] == 'crash' else errno.EIO))
        verdict(c, kind, path, status, now, third, tag)
        c.op(2)
        c.state(tag)


SCENARIOS = {'faults': faults, 'two faults': two_faults}

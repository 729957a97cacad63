"""controlled scheduling of threads at file system calls"""
import builtins
import os
import threading

CALLS = ['stat', 'lstat', 'mkdir', 'rmdir', 'rename', 'replace', 'unlink', 'remove',
         'open', 'listdir', 'scandir', 'link', 'symlink', 'truncate', 'chmod']
REAL = {name: getattr(os, name) for name in CALLS}
REAL_OPEN = builtins.open


class Scheduler:
    """runs threads one at a time; the schedule is a choice of the explorer

    A thread may be preempted before every file system call on a path below
    root, and after opening a file.
    """

    def __init__(self, c, root, preemptions):
        self.c = c
        self.root = os.path.realpath(root)
        self.left = preemptions
        self.local = threading.local()
        self.lock = threading.Condition()
        self.turn = None
        self.waiting = {}
        self.alive = set()
        self.log = []

    # ------------------------------------------------------------ in threads
    def point(self, what, path):
        me = getattr(self.local, 'me', None)
        if me is None or not isinstance(path, (str, bytes, os.PathLike)):
            return
        path = os.path.abspath(os.fsdecode(path))
        if path != self.root and not path.startswith(self.root + os.sep):
            return
        with self.lock:
            self.waiting[me] = what
            self.lock.notify_all()
            while self.turn != me:
                self.lock.wait()
            del self.waiting[me]
            self.turn = None
            self.log.append((me, what))

    def patch(self):
        def wrap(name, real):
            def call(path, *args, **kws):
                self.point(name, path)
                out = real(path, *args, **kws)
                if name == 'open':
                    self.point('opened', path)
                return out
            return call
        for name, real in REAL.items():
            setattr(os, name, wrap(name, real))
        builtins.open = wrap('open', REAL_OPEN)

    @staticmethod
    def unpatch():
        for name, real in REAL.items():
            setattr(os, name, real)
        builtins.open = REAL_OPEN

    def run(self, funcs):
        """returns [(result, error)]"""
        out = [None] * len(funcs)

        def body(i):
            self.local.me = i
            try:
                self.point('start', self.root)
                out[i] = (funcs[i](), None)
            except Exception as exc:
                out[i] = (None, exc)
            finally:
                with self.lock:
                    self.alive.discard(i)
                    self.lock.notify_all()
        self.alive = set(range(len(funcs)))
        threads = [threading.Thread(target=body, args=(i,), daemon=True)
                   for i in range(len(funcs))]
        self.patch()
        try:
            for thread in threads:
                thread.start()
            current = None
            while True:
                with self.lock:
                    while not (self.turn is None and
                               set(self.waiting) == self.alive):
                        self.lock.wait()
                    ready = sorted(self.waiting)
                if not ready:
                    break
                if current in ready:
                    options = [current]
                    if self.left > 0:
                        options += [i for i in ready if i != current]
                else:
                    options = ready
                pick = (options[0] if len(options) == 1 else
                        self.c.choose('thread', options))
                if current in ready and pick != current:
                    self.left -= 1
                current = pick
                self.c.op()
                with self.lock:
                    self.turn = pick
                    self.lock.notify_all()
            for thread in threads:
                thread.join()
        finally:
            self.unpatch()
        return out

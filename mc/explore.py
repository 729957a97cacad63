"""Stateless explicit-state exploration of the real code.

A scenario is a function taking a context.  Every nondeterministic decision
(operation, argument, environment answer, crash point, schedule) is taken by
``c.choose``.  The explorer enumerates all decision vectors depth first; every
vector is one complete execution of the real code, started from scratch.

The tree is cut into shards (sub-trees below a prefix).  Every shard runs in a
process of its own, forked from a parent that never executes the code under
test, so that a violation is reproduced by running its shard again.
"""
import os
import pickle
import select
import signal
import sys
import time
import traceback

EXEC_TIMEOUT = 120          # seconds for one execution (they take milliseconds)


class Violation(Exception):
    """the property does not hold on this execution"""


class Prune(Exception):
    """this combination of decisions is not part of the space"""


class _Frontier(Exception):
    def __init__(self, width):
        super().__init__(width)
        self.width = width


class Hang(Exception):
    """an execution did not come to an end"""


class Ctx:
    """context of one execution"""

    def __init__(self, prefix, tier, stop_at_frontier=False):
        self.prefix = prefix
        self.tier = tier
        self.choices = []
        self.widths = []
        self.trace = []
        self.ops = 0
        self.states = None
        self.outcomes = None
        self.stop = stop_at_frontier
        self.cleanup = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def choose(self, label, options):
        """returns one of options; the explorer runs through all of them"""
        options = options if isinstance(options, (list, tuple)) else list(options)
        width = len(options)
        if width == 0:
            raise Prune()
        pos = len(self.choices)
        if pos < len(self.prefix):
            idx = self.prefix[pos]
            if idx >= width:
                raise RuntimeError("choice out of range at {}".format(label))
        else:
            if self.stop:
                raise _Frontier(width)
            idx = 0
        self.choices.append(idx)
        self.widths.append(width)
        value = options[idx]
        self.trace.append((label, value))
        return value

    def op(self, count=1):
        """count operations of the code under test"""
        self.ops += count

    def state(self, *key):
        """record a reached abstract state"""
        self.states.add(hash(repr(key)))

    def outcome(self, *key):
        """record an observed outcome (to see that the space is not vacuous)"""
        self.outcomes.add(repr(key)[:80])

    def fail(self, message):
        raise Violation(message)

    def check(self, condition, message, *args):
        if not condition:
            raise Violation(message.format(*args))

    def prune(self):
        raise Prune()


def _alarm(signum, frame):
    raise Hang("execution did not end within {} s".format(EXEC_TIMEOUT))


def run_one(func, prefix, tier, states, outcomes, stop=False):
    """runs one execution, returns (ctx, error or None)"""
    ctx = Ctx(prefix, tier, stop)
    ctx.states = states
    ctx.outcomes = outcomes
    error = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_TIMEOUT)
    try:
        func(ctx)
        ctx.status = 'done'
    except Prune:
        ctx.status = 'pruned'
    except _Frontier:
        ctx.status = 'frontier'
        raise
    except Violation as exc:
        ctx.status = 'done'
        error = str(exc)
    except Exception as exc:
        ctx.status = 'done'
        tb = traceback.extract_tb(exc.__traceback__)[-1]
        error = "unexpected {}: {} ({}:{})".format(
            type(exc).__name__, exc, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
        if error is not None and len(error) > 700:
            error = error[:700] + ' ...'
        for undo in reversed(ctx.cleanup):
            try:
                undo()
            except Exception:
                pass
    return ctx, error


def describe(ctx):
    """readable list of decisions"""
    out = []
    for label, value in ctx.trace:
        text = repr(value)
        out.append("{}={}".format(label, text if len(text) < 300
                                  else text[:300] + '...'))
    return out


def explore_shard(scenario, func, prefix, tier, deadline, max_violations=3,
                  until=None):
    """depth first enumeration of all executions below prefix"""
    res = {'scenario': scenario, 'prefix': list(prefix), 'executions': 0,
           'pruned': 0, 'ops': 0, 'violations': [], 'capped': False,
           'samples': []}
    states, outcomes = set(), set()
    vector = list(prefix)
    base = len(prefix)
    while True:
        ctx, error = run_one(func, vector, tier, states, outcomes)
        res['ops'] += ctx.ops
        if ctx.status == 'pruned':
            res['pruned'] += 1
        else:
            res['executions'] += 1
            if len(res['samples']) < 1:
                res['samples'].append(describe(ctx))
        if error is not None:
            res['violations'].append({'choices': list(ctx.choices),
                                      'decisions': describe(ctx),
                                      'message': error})
            if len(res['violations']) >= max_violations:
                break
        if until is not None and list(ctx.choices) == list(until):
            break
        # next vector
        choices, widths = ctx.choices, ctx.widths
        pos = len(choices) - 1
        while pos >= base and choices[pos] + 1 >= widths[pos]:
            pos -= 1
        if pos < base:
            break
        vector = choices[:pos] + [choices[pos] + 1]
        if time.time() > deadline:
            res['capped'] = True
            break
    res['states'] = states
    res['outcomes'] = outcomes
    return res


def expand(func, tier, target):
    """cuts the tree below a scenario into at least target prefixes"""
    leaves = []
    work = [[]]
    enough = time.time() + 2.0
    while work and len(work) + len(leaves) < target and time.time() < enough:
        nxt = []
        for prefix in work:
            if time.time() > enough:
                nxt.append(prefix)
                continue
            try:
                run_one(func, prefix, tier, set(), set(), stop=True)
                leaves.append(prefix)      # complete execution
            except _Frontier as fro:
                nxt.extend(prefix + [i] for i in range(fro.width))
        work = nxt
    return leaves + work


def in_child(task):
    """runs task() in a forked process, returns (pid, read end of its pipe)"""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            scratch = os.path.join(os.environ['MC_SCRATCH'],
                                   'w{}'.format(os.getpid()))
            os.mkdir(scratch)
            os.chdir(scratch)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            if not os.environ.get('MC_DEBUG'):
                os.dup2(devnull, 2)
            os.environ['MC_WORK'] = scratch
            data = pickle.dumps(task())
            with os.fdopen(wfd, 'wb') as fpt:
                fpt.write(data)
            code = 0
        except BaseException:
            try:
                with os.fdopen(wfd, 'wb') as fpt:
                    fpt.write(pickle.dumps({'error': traceback.format_exc()}))
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(wfd)
    return pid, rfd


def run_pool(tasks, workers, on_result, should_stop):
    """runs tasks (list of (key, callable)) in forked processes"""
    pending = list(reversed(tasks))
    live = {}
    while pending or live:
        while pending and len(live) < workers and not should_stop():
            key, task = pending.pop()
            pid, rfd = in_child(task)
            live[rfd] = (key, pid, bytearray())
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for rfd in ready:
            key, pid, buf = live[rfd]
            data = os.read(rfd, 1 << 20)
            if data:
                buf.extend(data)
                continue
            os.close(rfd)
            del live[rfd]
            _, status = os.waitpid(pid, 0)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            result = pickle.loads(bytes(buf)) if buf else None
            on_result(key, result, status)
        if should_stop() and not live:
            break

#!/usr/bin/env python3
"""P25: Python trace switches and contexts restore state for every nesting.

Runs the repository's Python code against a stand-in for the compiled library that keeps the switches and records what is
emitted.  Enumerates all programs (nestings of the scopes) up to a size, and for pairs of threads all interleavings at the
calls into the library."""
import argparse, gc, itertools, json, multiprocessing as mp, os, sys, threading, time, types, weakref
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'scalopus_python', 'scalopus')


class Violation(Exception):
    pass


def require(ok, fmt, *args):
    if not ok:
        raise Violation(fmt % args)


class World:
    """The library: switches of the process and of every thread, and the emitted events."""

    def __init__(self):
        self.current = 0
        self.thread_state = {}
        self.process_state = True
        self.log = []
        self.names = {}
        self.unique = 0
        self.point = None
        self.transitions = 0

    def lib(self):
        w = self

        def step():
            w.transitions += 1
            if w.point:
                w.point()

        def set_thread(v):
            step()
            old = w.thread_state.get(w.current, True)
            w.thread_state[w.current] = bool(v)
            return old

        def set_process(v):
            step()
            old, w.process_state = w.process_state, bool(v)
            return old

        def backend(name):
            def emit(kind):
                def f(*args):
                    step()
                    if w.process_state and w.thread_state.get(w.current, True):
                        w.log.append((w.current, name, kind) + args)
                return f
            m = types.SimpleNamespace()
            for k in ('scope_entry', 'scope_exit', 'mark_event', 'count_event'):
                setattr(m, k, emit(k))
            m.EndpointNativeTraceSender = m.NativeTraceProvider = object
            return m

        def unique():
            w.unique += 1
            return w.unique

        t = types.SimpleNamespace()
        t.setTraceName = lambda i, n: w.names.__setitem__(i, n)
        t.getThreadState = lambda: w.thread_state.get(w.current, True)
        t.setThreadState = set_thread
        t.getProcessState = lambda: w.process_state
        t.setProcessState = set_process
        t.MarkLevel = types.SimpleNamespace(GLOBAL='G', PROCESS='P', THREAD='T')
        t.EndpointTraceMapping = t.EndpointTraceConfigurator = object
        t.uniqueTraceId = unique
        t.native, t.lttng, t.nop = backend('native'), backend('lttng'), backend('nop')
        g = types.SimpleNamespace(EndpointIntrospect=object, EndpointProcessInfo=object, EndpointManagerPoll=object,
                                  GeneralProvider=object, setThreadName=lambda n: None)
        m = types.ModuleType('scalopus.lib')
        m.tracing, m.general = t, g
        return m


CODE = {}


def load(world, name):
    """A fresh instance of the module scalopus.<name> of the tree."""
    if name not in CODE:
        path = os.path.join(PKG, name + '.py')
        CODE[name] = compile(open(path).read(), path, 'exec')
    pkg = types.ModuleType('scalopus')
    pkg.__path__ = []
    sys.modules['scalopus'] = pkg
    sys.modules['scalopus.lib'] = pkg.lib = world.lib()
    m = types.ModuleType('scalopus.' + name)
    m.__package__ = 'scalopus'
    sys.modules['scalopus.' + name] = m
    exec(CODE[name], m.__dict__)
    return m


class Boom(Exception):
    pass


# ---- programs -------------------------------------------------------------------------------------------------------
INNER_ALL = ['SwF', 'SwT', 'ShF', 'ShT', 'Man', 'Sup', 'Sup2', 'SecA', 'SecB', 'SecM', 'Trc', 'TrcN', 'Try']
LEAF_ALL = ['Raise', 'Emit', 'SetF', 'SetT']
INNER_FEW = ['SwT', 'ShF', 'Sup', 'SecA', 'Try']
LEAF_FEW = ['Raise', 'SetT']


def forests(n, inner, leaf):
    """All forests with exactly n nodes: lists of (label, children)."""
    if n == 0:
        yield ()
        return
    for k in range(n):  # size of the first tree's children
        for kids in forests(k, inner, leaf):
            for lab in (inner if k else inner + leaf):
                for rest in forests(n - 1 - k, inner, leaf):
                    yield ((lab, kids),) + rest


class Real:
    """The objects of the tree that a program uses; shared by all threads."""

    def __init__(self, m):
        self.m = m
        self.shF, self.shT = m.ThreadStateSwitcher(False), m.ThreadStateSwitcher(True)
        self.manual = m.ThreadStateSwitcher(False)
        self.secM = m.TraceContext('manual', trace_id=900)
        self.mark = m.MarkerEvent('mark', trace_id=901)

        @m.suppressed
        def sup(body, x, *, y):
            """doc"""
            body()
            return (x, y)

        @m.suppressed
        def sup2(body, x, *, y):
            body()
            return (x, y)

        @m.traced
        def trc(body, x, *, y):
            body()
            return (x, y)

        @m.traced('other name')
        def trcn(body, x, *, y):
            body()
            return (x, y)
        self.sup, self.sup2, self.trc, self.trcn = sup, sup2, trc, trcn
        require(sup.__name__ == 'sup' and sup.__doc__ == 'doc' and trc.__name__ == 'trc', 'a decorated function lost its name or documentation')
        self.secA = m.trace_section.alpha
        self.secB = m.trace_section('beta')

    def run(self, prog):
        m = self.m
        for lab, kids in prog:
            body = (lambda k=kids: self.run(k))
            if lab == 'SwF' or lab == 'SwT':
                with m.ThreadStateSwitcher(lab == 'SwT'):
                    body()
            elif lab == 'ShF':
                with self.shF:
                    body()
            elif lab == 'ShT':
                with self.shT:
                    body()
            elif lab == 'Man':
                self.manual.enter()
                try:
                    body()
                finally:
                    self.manual.exit()
            elif lab in ('Sup', 'Sup2', 'Trc', 'TrcN'):
                f = {'Sup': self.sup, 'Sup2': self.sup2, 'Trc': self.trc, 'TrcN': self.trcn}[lab]
                r = f(body, 5, y='z')
                require(r == (5, 'z'), 'a decorated function returned %r', r)
            elif lab == 'SecA':
                with m.trace_section.alpha:
                    body()
            elif lab == 'SecB':
                with m.trace_section('beta'):
                    body()
            elif lab == 'SecM':
                self.secM.enter()
                try:
                    body()
                finally:
                    self.secM.exit()
            elif lab == 'Try':
                try:
                    body()
                except Boom:
                    pass
            elif lab == 'Raise':
                raise Boom()
            elif lab == 'Emit':
                self.mark.thread()
            else:
                m.setThreadState(lab == 'SetT')


class Model:
    """What a program has to do: the state of one thread and the events it emits."""

    def __init__(self, state, ids, thread=0):
        self.state, self.ids, self.thread, self.log = state, ids, thread, []

    def emit(self, *e):
        if self.state:
            self.log.append((self.thread, 'native') + e)

    def run(self, prog):
        for lab, kids in prog:
            if lab in ('SwF', 'SwT', 'ShF', 'ShT', 'Man', 'Sup', 'Sup2'):
                old = self.state
                self.state = lab in ('SwT', 'ShT')
                try:
                    self.run(kids)
                finally:
                    self.state = old
            elif lab in self.ids:
                self.emit('scope_entry', self.ids[lab])
                try:
                    self.run(kids)
                finally:
                    self.emit('scope_exit', self.ids[lab])
            elif lab == 'Try':
                try:
                    self.run(kids)
                except Boom:
                    pass
            elif lab == 'Raise':
                raise Boom()
            elif lab == 'Emit':
                self.emit('mark_event', 901, 'T')
            else:
                self.state = lab == 'SetT'


def identifiers(w, r):
    """Which identifier every scope has, by the names the library was told."""
    by = {}
    for i, n in w.names.items():
        require(n not in by, 'two identifiers for the name %s', n)
        by[n] = i
    for n in ('alpha', 'beta', 'manual', 'trc', 'other name', 'mark'):
        require(n in by, 'no identifier is known for %s, only %s', n, sorted(by))
    return {'SecA': by['alpha'], 'SecB': by['beta'], 'SecM': by['manual'], 'Trc': by['trc'], 'TrcN': by['other name']}


def show(p):
    return ' '.join(lab + ('(' + show(k) + ')' if k else '') for lab, k in p) if p else ''


def guarded(f, p):
    try:
        f(p)
        return 'completed'
    except Boom:
        return 'raised'


def sequential(prog, stat, initial=True):
    w = World()
    m = load(w, 'tracing')
    r = Real(m)
    ids = identifiers(w, r)
    w.thread_state[0] = initial
    model = Model(initial, ids)
    got, want = guarded(r.run, prog), guarded(model.run, prog)
    stat.transitions += w.transitions
    stat.outcome((want, tuple(e[2:] for e in model.log), model.state))
    what = 'program %s (thread %s at first)' % (show(prog), 'on' if initial else 'off')
    require(got == want, '%s: %s, expected: %s', what, got, want)
    require(w.log == model.log, '%s: emitted %s, expected %s', what, w.log, model.log)
    require(w.thread_state.get(0, True) == model.state, '%s: the thread is left %s, expected %s', what, w.thread_state.get(0, True), model.state)
    require(w.process_state is True, '%s: the process switch changed', what)


# ---- threads --------------------------------------------------------------------------------------------------------
class Pool:
    """Threads that run one at a time, switching only at calls into the library, as a schedule says."""

    def __init__(self, n):
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.job = [None] * n
        self.err = [None] * n
        self.n = n
        for i in range(n):
            threading.Thread(target=self.loop, args=(i,), daemon=True).start()

    def loop(self, i):
        while True:
            self.go[i].acquire()
            try:
                self.job[i]()
            except BaseException as e:
                self.err[i] = e
            self.job[i] = None
            self.back.release()

    def switch(self, i):
        self.back.release()
        self.go[i].acquire()

    def run(self, w, jobs, schedule):
        """Follows the schedule, then always the first runnable thread; returns the choices made and how many there were."""
        self.err = [None] * self.n
        for i, j in enumerate(jobs):
            self.job[i] = j

        def point():
            self.switch(w.current)
        w.point = point
        taken, width = [], []
        while True:
            ready = [i for i in range(len(jobs)) if self.job[i] is not None]
            if not ready:
                break
            k = len(taken)
            c = schedule[k] if k < len(schedule) else 0
            taken.append(c)
            width.append(len(ready))
            i = ready[c]
            w.current = i
            self.go[i].release()
            self.back.acquire()
            # the thread now waits before its next call, or is done
        w.point = None
        return taken, width


def interleave(pool, progs, initial, stat, only=None):
    schedule = []
    while True:
        w = World()
        m = load(w, 'tracing')
        r = Real(m)
        ids = identifiers(w, r)
        for i, s in enumerate(initial):
            w.thread_state[i] = s
        ends = [None] * len(progs)

        def job(i):
            def f():
                ends[i] = guarded(r.run, progs[i])
            return f
        taken, width = pool.run(w, [job(i) for i in range(len(progs))], only if only is not None else schedule)
        stat.executions += 1
        stat.transitions += w.transitions
        what = 'threads %s (%s), schedule %s' % (' | '.join(show(p) for p in progs), ', '.join('on' if s else 'off' for s in initial), ''.join(map(str, taken)))
        stat.last = {'schedule': taken}
        for e in pool.err:
            if isinstance(e, Violation):
                raise e
            require(e is None, '%s: %r', what, e)
        stat.outcome((tuple(w.log), tuple(sorted(w.thread_state.items()))))
        for i, p in enumerate(progs):
            model = Model(initial[i], ids, i)
            want = guarded(model.run, p)
            mine = [e for e in w.log if e[0] == i]
            require(ends[i] == want, '%s: thread %d %s, expected: %s', what, i, ends[i], want)
            require(mine == model.log, '%s: thread %d emitted %s, expected %s', what, i, mine, model.log)
            require(w.thread_state[i] == model.state, '%s: thread %d is left %s, expected %s', what, i, w.thread_state[i], model.state)
        if only is not None:
            return
        # next schedule in depth first order
        while taken and taken[-1] + 1 >= width[len(taken) - 1]:
            taken.pop()
        if not taken:
            return
        taken[-1] += 1
        schedule = taken


# ---- helpers --------------------------------------------------------------------------------------------------------
def helpers(seq, stat):
    """A sequence of look-ups and events, on two helpers with prefixes and both backends."""
    w = World()
    m = load(w, 'tracing')
    h = [m.trace_section, m.TraceContextHelper('pre ')]
    known, want, back = {}, [], 'native'
    c = m.trace_count
    for op in seq:
        if op[0] == 'sec':
            _, k, n, how = op
            ctx = getattr(h[k], n) if how else h[k](n)
            name = ('', 'pre ')[k] + n
            require(w.names.get(ctx.trace_id) == name, 'section %s has the name %s', name, w.names.get(ctx.trace_id))
            require(known.setdefault((k, n), ctx.trace_id) == ctx.trace_id, 'section %s got another identifier', name)
            with ctx:
                pass
            want += [(0, back, 'scope_entry', ctx.trace_id), (0, back, 'scope_exit', ctx.trace_id)]
        elif op[0] == 'count':
            e = getattr(c, op[1])
            require(known.setdefault(('c', op[1]), e.trace_id) == e.trace_id, 'counter %s got another identifier', op[1])
            require(w.names.get(e.trace_id) == op[1], 'counter %s has the name %s', op[1], w.names.get(e.trace_id))
            e.count(op[2])
            want.append((0, back, 'count_event', e.trace_id, op[2]))
        elif op[0] == 'mark':
            e = m.MarkerEvent('m', trace_id=op[2])
            require(e.trace_id == op[2] and w.names.get(op[2]) == 'm', 'a mark has another identifier than given')
            getattr(e, op[1])()
            want.append((0, back, 'mark_event', op[2], {'global_': 'G', 'process': 'P', 'thread': 'T'}[op[1]]))
        else:
            back = op[1]
            m.setBackend(getattr(m.tracing, back))
    require(len(set(known.values())) == len(known), 'two names share an identifier: %s', known)
    stat.transitions += w.transitions
    stat.outcome(tuple(want))
    require(w.log == want, '%s: emitted %s, expected %s', seq, w.log, want)


HELPER_OPS = [('sec', 0, 'a', True), ('sec', 0, 'a', False), ('sec', 0, 'b', True), ('sec', 1, 'a', True), ('sec', 1, 'b', False), ('count', 'a', 0), ('count', 'x', -3),
              ('mark', 'global_', 1000), ('mark', 'process', 1000), ('mark', 'thread', 0), ('back', 'nop'), ('back', 'lttng'), ('back', 'native')]


def factories(seq, stat):
    """The weak factory helper: creates endpoints while the provider lives, and does not keep it alive."""
    w = World()
    g = load(w, 'general')

    class Provider:
        calls = 0

        def factory(self, transport):
            Provider.calls += 1
            return ('endpoint', transport)
    p = Provider()
    alive = weakref.ref(p)
    f = g.weak_provider_endpoint_factory(p)
    n = 0
    for op in seq:
        stat.transitions += 1
        if op == 'drop':
            p = None
            gc.collect()
            require(alive() is None, 'the factory keeps its provider alive')
        else:
            r = f(op)
            n += p is not None
            require(r == (('endpoint', op) if p is not None else None), 'the factory returned %r', r)
    require(Provider.calls == n, 'the provider was asked %d times instead of %d', Provider.calls, n)
    stat.outcome(seq)


# ---- running --------------------------------------------------------------------------------------------------------
class Stat:
    def __init__(self):
        self.executions = self.transitions = 0
        self.seen = set()
        self.last = {}

    def outcome(self, o):
        self.seen.add(hash(o))


def cases(name, tier):
    if name == 'programs':
        for n in range(1, 5 if tier == 'thorough' else 4):
            for f in forests(n, INNER_ALL, LEAF_ALL):
                for s in (True, False):
                    yield (f, s)
    elif name == 'nesting':
        for n in range(1, 7 if tier == 'thorough' else 6):
            inner = INNER_FEW if n < 5 else ['ShF', 'Sup', 'SecA', 'Try'] if n == 5 else ['ShF', 'SecA', 'Try']
            for f in forests(n, inner, LEAF_FEW):
                yield (f, True)
    elif name == 'threads':
        small = [f for n in (1, 2) for f in forests(n, ['Sup', 'ShF', 'ShT', 'Trc'] if tier == 'thorough' else ['Sup', 'ShT', 'SecA'], ['Emit'])]
        if tier == 'thorough':
            small += list(forests(3, ['Sup', 'ShF', 'SecA'], ['Emit']))
        for i, a in enumerate(small):
            for b in small[:i + 1]:
                for s in ((True, True), (False, True)) + (((False, False),) if tier == 'thorough' else ()):
                    yield ((a, b), s)
        one = [f for f in forests(1, ['Sup', 'ShF', 'ShT', 'Trc'], ['Emit'])]
        for t in itertools.product(one, repeat=3):
            yield (t, (True, False, True))
    elif name == 'helpers':
        for n in range(1, 6 if tier == 'thorough' else 5):
            yield from ((s,) for s in itertools.product(HELPER_OPS, repeat=n))
    else:
        for n in range(0, 5):
            yield from ((s,) for s in itertools.product(('t1', 't2', 'drop'), repeat=n))


POOL = None


def execute(name, case, stat, extra=None):
    global POOL
    if name in ('programs', 'nesting'):
        sequential(case[0], stat, case[1])
        stat.executions += 1
    elif name == 'threads':
        if POOL is None:
            POOL = Pool(3)
        interleave(POOL, case[0], case[1], stat, extra and extra.get('schedule'))
    elif name == 'helpers':
        helpers(case[0], stat)
        stat.executions += 1
    else:
        factories(case[0], stat)
        stat.executions += 1


def shard(args):
    name, tier, k, n = args
    stat, bad = Stat(), None
    for i, case in enumerate(cases(name, tier)):
        if i % n != k:
            continue
        stat.last = {}
        try:
            execute(name, case, stat)
        except Violation as e:
            bad = (i, str(e), stat.last)
            break
        except Exception as e:
            bad = (i, 'case %s: %s: %s' % (case, type(e).__name__, e), stat.last)
            break
    return stat.executions, stat.transitions, stat.seen, bad


NAMES = ['programs', 'nesting', 'threads', 'helpers', 'factories']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--vdir')
    ap.add_argument('--replay')
    a, _ = ap.parse_known_args()
    if a.replay:
        r = json.load(open(a.replay))
        for i, case in enumerate(cases(r['scenario'], r['tier'])):
            if i == r['index']:
                print('case %d: %s %s' % (i, case, r['extra']))
                try:
                    execute(r['scenario'], case, Stat(), r['extra'] or None)
                except Exception as e:
                    print('%s: %s' % (type(e).__name__, e))
                    return 1
                print('no violation')
                return 0
        return 2
    res, code = [], 0
    for name in NAMES:
        t0 = time.time()
        n = os.cpu_count() or 4
        with mp.get_context('fork').Pool(n) as pool:
            parts = pool.map(shard, [(name, a.tier, k, n) for k in range(n)], chunksize=1)
        seen = set().union(*[p[2] for p in parts])
        x = dict(scenario=name, executions=sum(p[0] for p in parts), transitions=sum(p[1] for p in parts), states=len(seen), distinct_outcomes=len(seen), exhaustive=True, bound=0, completed=0,
                 seconds=round(time.time() - t0, 1))
        bad = min((p[3] for p in parts if p[3]), default=None, key=lambda b: b[0])
        if bad:
            f = os.path.join(a.vdir, name + '.replay')
            json.dump(dict(scenario=name, tier=a.tier, index=bad[0], extra=bad[2], message=bad[1]), open(f, 'w'))
            x['violation'] = dict(kind='property', msg=bad[1], replay=f)
            x['exhaustive'] = False
            code = 1
        print('%-34s executions %d outcomes %d %.1fs%s' % (name, x['executions'], len(seen), x['seconds'], ' VIOLATION' if bad else ''), file=sys.stderr)
        res.append(x)
        if bad:
            break
    json.dump(res, open(a.out, 'w'))
    return code


sys.exit(main())

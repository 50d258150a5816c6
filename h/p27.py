#!/usr/bin/env python3
"""P27: the command line tool and the default exposer do their work with every set of servers.

Runs scalopus_python/scalopus/__main__.py (and common.py) against a stand-in for the compiled library with up to three
servers.  Enumerates which endpoints the servers offer and how each of them answers, with all command lines of a set, and
compares what the tool prints and what it does to the servers with the specification."""
import argparse, contextlib, io, itertools, json, multiprocessing as mp, os, re, signal, sys, time, types
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(REPO, 'scalopus_python')


class Violation(Exception):
    pass


def require(ok, fmt, *args):
    if not ok:
        raise Violation(fmt % args)


W = None  # the current world


class Server:
    """One server process: what it offers and how it answers."""

    def __init__(self, pid, name='p', threads=(), traced=(), info='ok', intro='ok', conf='ok', state=True, extra=()):
        self.pid, self.name, self.threads = pid, name, dict(threads)
        self.info, self.intro, self.conf = info, intro, conf
        self.process_state = state
        self.thread_state = {t: True for t in traced}
        self.offers = ['introspect'] + list(extra)
        if info != 'absent':
            self.offers.append('process_info')
        if conf != 'absent':
            self.offers.append('scope_tracing_configurator')
        if intro == 'silent':  # it did not say what it offers when the manager connected
            self.offers = []
        self.supported = sorted(self.offers)

    def switches(self):
        return (self.process_state, tuple(sorted(self.thread_state.items())))

    def answer(self, how, what):
        W.transitions += 1
        if how == 'raise':
            raise RuntimeError('the server is gone')
        if how == 'value':
            raise ValueError('vector::_M_default_append')


class World:
    def __init__(self, servers=(), naps=1, events=((), ()), fail=('', '')):
        self.servers = list(servers)
        self.naps, self.events, self.fail = naps, events, fail
        self.transitions = 0
        self.log = []
        self.sources = []
        self.pollers = []

    def happen(self):
        for s in self.sources:
            s.happen()


def static(f):
    return staticmethod(f)


def make_lib(lttng):
    m = types.ModuleType('scalopus.scalopus_python_lib')
    ns = types.SimpleNamespace

    class Endpoint:
        def __init__(self):
            self.transport = None

        @classmethod
        def factory(cls, transport):
            e = cls()
            e.transport = transport
            return e

    class Address:
        def __init__(self, s):
            self.s = s

        def __str__(self):
            return str(self.s.pid)

        def hash_code(self):
            return hash(self.s.pid)

    class Transport:
        def __init__(self, s=None):
            self.s, self.endpoints = s, []

        def getAddress(self):
            return Address(self.s)

        def isConnected(self):
            return True

        def addEndpoint(self, e):
            self.endpoints.append(e)

    class UnixFactory:
        kind = 'unix'

        def serve(self):
            t = Transport()
            W.log.append(('serve', self, t))
            return t

        def discover(self):
            return [Address(s) for s in W.servers]

    class LoopbackFactory(UnixFactory):
        kind = 'loopback'

    class Introspect(Endpoint):
        name = 'introspect'

        def supported(self):
            s = self.transport.s
            s.answer(s.intro, 'supported')
            return [] if s.intro == 'timeout' else list(s.supported)

    class ProcessInfoData:
        def __init__(self, s=None):
            self.s = s
            self.pid = s.pid if s else 0
            self.threads = dict(s.threads) if s else {}

        @property
        def name(self):
            if self.s and self.s.info == 'badname':
                b'\xff'.decode('utf8')
            return self.s.name if self.s else ''

        def to_dict(self):
            return dict(name=self.name, threads=dict(self.threads), pid=self.pid)

    class ProcessInfo(Endpoint):
        name = 'process_info'

        def setProcessName(self, n):
            self.process_name = n

        def processInfo(self):
            s = self.transport.s
            s.answer(s.info, 'processInfo')
            return ProcessInfoData() if s.info == 'timeout' else ProcessInfoData(s)

    class TraceConfiguration:
        def __init__(self):
            self.process_state = self.cmd_success = self.set_process_state = False
            self.thread_state = {}

        def add_thread_entry(self, i, state):
            self.thread_state[i] = bool(state)

        def to_dict(self):
            return dict(set_process_state=self.set_process_state, process_state=self.process_state, cmd_success=self.cmd_success, thread_state=dict(self.thread_state))

    class Configurator(Endpoint):
        name = 'scope_tracing_configurator'

        def report(self, s):
            r = TraceConfiguration()
            if s.conf not in ('timeout', 'late'):
                r.cmd_success, r.process_state, r.thread_state = True, s.process_state, dict(s.thread_state)
            return r

        def setTraceState(self, new):
            s = self.transport.s
            s.answer(s.conf, 'setTraceState')
            if s.conf in ('ok', 'late'):
                if new.set_process_state:
                    s.process_state = bool(new.process_state)
                for t, v in new.thread_state.items():
                    if t in s.thread_state:
                        s.thread_state[t] = v
            return self.report(s)

        def getTraceState(self):
            s = self.transport.s
            s.answer(s.conf, 'getTraceState')
            return self.report(s)
    Configurator.TraceConfiguration = TraceConfiguration

    class Mapping(Endpoint):
        name = 'scope_tracing'

    class Sender(Endpoint):
        name = 'native_tracepoint_sender'

    class Poller:
        def __init__(self, factory):
            require(isinstance(factory, UnixFactory) and factory.kind == 'unix', 'the manager got %r', factory)
            self.factories, self.map, self.polling, self.logger, self.intervals = {Introspect.name: Introspect.factory}, {}, False, None, []
            W.pollers.append(self)

        def addEndpointFactory(self, name, f):
            self.factories[name] = f

        def manage(self):
            W.transitions += 1
            for s in W.servers:
                t = Transport(s)
                self.map[t] = {n: self.factories[n](t) for n in sorted(s.offers) if n in self.factories}

        def startPolling(self, interval):
            self.intervals.append(interval)
            self.polling = True

        def stopPolling(self):
            self.polling = False

        def setLogger(self, f):
            self.logger = f

        def endpoints(self):
            return {t: dict(e) for t, e in self.map.items()}

        def knows(self, *names):
            return self.polling and all(n in self.factories for n in names)

    class Source:
        def __init__(self, provider):
            self.provider, self.state, self.got = provider, 'new', []
            W.sources.append(self)

        def startInterval(self):
            W.transitions += 1
            self.state = 'running'

        def stopInterval(self):
            W.transitions += 1
            self.state = 'stopped'

        def happen(self):
            if self.state == 'running' and self.provider.ready():
                self.got += W.events[self.provider.number]

        def finishInterval(self):
            W.transitions += 1
            require(self.state == 'stopped', 'a recording is finished that is %s', self.state)
            f = W.fail[self.provider.number]
            if f:
                raise (RuntimeError if f == 'runtime' else ValueError)('the recording is broken')
            return [json.loads(json.dumps(e)) for e in self.got]

    class Provider:
        def makeSource(self):
            return Source(self)

    class Native(Provider):
        number = 0

        def __init__(self, manager):
            self.manager = manager

        def factory(self, transport):
            return Sender.factory(transport)

        def ready(self):
            f = self.manager.factories.get(Sender.name)
            return self.manager.knows(Sender.name, Mapping.name) and isinstance(f(None), Sender)

    class General(Provider):
        number = 1

        def __init__(self, manager):
            self.manager = manager

        def ready(self):
            return self.manager.knows(ProcessInfo.name)

    class Lttng(Provider):
        number = 0

        def __init__(self, session, manager):
            self.session, self.manager = session, manager

    class Catapult:
        def __init__(self):
            self.providers, self.port, self.logger = [], None, None
            W.log.append(('catapult', self))

        def addProvider(self, p):
            self.providers.append(p)

        def setLogger(self, f):
            self.logger = f

        def start(self, port=9222):
            require(self.port is None, 'the server is started twice')
            self.port = port

    def backend():
        return ns(scope_entry=None, scope_exit=None, mark_event=None, count_event=None)
    m.interface = ns(Endpoint=Endpoint, TraceEventSource=object, TraceEventProvider=object, Transport=Transport, TransportFactory=UnixFactory, Destination=Address)
    m.transport = ns(TransportUnixFactory=UnixFactory, TransportLoopbackFactory=LoopbackFactory)
    m.general = ns(EndpointIntrospect=Introspect, EndpointProcessInfo=ProcessInfo, ProcessInfo=ProcessInfoData, EndpointManagerPoll=Poller, GeneralProvider=General, setThreadName=lambda n: None)
    native = backend()
    native.EndpointNativeTraceSender, native.NativeTraceProvider = Sender, Native
    t = ns(EndpointTraceMapping=Mapping, EndpointTraceConfigurator=Configurator, native=native, nop=backend(), MarkLevel=ns(GLOBAL='G', PROCESS='P', THREAD='T'), uniqueTraceId=lambda: 1,
           setTraceName=lambda i, n: None, getThreadState=lambda: True, setThreadState=lambda v: True, getProcessState=lambda: True, setProcessState=lambda v: True)
    if lttng:
        t.lttng = backend()
        t.lttng.LttngProvider = Lttng
    m.tracing = t
    m.catapult = ns(CatapultServer=Catapult)
    m.kinds = ns(Introspect=Introspect, ProcessInfo=ProcessInfo, Mapping=Mapping, Configurator=Configurator, Sender=Sender, Native=Native, General=General, Lttng=Lttng, Loopback=LoopbackFactory)
    return m


LOADED = {}


def package(lttng):
    """The package of the tree on top of the stand-in for the library, with or without LTTng support."""
    global W
    if lttng not in LOADED:
        for k in [k for k in sys.modules if k.split('.')[0] == 'scalopus']:
            del sys.modules[k]
        if ROOT not in sys.path:
            sys.path.insert(0, ROOT)
        W = World()
        sys.modules['scalopus.scalopus_python_lib'] = make_lib(lttng)
        import scalopus
        LOADED[lttng] = {k: v for k, v in sys.modules.items() if k.split('.')[0] == 'scalopus'}
    for k in [k for k in sys.modules if k.split('.')[0] == 'scalopus']:
        del sys.modules[k]
    sys.modules.update(LOADED[lttng])
    return LOADED[lttng]['scalopus']


CODE = []
PATIENCE = [10.0]


def run(world, argv, lttng=False):
    """Runs the tool; returns its exit status and what it printed."""
    global W
    package(lttng)
    W = world
    if not CODE:
        path = os.path.join(ROOT, 'scalopus', '__main__.py')
        CODE.append(compile(open(path).read(), path, 'exec'))

    def interrupt():
        world.happen()
        world.naps -= 1
        if world.naps <= 0:
            raise KeyboardInterrupt()

    def nap(seconds):
        require(seconds > 0 or world.naps > 0, 'the tool does not wait')
        interrupt()

    def alarm(*_):
        PATIENCE[0] = 0.5
        world.naps = 0
        interrupt()
    real, argv0, out = time.sleep, sys.argv, io.StringIO()
    handler = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, PATIENCE[0])
    time.sleep, sys.argv = nap, ['scalopus'] + [str(x) for x in argv]
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                exec(CODE[0], {'__name__': '__main__', '__file__': os.path.join(ROOT, 'scalopus', '__main__.py'), '__package__': 'scalopus'})
            except SystemExit as e:
                code = e.code or 0
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, handler)
        time.sleep, sys.argv = real, argv0
    return code, out.getvalue()


ON, OFF = '\x1b[92m', '\x1b[94m'


def paint(text):
    """What a coloured number says: (number, state), state None without a colour."""
    n = re.search(r'\d+', re.sub(r'\x1b\[\d+m', '', text))
    require(n is not None, 'no number in %r', text)
    return int(n.group()), True if ON in text else False if OFF in text else None


def parse(out):
    """The processes that were printed: [((pid, state), name, {endpoints}, [((thread, state), name)])]."""
    res, where = [], None
    for line in out.split('\n'):
        s = line.strip()
        m = re.match(r'PID:\s*((?:\x1b\[\d+m)?\s*\d+(?:\x1b\[0m)?)\s+"(.*)"$', s)
        if m:
            res.append((paint(m.group(1)), m.group(2), [], []))
            where = 'threads'
        elif not s or not res or not line.startswith(' '):
            continue
        elif s == 'Endpoints:':
            where = 'endpoints'
        elif s == 'Threads:':
            where = 'threads'
        elif where == 'endpoints':
            res[-1][2].append(s)
        else:
            m = re.match(r'((?:\x1b\[\d+m)?\s*\d+(?:\x1b\[0m)?)\s+"(.*)"$', s)
            require(m is not None, 'what is this: %r', line)
            res[-1][3].append((paint(m.group(1)), m.group(2)))
    return res


def describe(s):
    return '%d(%s, info %s, endpoints %s, switches %s)' % (s.pid, ','.join(s.offers), s.info, s.intro, s.conf)


def discover(servers, stat):
    w = World(servers)
    what = 'discover with ' + '; '.join(describe(s) for s in servers)
    code, out = run(w, ['discover'])
    stat.transitions += w.transitions
    require(code == 0, '%s: exit status %s', what, code)
    got = parse(out)
    want = [(s.pid, s.name, tuple(s.supported) if s.intro == 'ok' else None, tuple(sorted(s.threads.items()))) for s in servers if s.info == 'ok' and s.intro != 'silent']
    open_ = {(s.pid, s.name) for s in servers if s.intro != 'ok'}
    mine = []
    for (pid, state), name, endpoints, threads in got:
        e = None if (pid, name) in open_ else tuple(sorted(endpoints))
        mine.append((pid, name, e, tuple(sorted((t[0], n) for t, n in threads))))
    if open_:  # nothing is said about the endpoints of a server that does not tell them
        want = [(x[0], x[1], None if (x[0], x[1]) in open_ else x[2], x[3]) for x in want]
    require([x[0] for x in mine] == sorted(x[0] for x in mine), '%s: not ordered by process: %s', what, mine)
    key = repr
    require(sorted(mine, key=key) == sorted(want, key=key), '%s: printed %s, expected %s', what, mine, want)
    for s in servers:
        require(s.process_state, '%s: a switch was changed', what)
    stat.outcome(tuple(sorted(map(repr, want))))


def configure(servers, argv, stat):
    """argv: (state, unmatched, ids, options first)"""
    state, unmatched, ids, first = argv
    opt = [] if unmatched is None else ['-u'] + ([unmatched] if unmatched else [])
    pos = ([state] if state else []) + list(ids)
    if opt == ['-u'] and pos:  # the option would take the state
        first = False
    line = ['trace_configure'] + (opt + pos if first else pos + opt)
    before = [s.switches() for s in servers]
    w = World(servers)
    what = 'scalopus %s with %s' % (' '.join(map(str, line)), '; '.join('%s %s' % (describe(s), s.switches()) for s in servers))
    want_switch, want = [], []
    for s in servers:
        p, t = s.process_state, dict(s.thread_state)
        known = s.info == 'ok' and s.conf != 'absent' and s.intro != 'silent'
        if known and s.conf in ('ok', 'late'):
            if s.pid in ids:
                p = state == 'on'
            elif unmatched:
                p = unmatched == 'on'
            for i in s.threads:
                if i in ids and i in t:
                    t[i] = state == 'on'
        want_switch.append((p, tuple(sorted(t.items()))))
        if known and s.conf in ('ok', 'stubborn'):
            want.append(((s.pid, p), s.name, tuple(sorted(((i, t.get(i)), n) for i, n in s.threads.items()))))
    code, out = run(w, line)
    stat.transitions += w.transitions
    require(code == 0, '%s: exit status %s', what, code)
    got = [(p, n, tuple(sorted(t, key=repr))) for p, n, _, t in parse(out)]
    want = [(p, n, tuple(sorted(t, key=repr))) for p, n, t in want]
    for s, b, x in zip(servers, before, want_switch):
        require(s.switches() == x, '%s: process %d had switches %s, now %s, expected %s', what, s.pid, b, s.switches(), x)
    require([x[0][0] for x in got] == sorted(x[0][0] for x in got), '%s: not ordered by process: %s', what, got)
    require(sorted(got, key=repr) == sorted(want, key=repr), '%s: printed %s, expected %s', what, got, want)
    stat.outcome(repr((sorted(want, key=repr), want_switch)))


EVENTS = [{'ph': 'B', 'name': 'a "b" \' {0} %s', 'ts': 1.5}, {'ph': 'M', 'args': {'name': 'x\ny', 'u': 'é'}, 'tid': 2 ** 63}, {'ph': 'i', 'l': [None, True]}]


def record(naps, counts, fail, stat):
    ev = tuple(tuple(EVENTS[:c]) if i == 0 else tuple(EVENTS[3 - c:]) for i, c in enumerate(counts))
    w = World((), naps, ev, fail)
    what = 'record: interrupted after %d waits, %s events each, failing %s' % (naps, counts, fail)
    code, out = run(w, ['record'])
    stat.transitions += w.transitions
    require(code == 0, '%s: exit status %s', what, code)
    try:
        got = json.loads(out)
    except ValueError as e:
        raise Violation('%s: printed %r: %s' % (what, out, e))
    want = [e for i in (0, 1) if not fail[i] for e in ev[i] * naps]
    k = lambda e: json.dumps(e, sort_keys=True)
    require(isinstance(got, list) and sorted(map(k, got)) == sorted(map(k, want)), '%s: printed %s, expected %s', what, got, want)
    require(all(s.state == 'stopped' for s in w.sources), '%s: a recording is still running', what)
    stat.outcome((naps, counts, fail))


def catapult(port, interval, quiet_poll, quiet_cat, session, lttng, naps, stat):
    line = ['catapult_server']
    if port is not None:
        line += ['-p', port]
    if interval is not None:
        line += ['--poll-interval', interval]
    line += ['--no-poll-log'] * quiet_poll + ['--no-catapult-log'] * quiet_cat
    if session and lttng:
        line += ['--lttng-session', session]
    w = World((), naps)
    what = 'scalopus %s (%s LTTng)' % (' '.join(map(str, line)), 'with' if lttng else 'without')
    code, out = run(w, line, lttng)
    k = sys.modules['scalopus.scalopus_python_lib'].kinds
    stat.transitions += 1
    require(code == 0, '%s: exit status %s', what, code)
    cats = [e[1] for e in w.log if e[0] == 'catapult']
    require(len(cats) == 1 and len(w.pollers) == 1, '%s: %d servers, %d managers', what, len(cats), len(w.pollers))
    c, p = cats[0], w.pollers[0]
    require(c.port == (9222 if port is None else port), '%s: started on port %s', what, c.port)
    require(p.intervals == [1.0 if interval is None else interval], '%s: polling at %s', what, p.intervals)
    for n in (k.Sender, k.ProcessInfo, k.Mapping, k.Configurator):
        f = p.factories.get(n.name)
        require(f is not None and isinstance(f('t'), n), '%s: no factory for %s', what, n.name)
    kinds = [k.Native, k.General] + ([k.Lttng] if lttng else [])
    require(sorted(type(x).__name__ for x in c.providers) == sorted(x.__name__ for x in kinds), '%s: providers %s', what, c.providers)
    for x in c.providers:
        require(x.manager is p, '%s: a provider got another manager', what)
        if lttng and isinstance(x, k.Lttng):
            require(x.session == (session or 'scalopus_target_session'), '%s: session %s', what, x.session)
    for who, quiet, x in (('manager', quiet_poll, p), ('server', quiet_cat, c)):
        require((x.logger is None) == bool(quiet), '%s: the %s %s', what, who, 'logs' if quiet else 'does not log')
        if x.logger:
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                x.logger('message 1')
            require('message 1' in b.getvalue(), '%s: a message of the %s is lost', what, who)
    stat.outcome((port, interval, quiet_poll, quiet_cat, session, lttng))


def exposer(args, lttng, stat):
    """args: name (None: the default), factory (None: the default)"""
    global W
    s = package(lttng)
    k = sys.modules['scalopus.scalopus_python_lib'].kinds
    W = w = World()
    kw = {}
    if args[0] is not None:
        kw['process_name'] = args[0]
    if args[1]:
        kw['transport_factory'] = k.Loopback()
    x = s.common.DefaultExposer(**kw)
    what = 'DefaultExposer(%s)' % kw
    stat.transitions += 1
    require(len(w.log) == 1 and w.log[0][0] == 'serve', '%s: %s', what, w.log)
    _, f, t = w.log[0]
    require(f.kind == ('loopback' if args[1] else 'unix'), '%s: uses %s', what, f)
    require(any(v is t for v in vars(x).values()), '%s: does not keep its server', what)
    want = [k.Introspect, k.ProcessInfo, k.Mapping, k.Configurator, k.Sender]
    require(sorted(e.name for e in t.endpoints) == sorted(e.name for e in want), '%s: offers %s', what, [e.name for e in t.endpoints])
    for e in t.endpoints:
        if isinstance(e, k.ProcessInfo):
            require(args[0] is None or getattr(e, 'process_name', None) == args[0], '%s: the process is called %s', what, getattr(e, 'process_name', None))
    stat.outcome((args, lttng))


# ---- running --------------------------------------------------------------------------------------------------------
class Stat:
    def __init__(self):
        self.executions = self.transitions = 0
        self.seen = set()

    def outcome(self, o):
        self.seen.add(hash(o))


PIDS = ((100, 2000, 30), (2000, 100, 100), (7, 7, 7))
NAMES_ = ('server', 'a "b" {0}', 'server')
INFO = ('ok', 'timeout', 'raise', 'value', 'badname', 'absent')


def cases(name, tier):
    thorough = tier == 'thorough'
    if name == 'discover':
        kinds = [(i, q, t) for i in INFO for q in ('ok', 'timeout', 'raise') for t in (0, 2)] + [('ok', 'silent', 0)]
        few = [(i, 'ok', 0) for i in INFO[:5]] + [('ok', 'timeout', 2), ('ok', 'raise', 2), ('absent', 'raise', 0), ('ok', 'silent', 0)]
        for pids in PIDS:
            for n in (0, 1, 2):
                yield from ((pids, c) for c in itertools.product(kinds, repeat=n))
            yield from ((pids, c) for c in itertools.product(kinds if thorough else few, repeat=3))
    elif name == 'configure':
        kinds = [('ok', 'ok', True), ('ok', 'ok', False), ('ok', 'stubborn', True), ('ok', 'timeout', True), ('ok', 'late', True), ('ok', 'raise', True), ('ok', 'value', False), ('ok', 'absent', True),
                 ('timeout', 'ok', True), ('raise', 'ok', False), ('badname', 'ok', True), ('absent', 'ok', True), ('silent', 'ok', False)]
        ids = [100, 2000, 11, 21, 999]
        def lines(ids):
            for u in (None, 'on', 'off', ''):
                yield (None, u, (), True)
                for s in ('on', 'off'):
                    for k in range(len(ids) + 1):
                        for c in itertools.combinations(ids, k):
                            yield (s, u, c, (k + len(u or '')) % 2 == 0)
        for pids in PIDS:
            for n in (0, 1, 2):
                if n == 2 and pids != PIDS[0] and not thorough:
                    use, some = kinds[:6] + kinds[8:10], ids[:3]
                else:
                    use, some = kinds, ids
                for c in itertools.product(use, repeat=n):
                    yield from ((pids, c, l) for l in lines(some))
        for c in itertools.product(kinds if thorough else [kinds[i] for i in (0, 1, 3, 5, 8, 9, 11)], repeat=3):
            yield from ((PIDS[0], c, l) for l in [('off', 'on', (2000, 21), True), ('on', 'off', (100, 31), False), ('on', None, (30, 100), True), (None, 'off', (), True)])
    elif name == 'record':
        n = 4 if thorough else 3
        yield from itertools.product(range(1, n), itertools.product(range(0, 4), repeat=2), itertools.product(('', 'runtime', 'value'), repeat=2))
    elif name == 'catapult':
        yield from itertools.product((None, 1, 65535), (None, 0.25), (0, 1), (0, 1), (None, 'my session'), (False, True), (1, 2))
    else:
        yield from itertools.product(itertools.product((None, '', 'a name'), (0, 1)), (False, True))


def execute(name, case, stat):
    stat.executions += 1
    if name == 'discover':
        pids, kinds = case
        discover([Server(pids[i], NAMES_[i], {10 * (i + 1) + j: 'thread %d' % j for j in range(t)}, (), info, intro, extra=['scope_tracing'][:i]) for i, (info, intro, t) in enumerate(kinds)], stat)
    elif name == 'configure':
        pids, kinds, line = case
        servers = []
        for i, (info, conf, state) in enumerate(kinds):
            threads = {10 * (i + 1) + 1: 'one', 10 * (i + 1) + 2: 'two'}
            if i == 1:
                threads[100] = 'like the other process'
            servers.append(Server(pids[i], NAMES_[i], threads, [10 * (i + 1) + 1, 100, 2000], info if info != 'silent' else 'ok', 'silent' if info == 'silent' else 'ok', conf, state))
        configure(servers, line, stat)
    elif name == 'record':
        record(*case, stat)
    elif name == 'catapult':
        catapult(*case, stat)
    else:
        exposer(*case, stat)


def shard(args):
    name, tier, k, n = args
    stat, bad = Stat(), None
    for i, case in enumerate(cases(name, tier)):
        if i % n != k:
            continue
        try:
            execute(name, case, stat)
        except Violation as e:
            bad = (i, str(e))
            break
        except (Exception, KeyboardInterrupt) as e:
            bad = (i, 'case %s: the tool ends with %s: %s' % (case, type(e).__name__, e))
            break
    return stat.executions, stat.transitions, stat.seen, bad


NAMES = ['discover', 'configure', 'record', 'catapult', 'exposer']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--vdir')
    ap.add_argument('--replay')
    a, _ = ap.parse_known_args()
    if a.replay:
        r = json.load(open(a.replay))
        for i, case in enumerate(cases(r['scenario'], r['tier'])):
            if i == r['index']:
                print('case %d: %s' % (i, case))
                try:
                    execute(r['scenario'], case, Stat())
                except (Exception, KeyboardInterrupt) as e:
                    print('%s: %s' % (type(e).__name__, e))
                    return 1
                print('no violation')
                return 0
        return 2
    res, code = [], 0
    for name in NAMES:
        t0 = time.time()
        n = os.cpu_count() or 4
        with mp.get_context('fork').Pool(n) as pool:
            parts = pool.map(shard, [(name, a.tier, k, n) for k in range(n)], chunksize=1)
        seen = set().union(*[p[2] for p in parts])
        x = dict(scenario=name, executions=sum(p[0] for p in parts), transitions=sum(p[1] for p in parts), states=len(seen), distinct_outcomes=len(seen), exhaustive=True, bound=0, completed=0,
                 seconds=round(time.time() - t0, 1))
        bad = min((p[3] for p in parts if p[3]), default=None, key=lambda b: b[0])
        if bad:
            f = os.path.join(a.vdir, name + '.replay')
            json.dump(dict(scenario=name, tier=a.tier, index=bad[0], message=bad[1]), open(f, 'w'))
            x['violation'] = dict(kind='property', msg=bad[1], replay=f)
            x['exhaustive'] = False
            code = 1
        print('%-34s executions %d outcomes %d %.1fs%s' % (name, x['executions'], len(seen), x['seconds'], ' VIOLATION' if bad else ''), file=sys.stderr)
        res.append(x)
        if bad:
            break
    json.dump(res, open(a.out, 'w'))
    return code


sys.exit(main())

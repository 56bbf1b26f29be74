"""Makes conditions and schedulers of well-formed and ill-formed
specifications and records what happens (judged by spec/FormsTrace.tla)."""
import copy
import signal
import warnings

import graph_scheduler as gs
import networkx as nx
from graph_scheduler import TimeScale

from gscrec import Hang, _alarm
from values import make_node

UNITS = {1: ('us', 'microseconds'), 1000: ('ms', 'milliseconds'), 10 ** 6: ('s', 'seconds')}


class OwnError(Exception):
    pass


class Thing:
    def __init__(self, how):
        if how == 'has':
            self.level = 3
        elif how == 'falsy':
            self.level = None
        self.other = 1


class Prop:
    @property
    def level(self):
        return 0


class Missing:
    @property
    def level(self):
        raise AttributeError('level')


class Dep:
    def __init__(self, v):
        if v != 'X':
            self.is_finished = lambda execution_id=None: v == 'T'


def unhashable(k):
    return [[1], {'a': 1}, {2}, bytearray(b'x')][k % 4]


class World:
    def __init__(self, scn):
        self.given = scn['nodes']
        self.nodes = [make_node(d) for d in self.given]

    def node(self, k, j=0):
        return unhashable(j) if k == 0 else self.nodes[k - 1]

    def again(self, k, o):
        """the same node, by another object if it has equal ones"""
        return make_node(self.given[k - 1]) if o.get('fresh') and self.given[k - 1][0] == 'eq' else self.node(k)


def stated(q, how, uparam):
    v = q['num'] if q['den'] == 1 else q['num'] / q['den']
    short, long = UNITS[q['u']]
    if how == 'num' and q['u'] == uparam:
        return v
    if how == 'numstr' and q['u'] == uparam:
        return str(v)
    if how == 'str':
        return f'{v} {short}'
    if how == 'long':
        return f'{v}{long}'
    return v * gs._unit_registry.Unit(short)


def interval(w, f, o):
    kw = {}
    for key, name in (('rep', 'repeat'), ('st', 'start'), ('en', 'end')):
        if f[key]:
            kw[name] = stated(f[key][0], o['how'][key], o['unit'])
        elif o['none']:
            kw[name] = None
    if o['unit'] != 1000 or o['unitkw']:
        u = UNITS[o['unit']]
        kw['unit'] = [u[0], u[1], gs._unit_registry.Unit(u[0])][o['unitkw'] % 3]
    if o['incl']:
        kw['start_inclusive'] = bool(o['incl'] & 1)
        kw['end_inclusive'] = bool(o['incl'] & 2)
    if o['pos']:
        a = [kw.pop(n, None) for n in ('repeat', 'start', 'end')]
        c = gs.TimeInterval(*a, **kw)
    else:
        c = gs.TimeInterval(**kw)
    ok = True
    for key, name in (('rep', 'repeat'), ('st', 'start'), ('en', 'end')):
        v = getattr(c, name)
        if not f[key]:
            ok &= v is None
        else:
            q = f[key][0]
            ok &= abs(v.to('us').m - q['num'] * q['u'] / q['den']) < 1e-6
    return ok, True


def threshold(w, f, o):
    calls = []

    def good(dep, par):
        calls.append((dep, par))

    def bad(dep, par):
        calls.append((dep, par))
        raise OwnError()

    dep = (Thing(o['dep']) if o['dep'] in ('has', 'falsy', 'not') else Prop() if o['dep'] == 'prop' else Missing())
    kw = {}
    if f['val'] != 'none':
        kw['custom_parameter_validator'] = good if f['val'] == 'ok' else bad
        if o['getter']:
            kw['custom_parameter_getter'] = lambda d, p: 1.0
    if f['atol'] or o['zero']:
        kw['atol'] = 0.25 if f['atol'] else 0
    if f['rtol'] or o['zero']:
        kw['rtol'] = 0.125 if f['rtol'] else 0
    if o['idx']:
        kw['indices'] = [None, 0, [0], TimeScale.PASS, ()][o['idx']]
    cmp = {'none': None, 'zero': 0, 'op': len}.get(f['cmp'], f['cmp'])
    gs.Threshold(dep, 'level', o['thr'], cmp, **kw)
    return all(d is dep and p == 'level' for d, p in calls) and bool(calls) == (f['val'] != 'none'), True


def make(w, f, o, **kw):
    return getattr(gs, f['cls'])(*[w.node(k, o.get('un', 0) + j) for j, k in enumerate(f['nodes'])], **kw)


def nodes(w, f, o):
    kw = {}
    for key, name in (('ss', 'subject_senders'), ('sr', 'subject_receivers')):
        if f[key]:
            kw[name] = {w.node(k): o['ops'][j % len(o['ops'])] for j, k in enumerate(f[key][0])}
    given = {k: dict(v) for k, v in kw.items()}
    try:
        c = make(w, f, o, **kw)
    except BaseException as e:
        e.same = given == kw
        raise
    want = [w.node(k) for k in f['nodes']]
    return list(c.nodes) == want and all(a is b for a, b in zip(c.nodes, want)), given == kw


def owner(w, f, o):
    c, x = make(w, f, o), w.again(f['o'], o)
    old = None
    if o['prev']:
        old = c.owner = w.node(o['prev'])
    try:
        if o['via'] == 'attr':
            c.owner = x
        elif o['via'] == 'set':
            gs.ConditionSet().add_condition(x, c)
        else:
            gs.ConditionSet({x: c})
    except BaseException as e:
        e.same = c.owner is old
        raise
    return c.owner == x, True


def apply(w, f, o):
    # operations that contradict each other are another matter
    c = make(w, f, o, **({} if 'Edge' in f['cls'] else {'ignore_conflicts': True}))
    g = {w.node(k): {w.node(s) for s in f['g'][k - 1]} for k in f['in']}
    before = {k: set(v) for k, v in g.items()}
    try:
        if f['via'] == 'sched':
            gs.Scheduler(g).add_condition(w.again(f['o'], o), c)
        else:
            if f['o']:
                c.owner = w.again(f['o'], o)
            c.modify_graph(g)
    except BaseException as e:
        e.same = g == before
        raise
    return True, g == before


def custom(w, f, o):
    seen = []

    def plain(g):
        seen.append(None)
        return {**g, w.node(1): set()}

    if not f['call']:
        fn = [None, 3, 'x', {}, [plain], object()][o['style'] % 6]
    elif f['self'] == 'none':
        class K:
            def meth(self, g):
                return plain(g)

            def __call__(self, graph):
                return plain(graph)
        fn = [plain, lambda x: plain(x), K().meth, K(), lambda selfish: plain(selfish),
              lambda g, extra=1: plain(g)][o['style'] % 6]
    elif f['self'] == 'first':
        def first(self, g, more=None):
            seen.append(self)
            return plain(g)
        fn = [first, lambda self, graph: first(self, graph)][o['style'] % 2]
    else:
        fn = [lambda g, self: plain(g), lambda g, self=None: plain(g), lambda g, *, self=None: plain(g)][o['style'] % 3]
    c = gs.CustomGraphStructureCondition(fn, **({'note': 5} if o['kw'] else {}))
    g = {w.node(1): {w.node(2)}, w.node(2): set()}
    if o['via'] == 'sched':
        s = gs.Scheduler(g)
        s.add_condition(w.node(2), c)
        res = s.graph
    else:
        if f['own']:
            c.owner = w.node(2)
        res = c.modify_graph(g)
    ok = res == {w.node(1): set(), w.node(2): set()}
    ok &= seen == ([c, None] if f['self'] == 'first' else [None])
    return ok and (not o['kw'] or c.note == 5), g == {w.node(1): {w.node(2)}, w.node(2): set()}


def graph(w, f, o):
    es = [(w.node(a), w.node(b)) for a, b in o['edges']]
    if f['kind'] == 'none':
        g = None
    elif f['kind'] == 'dict':
        g = {w.node(k): set() for k in (1, 2, 3)}
        for a, b in es:
            g[b].add(a)
    else:
        g = {'graph': nx.Graph, 'multigraph': nx.MultiGraph, 'digraph': nx.DiGraph,
             'multidigraph': nx.MultiDiGraph}[f['kind']]()
        g.add_nodes_from(w.node(k) for k in (1, 2, 3))
        g.add_edges_from(es)
    before = copy.copy(g) if f['kind'] == 'dict' else None
    s = gs.Scheduler(g) if o['pos'] else gs.Scheduler(graph=g)
    want = {w.node(k): {a for a, b in es if b is w.node(k)} for k in (1, 2, 3)}
    return s.graph == want, before is None or before == g


def dependent(w, f):
    d = [w.node(k) for k in f['deps']]
    if f['cls'] in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'EveryNCalls'):
        return getattr(gs, f['cls'])(d[0], 2)
    if f['cls'] == 'AfterNCallsCombined':
        return gs.AfterNCallsCombined(*d, n=2)
    return getattr(gs, f['cls'])(*d)


WRAPS = {'': lambda c: c, 'All': lambda c: gs.All(c), 'Any': lambda c: gs.Any(gs.Never(), c), 'Not': gs.Not,
         'NWhen': lambda c: gs.NWhen(c, 2), 'deep': lambda c: gs.All(gs.Any(c))}


def alone(w, f, o):
    A = w.node(1)
    name = f['cls']
    if name == 'While' or name == 'WhileNot':
        c = getattr(gs, name)(lambda: name == 'While')
    elif name in ('All', 'Any'):
        c = getattr(gs, name)(gs.Always())
    elif name == 'Not':
        c = gs.Not(gs.Never())
    elif name == 'TimeInterval':
        c = gs.TimeInterval(repeat=2)
    elif name == 'TimeTermination':
        c = gs.TimeTermination(2)
    elif name.endswith('()'):
        c = getattr(gs, name[:-2])()
    elif name in ('Always', 'Never', 'AtEnvironmentStateUpdateStart', 'AtEnvironmentSequenceStart'):
        c = getattr(gs, name)()
    elif name in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'EveryNCalls'):
        c = getattr(gs, name)(A, 1)
    elif name == 'AfterNCallsCombined':
        c = gs.AfterNCallsCombined(A, n=1)
    elif name in ('JustRan', 'AllHaveRun'):
        c = getattr(gs, name)(A)
    else:
        c = getattr(gs, name)(1)
    kw = {}
    if o['eid']:
        kw['execution_id'] = 'x'
    if o['none']:
        kw['scheduler'] = None
    v = WRAPS[o['wrap']](c).is_satisfied(**kw)
    return bool(v) == ((name != 'Never') != (o['wrap'] == 'Not')), True


def combined(w, f, o):
    A, B = w.node(1), w.node(2)
    kw = {} if not f['n'] else {'n': f['n'][0]}
    if not f['n'] and o['none']:
        kw['n'] = None
    c = gs.AfterNCallsCombined(A, B, time_scale=TimeScale.LIFE, **kw)
    s = gs.Scheduler({A: set(), B: set()})
    c.owner = w.node(3)
    list(s.run(termination_conds={TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(f['got'] // 2)}))
    return bool(c.is_satisfied(scheduler=s, execution_id=s.default_execution_id)), True


def finished(w, f, o):
    d = [Dep(x) for x in f['deps']]
    c = {'One': gs.WhenFinished, 'Any': gs.WhenFinishedAny, 'All': gs.WhenFinishedAll}[f['cls']](*d)
    return bool(c.is_satisfied(execution_id=o['eid'] or None, **({'scheduler': None} if o['none'] else {}))), True


def own(w, f, o):
    c = WRAPS[o['wrap']](dependent(w, f))
    x = w.again(f['o'], o)
    if o['via'] == 'attr':
        c.owner = x
    elif o['via'] == 'set':
        gs.ConditionSet().add_condition(x, c)
    elif o['via'] == 'dict':
        gs.ConditionSet({x: c})
    else:
        gs.Scheduler({n: set() for n in w.nodes}).add_condition(x, c)
    return c.owner is x, True


DO = {f.__name__: f for f in (interval, threshold, nodes, owner, apply, custom, graph, alone, combined, finished, own)}


def record(scn):
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    ev = []
    try:
        w = World(scn)
        for op in scn['ops']:
            f, o = op['form'], op['opt']
            e = {'e': 'form', 'form': f, 'r': 'ok', 'ans': True, 'same': True, 'warn': False}
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter('always')
                try:
                    e['ans'], e['same'] = map(bool, DO[f['f']](w, f, o))
                except Hang:
                    raise
                except OwnError:
                    e['r'] = 'own'
                except (gs.ConditionError, gs.SchedulerError) as x:
                    e['r'], e['detail'] = 'lib', str(x)[:100]
                    e['same'] = getattr(x, 'same', True)
                except Exception as x:
                    e['r'], e['detail'] = 'exc', repr(x)[:200]
                    e['same'] = getattr(x, 'same', True)
            e['warn'] = any(issubclass(m.category, UserWarning) for m in got)
            ev.append(e)
    except Hang:
        ev.append({'e': 'fail', 'c': 'HANG'})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {'id': scn['id'], 'ev': ev}

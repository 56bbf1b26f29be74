"""Runs a scenario against the real scheduler and records the trace that
spec/SchedTrace.tla judges.  Only the public interface is used."""
import random
import signal
import warnings
from fractions import Fraction

import networkx as nx

import graph_scheduler as gs
from graph_scheduler import TimeScale

from values import Comp, make_ctx, make_node, other

warnings.simplefilter('ignore')

SCALES = [TimeScale.CONSIDERATION_SET_EXECUTION, TimeScale.PASS,
          TimeScale.ENVIRONMENT_STATE_UPDATE, TimeScale.ENVIRONMENT_SEQUENCE,
          TimeScale.LIFE]
BAD = -99999


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class Boom(Exception):
    pass


class BoomKey(KeyError):
    pass


class BoomAttr(AttributeError):
    pass


class BoomType(TypeError):
    pass


class BoomBase(BaseException):
    pass


BOOMS = [Boom, BoomKey, BoomAttr, BoomType, BoomBase, gs.ConditionError]


class Env:
    def __init__(self, scn):
        self.scn = scn
        self.fl = list(scn.get('fl', []))
        self.pv = list(scn.get('pv', []))
        nctx = len(scn['ctx'])
        self.fin = [[False] * len(scn['nodes']) for _ in range(nctx)]
        self.nodes = []
        self.ctx = []
        self.params = []
        self.boom, self.kind = [], 0
        self.thrown = None
        self.hook = None

    def burst(self, k):
        if k in self.boom:
            self.thrown = BOOMS[self.kind % len(BOOMS)]('by the user')
            raise self.thrown

    def flag(self, k):
        self.burst(k + 1)
        if self.hook is not None:
            f, self.hook = self.hook, None
            f()
        return self.fl[k]

    def told(self, x, k):
        self.burst(101 + k)
        return self.fin[x][k]

    def finished(self, node, eid):
        for x, c in enumerate(self.ctx):
            if c is eid or (type(c) is type(eid) and c == eid):
                break
        else:
            raise AssertionError(f'unknown execution id {eid!r}')
        for k, m in enumerate(self.nodes):
            if m is node:
                return self.told(x, k)
        for k, m in enumerate(self.nodes):
            if m == node:
                return self.told(x, k)
        raise AssertionError('unknown node')

    def json(self):
        return {'fl': list(self.fl), 'pv': list(self.pv), 'fin': [list(f) for f in self.fin],
                'boom': list(self.boom)}


class Param:
    """owner of a user parameter that threshold conditions look at"""

    def __init__(self, env, k, shape):
        self.env, self.k, self.shape = env, k, shape
        self.name = f'p{k}'

    @property
    def level(self):
        self.env.burst(-1 - self.k)
        v = self.env.pv[self.k] / 4
        if self.shape == 'scalar':
            return v
        if self.shape == 'list':
            return [-1000.0, v, 1000.0]
        if self.shape == 'nested':
            return [[0.5, -7.0], [v, 3.0]]
        if self.shape == 'dict':
            return {'k': v, 'other': -3.0}
        if self.shape == 'scales':
            return [-5.0, -6.0, v, -7.0, -8.0]
        raise ValueError(self.shape)


class Builder:
    def __init__(self, scn, env):
        self.scn, self.env = scn, env
        self.nodes = env.nodes
        self.unit = scn.get('unit', 'ms')
        self.equal = random.Random(scn['equal']) if scn.get('equal') else None

    def node(self, k):
        n = self.nodes[k - 1]
        # nodes are the same if they are equal
        if self.equal and self.equal.random() < 0.6:
            return other(self.scn['nodes'][k - 1], n, self.env)
        return n

    def deps(self, a):
        return [self.node(k) for k in a['d']]

    def time(self, ticks, style):
        """a time stated in one of several equivalent ways"""
        if ticks is None or ticks < 0:
            return None
        tick_us = Fraction(self.scn['tick_us'][0], self.scn['tick_us'][1])
        us = Fraction(ticks) * tick_us
        assert us.denominator == 1, (ticks, self.scn['tick_us'])
        us = int(us)
        st = style or 0
        R = gs._unit_registry
        if us % 1000 == 0:
            ms = us // 1000
            forms = [lambda: ms, lambda: f'{ms}ms', lambda: ms * R.ms, lambda: f'{ms} ms',
                     lambda: ms / 1000 * R.s, lambda: f'{us}us', lambda: us * R.us,
                     lambda: str(ms), lambda: R.Quantity(ms, 'millisecond'),
                     lambda: float(ms), lambda: us / 1e7 * R.decasecond]
            if us % 60000000 == 0:
                forms += [lambda: f'{us // 60000000} minutes', lambda: us // 60000000 * R.minute] * 2
        else:
            forms = [lambda: f'{us}us', lambda: us * R.us, lambda: f'{us} us',
                     lambda: us / 1000 * R.ms, lambda: us * R.microsecond,
                     lambda: us / 1000]
        return forms[st % len(forms)]()

    def build(self, a):
        op = a['op']
        G = gs
        ts = SCALES[a['ts']] if 'ts' in a else None
        n = a.get('n')
        kw = {}
        if a.get('tskw', True) and ts is not None:
            kw = {'time_scale': ts}
        if op in ('Always', 'Never', 'AtEnvironmentStateUpdateStart', 'AtEnvironmentSequenceStart'):
            return getattr(G, op)()
        if op in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls'):
            return getattr(G, op)(*self.deps(a), n, **kw)
        if op == 'AfterNCallsCombined':
            return G.AfterNCallsCombined(*self.deps(a), n=n, **kw)
        if op == 'EveryNCalls':
            return G.EveryNCalls(*self.deps(a), n)
        if op == 'JustRan':
            return G.JustRan(*self.deps(a))
        if op == 'AllHaveRun':
            return G.AllHaveRun(*self.deps(a), **kw)
        if op in ('WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll'):
            return getattr(G, op)(*self.deps(a))
        if op in ('While', 'WhileNot'):
            env, f = self.env, a['f'] - 1
            style = a.get('style', 0) % 4
            cls = G.WhileNot if op == 'WhileNot' else (G.While if style % 2 else G.Condition)
            if style == 0:
                return cls(lambda: env.flag(f))
            if style == 1:
                return cls(lambda k, scheduler: env.flag(k), f)
            if style == 2:
                return cls(lambda k, **kwargs: env.flag(k) and 'scheduler' in kwargs, f)
            return cls(lambda execution_id, k: env.flag(k), k=f)
        if op == 'Threshold':
            p = self.env.params[a['p'] - 1]
            indices = {'scalar': None, 'list': 1, 'nested': [1, 0], 'dict': ['k'],
                       'scales': TimeScale.ENVIRONMENT_STATE_UPDATE}[p.shape]
            kw = {}
            if a['atol']:
                kw['atol'] = a['atol'] / 4
            if a['rtol']:
                kw['rtol'] = a['rtol'] / 100
            style = a.get('style', 0) % 3
            if style == 1:
                kw['custom_parameter_getter'] = lambda dep, par: getattr(dep, par[::-1])
                kw['custom_parameter_validator'] = lambda dep, par: None
                return G.Threshold(p, 'level'[::-1], a['thr'] / 4, a['cmp'], indices, **kw)
            if style == 2:
                kw['custom_parameter_getter'] = lambda d, q, execution_id: getattr(d, q)
            return G.Threshold(p, 'level', a['thr'] / 4, a['cmp'], indices, **kw)
        if op in ('AtEnvironmentSequence', 'AfterEnvironmentSequence', 'AfterNEnvironmentSequences',
                  'AtEnvironmentSequenceNStart'):
            return getattr(G, op)(n)
        if op == 'AtEnvironmentStateUpdateNStart' or op.startswith(('Before', 'At', 'After', 'EveryNPasses')):
            return getattr(G, op)(n, **kw)
        if op in ('All', 'Any'):
            cls = getattr(G, {'All': ['All', 'And'], 'Any': ['Any', 'Or']}[op][a.get('style', 0) % 2])
            return cls(*[self.build(c) for c in a['c']])
        if op == 'Not':
            return G.Not(self.build(a['c'][0]))
        if op == 'NWhen':
            return G.NWhen(self.build(a['c'][0]), *([n] if n != 1 else []))
        if op == 'TimeInterval':
            kw = {}
            sty = a.get('style', 0)
            for k, key in (('repeat', 'rep'), ('start', 'st'), ('end', 'en')):
                v = self.time(a[key] if not (key == 'rep' and a[key] == 0) else None, sty)
                if v is not None:
                    kw[k] = v
                sty //= 10
            if a.get('unitkw') and all(v is None or isinstance(v, (int, float)) for v in kw.values()):
                # the same times as plain numbers of another unit
                kw = {k: v * 1000 for k, v in kw.items()}
                kw['unit'] = a['unitkw']
            if not a['si'] or a.get('style', 0) % 3 == 0:
                kw['start_inclusive'] = a['si']
            if not a['ei'] or a.get('style', 0) % 4 == 0:
                kw['end_inclusive'] = a['ei']
            return G.TimeInterval(**kw)
        if op == 'TimeTermination':
            v = self.time(a['t'], a.get('style', 0))
            return G.TimeTermination(v) if a['inc'] and a.get('style', 0) % 3 else G.TimeTermination(v, inclusive=a['inc'])
        raise ValueError(op)


class Recorder:
    def __init__(self, scn):
        self.scn = scn
        self.ev = []

    # -- observations ------------------------------------------------------
    def ticks(self, q):
        try:
            v = float(q.to('us').magnitude)
        except Exception:
            return BAD
        v = v * self.scn['tick_us'][1] / self.scn['tick_us'][0]
        r = round(v)
        if abs(v - r) > 1e-3 or abs(r) > 2 ** 30:
            return BAD
        return r

    @staticmethod
    def clk_of(tm):
        return [tm.consideration_set_execution, tm.pass_, tm.environment_state_update,
                tm.environment_sequence, tm.life]

    def clock(self, x, via='given'):
        if via == 'default':
            c = self.s.get_clock()
        else:
            c = self.s.get_clock(Comp(self.eid(x)) if via == 'comp' else self.eid(x))
        tm, pv, sm = c.time, c.previous_time, c.simple_time
        return {
            'clk': self.clk_of(tm), 'abs': self.ticks(tm.absolute),
            'phas': pv is not None, 'prv': self.clk_of(pv) if pv is not None else [0] * 5,
            'pabs': self.ticks(pv.absolute) if pv is not None else 0,
            'smp': [sm.consideration_set_execution, sm.environment_state_update, sm.environment_sequence],
            'sabs': self.ticks(sm.absolute),
        }

    def eid(self, x):
        c = self.env.ctx[x - 1]
        if self.b.equal and isinstance(c, (tuple, frozenset)) and self.b.equal.random() < 0.5:
            return make_ctx(self.scn['ctx'][x - 1])
        return c

    def idx(self, n):
        try:
            return self.index.get(n, 99)
        except TypeError:
            return 99

    def setidx(self, s):
        return sorted(self.idx(n) for n in s)

    def fail(self, clause, exc=None):
        self.ev.append({'e': 'fail', 'c': clause, 'detail': repr(exc)[:300]})

    # -- set up ------------------------------------------------------------
    def setup(self):
        scn = self.scn
        env = self.env = Env(scn)
        env.nodes[:] = [make_node(d, env) for d in scn['nodes']]
        env.ctx[:] = [make_ctx(d) for d in scn['ctx']]
        env.params[:] = [Param(env, k, sh) for k, sh in enumerate(scn.get('shapes', []))]
        self.index = {n: k + 1 for k, n in enumerate(env.nodes)}
        self.b = Builder(scn, env)
        self.s = self.make_scheduler()
        self.probes = []
        for p in scn.get('probes', []):
            c = self.b.build(p['c'])
            if p['o']:
                c.owner = self.b.node(p['o'])
            self.probes.append(c)
        self.gens = {}
        self.started = set()
        self.conds_now = {}

    def conds(self):
        return {self.b.node(k + 1): self.b.build(c)
                for k, c in enumerate(self.scn['conds']) if c['op'] != 'Default'}

    def conds_arg(self):
        c = self.conds()
        return gs.ConditionSet(c) if self.scn.get('how') == 'set' else c

    def graph_arg(self):
        scn = self.scn
        nodes = self.env.nodes
        order = scn.get('order') or list(range(len(nodes)))
        node = self.b.node if self.b.equal else lambda k: nodes[k - 1]
        g = {node(k + 1): {node(j) for j in scn['graph'][k]} for k in order}
        form = scn.get('form', 'dict')
        if form == 'list':
            g = {k: list(v) for k, v in g.items()}
        elif form == 'digraph':
            d = nx.DiGraph()
            d.add_nodes_from(g)
            d.add_edges_from((s, r) for r in g for s in g[r])
            g = d
        elif form == 'sparse':
            # senders without dependencies need not be listed
            snd = set().union(*g.values()) if g else set()
            g = {k: v for k, v in g.items() if v or k not in snd}
        return g

    def term_arg(self):
        scn, b = self.scn, self.b
        td = {}
        if scn.get('term0', True):
            if scn['te']['op'] != 'AllHaveRun' or scn['te']['d'] or scn['te']['ts'] != 2:
                td[self.tkey('ESU', scn.get('tkey', 0))] = b.build(scn['te'])
            if scn['ts']['op'] != 'Never':
                td[self.tkey('SEQ', scn.get('tkey', 0))] = b.build(scn['ts'])
        return td

    def make_scheduler(self):
        scn = self.scn
        g = self.graph_arg()
        kw = {}
        how = scn.get('how', 'dict')
        conds = self.conds_arg()
        if how in ('set', 'dict'):
            kw['conditions'] = conds
        td = self.term_arg()
        if td:
            kw['termination_conds'] = td
        if 'mode0' in scn:
            kw['mode'] = gs.SchedulingMode.EXACT_TIME if scn['mode0'] == 'exact' else gs.SchedulingMode.STANDARD
        if scn.get('dflt_str'):
            kw['default_absolute_time_unit'] = scn['dflt_str']
        if scn.get('eid0', True):
            kw['default_execution_id'] = self.env.ctx[0]
        s = gs.Scheduler(g, **kw)
        if scn.get('burn'):
            td.clear()
        if how == 'add':
            for n, c in conds.items():
                s.add_condition(n, c)
        elif how == 'addset':
            s.add_condition_set(conds)
        return s

    @staticmethod
    def tkey(which, style):
        ts = {'ESU': TimeScale.ENVIRONMENT_STATE_UPDATE, 'SEQ': TimeScale.ENVIRONMENT_SEQUENCE}[which]
        return [ts, ts.name, ts.name.lower(), ts.name.title()][style % 4]

    def termdict(self, op):
        d, ev = {}, {'te': [], 'ts': []}
        for k, which in (('te', 'ESU'), ('ts', 'SEQ')):
            if op.get(k) is not None:
                d[self.tkey(which, op.get('tkey', 0))] = self.b.build(op[k])
                ev[k] = [op[k]]
        return d, ev

    # -- operations --------------------------------------------------------
    def run(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.scn.get('cpu', 20))
        try:
            try:
                self.setup()
            except Hang:
                raise
            except Exception as e:
                self.start_failed = True
                self.fail('EXC', e)
                return self.trace()
            for op in self.scn['ops']:
                self.pos = op
                try:
                    go = self.op(op)
                except Hang:
                    raise
                except Exception as e:
                    self.fail('EXC', e)
                    break
                if go is False:
                    break
        except Hang:
            self.fail('HANG')
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return self.trace()

    def trace(self):
        scn = self.scn
        if not self.ev:
            self.ev.append({'e': 'check', 'v': True, 'c': 'NONE'})
        pairs, ids = set(), set()
        graphs = [scn['graph']] + [e['graph'] for e in self.ev if e['e'] == 'graph']
        for g in graphs:
            for r, ss in enumerate(g):
                for s in ss:
                    pairs.add((s, r + 1))

        def walk(c, o):
            if c['op'] == 'EveryNCalls':
                pairs.add((c['d'][0], o))
            if c['op'] == 'NWhen':
                ids.add(c['id'])
            for k in c.get('c', []):
                walk(k, o)
        for k, c in enumerate(scn['conds']):
            walk(c, k + 1)
        for e in self.ev:
            if e['e'] == 'chg':
                pairs.add((e['a'], e['b']))
            if e['e'] == 'cond':
                walk(e['c'], e['n'])
            if e['e'] == 'probe':
                walk(e['c'], e['o'])
        return {
            'id': scn['id'], 'n': len(scn['nodes']), 'nctx': len(scn['ctx']),
            'pairs': sorted(map(list, pairs)), 'ids': sorted(ids),
            'graph': scn['graph'], 'conds': scn['conds'],
            'mode': scn.get('mode0', 'std'), 'dflt': scn.get('dflt', 0),
            'te': scn['te'], 'ts': scn['ts'], 'ev': self.ev,
        }

    def op(self, op):
        return getattr(self, 'op_' + op['o'])(op)

    def op_new(self, op):
        x = op['x']
        if self.gens.get(x) is not None:
            self.op_drop(op)
        kw, ev = {}, {'te': [], 'ts': []}
        if op.get('te') is not None or op.get('ts') is not None or op.get('emptyterm'):
            d, ev = self.termdict(op)
            before = dict(d)
            kw['termination_conds'] = d
        eid = op.get('eid', 'given')
        if eid == 'given':
            kw['execution_id'] = self.eid(x)
        elif eid == 'comp':
            kw['execution_id'] = Comp(self.eid(x))
        # eid == 'default': left out, context 1
        if op.get('base'):
            kw['base_execution_id'] = self.eid(op['base'])
        if op.get('skip'):
            kw['skip_environment_state_update_time_increment'] = True
        self.gens[x] = self.s.run(**kw)
        self.gens_ev = getattr(self, 'gens_ev', {})
        self.gens_ev[x] = dict(new=True, skip=bool(op.get('skip')), base=op.get('base', 0), **ev)
        if 'termination_conds' in kw:
            same = list(d) == list(before) and all(d[k] is before[k] for k in d)
            self.gens_term = getattr(self, 'gens_term', {})
            self.gens_term[x] = (d, before)
            if not same:
                self.ev.append({'e': 'check', 'c': 'TERMARG', 'v': False})

    def op_next(self, op):
        x = op['x']
        for _ in range(op.get('n', 1)):
            g = self.gens.get(x)
            if g is None:
                return None
            base = self.gens_ev.pop(x, None) or dict(new=False, skip=False, base=0, te=[], ts=[])
            env = self.env
            env.boom, env.kind, env.thrown = op.get('boom', []), op.get('exc', 0), None
            ev = {'e': 'step', 'x': x, 'env': env.json(), **base}
            if op.get('nest'):
                # another context goes on while this one asks a user function
                env.hook = lambda: self.op_step({'x': op['nest']})
            lst = self.s.execution_list
            try:
                out = self.first(g) if base['new'] and self.s.mode is gs.SchedulingMode.EXACT_TIME else next(g)
            except StopIteration as stop:
                ev.update(r='end', set=[])
                self.gens[x] = None
                if stop.value is not lst.get(self.eid(x)) and stop.value != lst.get(self.eid(x)):
                    self.ev.append({'e': 'check', 'c': 'RETURN', 'v': False})
            except gs.SchedulerError as e:
                self.gens[x] = None
                ev.update(r='runerr', set=[], len=0, detail=str(e)[:200])
                self.ev.append(ev)
                if base['new'] is False:
                    return False
                return None
            except Hang:
                raise
            except BaseException as e:
                if env.thrown is None:
                    raise
                self.gens[x] = None
                ev.update(r='raise', set=[])
                if e is not env.thrown and all(0 < k < 100 for k in env.boom):
                    self.ev.append({'e': 'check', 'c': 'OTHERERR', 'v': False})
            else:
                ev.update(r='yield', set=[self.idx(n) for n in out])
                if not isinstance(out, (set, frozenset)):
                    self.ev.append({'e': 'check', 'c': 'SET', 'v': False})
            finally:
                env.boom = []
                env.hook = None
            ev['len'] = len(lst[self.eid(x)])
            ev.update(self.clock(x))
            self.ev.append(ev)
            for k, (d, before) in list(getattr(self, 'gens_term', {}).items()):
                if list(d) != list(before) or any(d[j] is not before[j] for j in d):
                    self.ev.append({'e': 'check', 'c': 'TERMARG', 'v': False})
                    del self.gens_term[k]
                elif self.scn.get('burn') and k not in self.gens_ev:
                    # the run has begun, so its mapping is not needed any more
                    d.clear()
                    del self.gens_term[k]

    def first(self, g):
        """the first set of a run in exact time mode"""
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter('always')
            try:
                return next(g)
            except gs.SchedulerError:
                # refused, perhaps before anything was said
                got = None
                raise
            finally:
                if got is not None:
                    self.ev.append({'e': 'exact', 'had': len(self.s.conditions.structural_condition_order) > 0,
                                    'got': any('structur' in str(w.message) for w in got)})

    def op_step(self, op):
        """one set of the run in progress, or of a new one"""
        if self.gens.get(op['x']) is None:
            self.op_new(op)
        self.op_next({**op, 'n': 1})

    def op_drop(self, op):
        x = op['x']
        g = self.gens.pop(x, None)
        if g is None:
            return
        started = x not in self.gens_ev
        self.gens_ev.pop(x, None)
        if op.get('throw'):
            # as good as closing it
            err = BOOMS[op['throw'] % len(BOOMS)]('by the user')
            try:
                g.throw(err)
            except Hang:
                raise
            except BaseException as e:
                same = e is err
            else:
                same = False
            self.ev.append({'e': 'check', 'c': 'THROWN', 'v': same})
        else:
            g.close()
        if started:
            self.ev.append({'e': 'drop', 'x': x})

    def op_seqend(self, op):
        x = op['x']
        if self.gens.get(x) is not None:
            self.op_drop(op)
        eid = op.get('eid', 'given')
        if eid == 'default':
            self.s.end_environment_sequence()
        elif eid == 'comp':
            self.s.end_environment_sequence(Comp(self.eid(x)))
        else:
            self.s.end_environment_sequence(self.eid(x))
        self.ev.append({'e': 'seqend', 'x': x})
        self.ev.append({'e': 'clk', 'x': x, **self.clock(x)})

    def op_set(self, op):
        for k, v in op.get('fl', []):
            self.env.fl[k - 1] = v
        for k, v in op.get('pv', []):
            self.env.pv[k - 1] = v
        for x, k, v in op.get('fin', []):
            self.env.fin[x - 1][k - 1] = v

    def idle(self):
        for x in list(self.gens):
            self.op_drop({'x': x})

    def graph_json(self):
        g = self.s.graph
        return [sorted(self.idx(m) for m in g[n]) for n in self.env.nodes]

    def log_graph(self, ch, a=0, b=0):
        s = self.s
        g = s.graph
        if set(g) != set(self.env.nodes):
            self.ev.append({'e': 'check', 'c': 'GRAPH', 'v': False})
            return
        qi = s.consideration_queue_indices
        self.ev.append({
            'e': 'graph', 'ch': ch, 'a': a, 'b': b, 'graph': self.graph_json(),
            'q': [self.setidx(k) for k in s.consideration_queue],
            'qi': [qi.get(n, -1) for n in self.env.nodes],
        })

    def op_look(self, op):
        self.log_graph('same')

    def edge(self, op, ch, f):
        if not op.get('mid'):
            self.idle()
        f(self.b.node(op['a']), self.b.node(op['b']))
        if op.get('blind'):
            # nobody looks at the new graph
            self.ev.append({'e': 'chg', 'ch': ch, 'a': op['a'], 'b': op['b']})
        else:
            self.log_graph(ch, op['a'], op['b'])

    def op_addedge(self, op):
        self.edge(op, 'add', self.s.add_graph_edge)

    def op_rmedge(self, op):
        self.edge(op, 'del', self.s.remove_graph_edge)

    def op_gsc(self, op):
        """a positioning condition; its effect is judged elsewhere"""
        self.idle()
        c = getattr(gs, op['cls'])(*[self.b.node(k) for k in op['d']])
        self.gscs = getattr(self, 'gscs', [])
        try:
            self.s.add_condition(self.b.node(op['n']), c)
        except gs.ConditionError:
            try:
                self.s.remove_condition(c)
            except gs.ConditionError:
                pass
        else:
            self.gscs.append(c)
        self.log_graph('any')

    def op_rmgsc(self, op):
        self.idle()
        order = list(self.s.conditions.structural_condition_order)
        if not order:
            return
        c = order[op['k'] % len(order)]
        self.s.remove_condition(c)
        self.log_graph('any')

    def op_mode(self, op):
        self.idle()
        self.s.mode = gs.SchedulingMode.EXACT_TIME if op['m'] == 'exact' else gs.SchedulingMode.STANDARD
        self.ev.append({'e': 'mode', 'm': op['m']})
        self.log_graph('same')

    def op_cond(self, op):
        self.idle()
        n = self.b.node(op['n'])
        c = self.b.build(op['c'])
        self.s.add_condition(n, c)
        self.ev.append({'e': 'cond', 'n': op['n'], 'c': op['c']})

    def op_uncond(self, op):
        self.idle()
        c = self.s.conditions.conditions_basic.get(self.b.node(op['n']))
        if c is not None:
            self.s.remove_condition(c)
            self.ev.append({'e': 'cond', 'n': op['n'], 'c': {'op': 'Default'}})

    def op_term(self, op):
        self.idle()
        d, ev = self.termdict(op)
        before = dict(d)
        if op.get('item'):
            # one by one in the mapping the scheduler has
            for k in d:
                self.s.termination_conds[getattr(TimeScale, k.upper()) if isinstance(k, str) else k] = d[k]
        else:
            self.s.termination_conds = d
            if list(d) != list(before) or any(d[k] is not before[k] for k in d):
                self.ev.append({'e': 'check', 'c': 'TERMARG', 'v': False})
            if self.scn.get('burn'):
                d.clear()
        self.ev.append({'e': 'term', **ev})

    def op_reterm(self, op):
        self.idle()
        self.s.termination_conds = None
        self.ev.append({'e': 'reterm'})

    def op_badbase(self, op):
        """a context cannot be based on one that does not exist"""
        try:
            next(self.s.run(execution_id=object(), base_execution_id=('no', 'such')))
        except gs.SchedulerError:
            ok = True
        except StopIteration:
            ok = False
        else:
            ok = False
        self.ev.append({'e': 'check', 'c': 'BADBASE', 'v': ok})

    def op_badterm(self, op):
        """things that are no termination conditions are rejected"""
        n = self.b.node(1)
        bad = [
            {TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AddEdgeTo(n)},
            {TimeScale.ENVIRONMENT_STATE_UPDATE: 3},
            {'environment_state_update': None},
            {'no_such_scale': gs.Always()},
            {7: gs.Always()},
            {TimeScale.ENVIRONMENT_SEQUENCE: gs.BeforeNode(n)},
            {TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Always, TimeScale.ENVIRONMENT_SEQUENCE: gs.Never()},
        ][op['k'] % 7]
        before = dict(bad)
        try:
            if op.get('how') == 'set':
                self.s.termination_conds = bad
            elif op.get('how') == 'new':
                gs.Scheduler({n: set()}, termination_conds=bad)
            else:
                next(self.s.run(termination_conds=bad, execution_id=self.eid(1)))
        except (gs.SchedulerError, TypeError):
            ok = True
        else:
            ok = False
        self.ev.append({'e': 'check', 'c': 'BADTERM', 'v': ok and dict(bad) == before})

    def op_probe(self, op):
        p = self.scn['probes'][op['k']]
        x = op['x']
        kw = {}
        env = self.env
        env.boom, env.kind, env.thrown = op.get('boom', []), op.get('exc', 0), None
        ev = {'e': 'probe', 'x': x, 'o': p['o'], 'c': p['c'], 'rz': False, 'env': env.json()}
        try:
            v = self.probes[op['k']].is_satisfied(scheduler=self.s, execution_id=self.eid(x))
        except Hang:
            raise
        except BaseException:
            if env.thrown is None:
                raise
            v, ev['rz'] = False, True
        finally:
            env.boom = []
        self.ev.append({**ev, 'v': bool(v)})

    def op_clk(self, op):
        self.ev.append({'e': 'clk', 'x': op['x'], **self.clock(op['x'], op.get('via', 'given'))})

    def look(self):
        """what is only looked at must stay as it is; what there is to be
        seen is judged elsewhere"""
        s = self.s
        for f in (lambda: repr(s.conditions), lambda: [str(c) for c in s.conditions.conditions_basic.values()],
                  lambda: list(s.nodes), lambda: [set(q) for q in s.consideration_queue],
                  lambda: s.get_absolute_conditions(), lambda: dict(s.termination_conds), lambda: str(s.get_clock()),
                  lambda: repr(s.get_clock().time), lambda: dict(s.consideration_queue_indices), lambda: repr(s)):
            try:
                f()
            except Exception:
                pass

    def op_obs(self, op):
        x = op['x']
        s, e = self.s, self.eid(x)
        self.look()
        self.ev.append({
            'e': 'obs', 'x': x,
            'hist': [self.setidx(k) for k in s.execution_list.get(e, [])],
            'stamps': [[self.ticks(q.absolute)] + self.clk_of(q) for q in s.execution_timestamps.get(e, [])],
        })


def record(scn):
    r = Recorder(scn)
    return r.run()

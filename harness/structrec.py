"""Drives the condition account and the graph of a scheduler through a history
of additions, assignments, removals and runs, and records what it shows
(judged by spec/StructTrace.tla)."""
import signal
import warnings

import networkx as nx

import graph_scheduler as gs
from graph_scheduler import TimeScale

from gscrec import Hang, World, _alarm, build


class UserErr(Exception):
    """raised by the user function of a condition"""


class Struct:
    def __init__(self, scn):
        self.scn = scn
        self.n = scn['n']
        self.w = World(scn['nodes'])
        self.nodes = self.w.nodes[:self.n]
        self.cs = scn['conds']
        self.objs = {}
        self.ids = {}
        self.once = set()
        self.ev = []
        self.keep = []

    # -- objects
    def node(self, k):
        return self.w.node(k)

    def cond(self, k):
        if k not in self.objs:
            self.name(k, self.make(self.cs[k - 1]))
        return self.objs[k]

    def name(self, k, o):
        self.objs[k] = o
        self.ids[id(o)] = k

    def idof(self, c):
        return self.ids.get(id(c), 99)

    def make(self, c):
        if c['cls'] == 'basic':
            return gs.Always()
        if c['cls'] == 'Custom':
            def edit(graph):
                for a, b in c['add']:
                    graph[self.node(b)].add(self.node(a))
                for a, b in c['del']:
                    graph[self.node(b)].discard(self.node(a))
                return graph
            return gs.CustomGraphStructureCondition(edit)
        if c['cls'] == 'Raise':
            def fail(graph):
                raise UserErr('no')
            return gs.CustomGraphStructureCondition(fail)
        return build(self.w, c)[0]

    def start(self):
        scn = self.scn
        g = {self.node(k + 1): {self.node(s) for s in scn['graph'][k]} for k in scn['order']}
        form = scn['form']
        if form == 'sparse':
            senders = {s for v in g.values() for s in v}
            for x in list(g):
                if not g[x] and x in senders:
                    del g[x]
        elif form == 'list':
            g = {x: list(v) for x, v in g.items()}
        elif form == 'nx':
            d = nx.DiGraph()
            d.add_nodes_from(g)
            d.add_edges_from((s, r) for r, ss in g.items() for s in ss)
            g = d
        self.given = g
        self.given0 = self.freeze(g)
        kw = {}
        if scn.get('exact'):
            kw['mode'] = gs.SchedulingMode.EXACT_TIME
            self.ev.append({'e': 'mode', 'm': 'exact'})
        if scn.get('ctor'):
            arg, ps = self.mapping(scn['ctor'], scn['ctorform'])
            e = {'e': 'addset', 'ps': ps, 'lvl': 'ctor', 'w': 0}
            r = self.call(e, lambda: gs.Scheduler(g, conditions=arg, **kw))
            self.ev.append(e)
            self.after(ps)
            if e['r'] != 'ok':
                return False
            self.s = r
        else:
            self.s = gs.Scheduler(g, **kw)
        return True

    def freeze(self, g):
        if isinstance(g, nx.DiGraph):
            return (list(g.nodes), set(g.edges))
        return [(k, type(v), sorted(map(self.w.idx, v))) for k, v in g.items()]

    def call(self, e, f):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                r = f()
                e['r'] = 'ok'
            except (gs.ConditionError, gs.SchedulerError, UserErr) as x:
                r = None
                e['r'] = 'err'
                e['detail'] = str(x)[:100]
            except Hang:
                raise
            except Exception as x:
                r = None
                e['r'] = 'exc'
                e['detail'] = repr(x)[:200]
        e['w'] = len(ws)
        return r

    # -- operations
    def mapping(self, ps, form):
        """the conditions ps as a dictionary or set, and the order in which they are to be added"""
        d = {}
        for o, k in ps:
            d.setdefault(o, []).append(k)
        if form == 'set':
            cset = gs.ConditionSet()
            done = []
            for o, k in ps:
                c = self.cs[k - 1]
                if c['cls'] in ('basic', 'Custom', 'Raise') or o not in c['d']:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        cset.add_condition(self.node(o), self.cond(k))
                    self.once.add(k)
            for o in cset:
                v = cset[o]
                for c in (v if isinstance(v, list) else [v]):
                    done.append([self.w.idx(o), self.idof(c)])
            self.keep.append(cset)
            return cset, done
        ps = [[o, k] for o in d for k in d[o]]
        if form == 'lists':
            return {self.node(o): [self.cond(k) for k in ks] for o, ks in d.items()}, ps
        if form == 'iters':
            return {self.node(o): (self.cond(k) for k in ks) for o, ks in d.items()}, ps
        if form == 'tuples':
            return {self.node(o): tuple(self.cond(k) for k in ks) for o, ks in d.items()}, ps
        return {self.node(o): (self.cond(ks[0]) if len(ks) == 1 else [self.cond(k) for k in ks])
                for o, ks in d.items()}, ps

    def after(self, ps):
        for o, k in ps:
            self.once.add(k)

    def op_add(self, o):
        k, own, via = o['k'], o['at'], o['via']
        e = {'e': 'add', 'o': own, 'id': k, 'lvl': 'set' if via == 'set' else 'sched'}
        c = self.cs[k - 1]
        if via == 'edge' and k not in self.objs and c['cls'] in ('Add', 'Remove') and own not in c['d']:
            def f():
                order = self.s.conditions.structural_condition_order
                m = len(order)
                try:
                    if c['cls'] == 'Add':
                        r = self.s.add_graph_edge(self.node(own), self.node(c['d'][0]))
                    else:
                        r = self.s.remove_graph_edge(self.node(c['d'][0]), self.node(own))
                except Exception:
                    if len(order) > m:
                        self.name(k, order[-1])
                    raise
                self.name(k, r)
            self.call(e, f)
        else:
            if via == 'edge':
                via = 'sched'
            obj = self.cond(k)
            tgt = {'sched': self.s, 'set': self.s.conditions}[via]
            self.call(e, lambda: tgt.add_condition(self.node(own), obj))
        if e['r'] == 'ok' or k in self.objs:
            self.once.add(k)
        self.ev.append(e)

    def op_assign(self, o):
        e = {'e': 'assign', 'o': o['at'], 'id': o['k'], 'lvl': 'set'}
        obj = self.cond(o['k'])

        def f():
            self.s.conditions[self.node(o['at'])] = obj
        self.call(e, f)
        self.once.add(o['k'])
        self.ev.append(e)

    def op_addset(self, o):
        arg, ps = self.mapping(o['ps'], o['form'])
        e = {'e': 'addset', 'ps': ps, 'lvl': 'set' if o['via'] == 'set' else 'sched'}
        tgt = self.s.conditions if o['via'] == 'set' else self.s
        self.call(e, lambda: tgt.add_condition_set(arg))
        self.after(ps)
        self.ev.append(e)

    def remove(self, e, arg, via):
        tgt = self.s.conditions if via == 'set' else self.s
        r = self.call(e, lambda: tgt.remove_condition(arg))
        e['ret'] = {'err': -1, 'exc': -5, 'ok': 0 if r is None else self.idof(r)}[e['r']]
        self.ev.append(e)

    def op_rmc(self, o):
        self.remove({'e': 'rmc', 'id': o['k'], 'was': o['k'] in self.once}, self.cond(o['k']), o['via'])

    def op_rmo(self, o):
        self.remove({'e': 'rmo', 'o': o['at']}, self.node(o['at']), o['via'])

    def op_obs(self, o):
        cset = self.s.conditions
        try:
            # only looked at
            repr(cset)
            str(list(cset.conditions_basic.values()))
        except Exception:
            pass
        N = range(1, self.n + 1)
        e = {'e': 'obs', 'basic': [], 'struct': [], 'conds': [], 'has': [], 'own': [], 'shape': True, 'extra': False}
        try:
            e['order'] = [self.idof(c) for c in cset.structural_condition_order]
            for k in N:
                x = self.w.node(k, True)
                b = cset.conditions_basic.get(x)
                e['basic'].append(0 if b is None else self.idof(b))
                e['struct'].append([self.idof(c) for c in cset.conditions_structural.get(x, [])])
                has = x in cset
                if has != (x in self.s) or has != (x in list(cset)):
                    e['shape'] = False
                e['has'].append(has)
                v = cset[x] if has else []
                if not isinstance(v, list):
                    v = [v]
                elif len(v) < 2 and has:
                    e['shape'] = False
                e['conds'].append([self.idof(c) for c in v])
            for d in (cset.conditions, cset.conditions_basic, cset.conditions_structural):
                if any(self.w.idx(x) not in N for x in d):
                    e['extra'] = True
            for k in range(1, len(self.cs) + 1):
                c = self.objs.get(k)
                ow = None if c is None else c.owner
                e['own'].append(0 if ow is None else self.w.idx(ow))
        except Hang:
            raise
        except Exception as x:
            self.ev.append({'e': 'fail', 'c': 'EXC', 'detail': repr(x)})
            return
        self.ev.append(e)

    def op_graph(self, o):
        e = {'e': 'graph', 'g': self.scn['graph'], 'keys': True, 'dd': True, 'q': [], 'qi': []}

        def f():
            look = [lambda: self.s.graph, lambda: self.s.consideration_queue,
                    lambda: self.s.consideration_queue_indices, lambda: self.s.dependency_dict]
            out = [None] * 4
            for j in o['seq']:
                out[j] = look[j]()
            g, q, qi, dd = out
            e['g'], e['keys'] = self.w.json(g, self.n)
            e['dd'] = dict(dd) == dict(g) and set(self.s.nodes) == set(self.nodes)
            e['q'] = [sorted(self.w.idx(x) for x in s) for s in q]
            e['qi'] = [qi.get(x, -1) for x in self.nodes]
            if len(qi) > len(self.nodes):
                e['keys'] = False
        self.call(e, f)
        self.ev.append(e)
        try:
            same = self.freeze(self.given) == self.given0
        except Exception:
            same = False
        if not same:
            self.ev.append({'e': 'check', 'c': 'INPUT', 'v': False})

    def op_run(self, o):
        s = self.s
        e = {'e': 'run', 'sets': []}
        eid = s.default_execution_id

        def snap():
            c = s.get_clock(eid).time
            return len(s.execution_list[eid]), (c.environment_sequence, c.environment_state_update, c.pass_, c.consideration_set_execution)
        h0, c0 = snap()
        got = []

        def f():
            for st in s.run(termination_conds={TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}):
                got.append(sorted(self.w.idx(x) for x in st))
                if len(got) > 3 * self.n + 3:
                    break
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                f()
                e['r'] = 'ok'
            except (gs.ConditionError, UserErr) as x:
                e['r'] = 'err'
                e['detail'] = str(x)[:100]
            except gs.SchedulerError as x:
                e['r'] = 'cyc'
                e['detail'] = str(x)[:100]
            except Hang:
                raise
            except Exception as x:
                e['r'] = 'exc'
                e['detail'] = repr(x)[:200]
        h1, c1 = snap()
        e['sets'] = got
        e['dh'] = h1 - h0
        e['dc'] = c0 != c1
        self.ev.append(e)

    def op_mode(self, o):
        self.s.mode = {'std': gs.SchedulingMode.STANDARD, 'exact': gs.SchedulingMode.EXACT_TIME}[o['m']]
        self.ev.append({'e': 'mode', 'm': o['m']})


def record(scn):
    st = Struct(scn)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, scn.get('cpu', 20))
    try:
        if st.start():
            for o in scn['ops']:
                getattr(st, 'op_' + o['o'])(o)
    except Hang:
        st.ev.append({'e': 'fail', 'c': 'HANG'})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {'id': scn['id'], 'n': scn['n'], 'graph': scn['graph'], 'conds': scn['conds'], 'ev': st.ev}

"""Calls the graph helpers on dictionaries that change between the calls and
records their results (judged by spec/UtilsTrace.tla)."""
import collections
import signal
import warnings

import graph_scheduler as gs
import networkx as nx

import values
from gscrec import Hang, _alarm

warnings.simplefilter('ignore')


class MyDiGraph(nx.DiGraph):
    pass


DICTS = {'dict': dict, 'ordered': collections.OrderedDict, 'default': lambda it: collections.defaultdict(set, it)}


def container(kind, xs):
    if kind == 'one':
        return xs[0]
    if kind == 'dict':
        return dict.fromkeys(xs)
    if kind == 'attrs':
        return {x: {} for x in xs}
    if kind == 'keys':
        return dict.fromkeys(xs).keys()
    return {'set': set, 'frozenset': frozenset, 'list': list, 'tuple': tuple, 'deque': collections.deque}[kind](xs)


class World:
    def __init__(self, scn):
        self.nodes = [values.make_node(d) for d in scn['nodes']]
        self.slots = {}
        self.kinds = {}
        self.results = {}
        self.n = 0

    def idx(self, x):
        if isinstance(x, (set, list, dict)):
            return 99
        for k, n in enumerate(self.nodes):
            if n is x or (type(n) is type(x) and n == x):
                return k + 1
        return 99

    def pairs(self, d, slot=None):
        return [[self.idx(k), sorted(self.idx(x) for x in self.each(slot, k, v))] for k, v in d.items()]

    def each(self, slot, k, v):
        return [v] if slot and self.kinds[slot].get(self.idx(k)) == 'one' else v

    def full(self, d, slot):
        """the same as a directed graph, made by hand"""
        g = nx.DiGraph()
        for k, v in d.items():
            g.add_node(k)
            for x in self.each(slot, k, v):
                g.add_edge(x, k)
        return g

    def show(self, fn, r):
        if fn == 'cycles':
            return [[self.idx(x) for x in c] for c in r]
        if fn in ('di', 'disub'):
            return [sorted(self.idx(x) for x in r.nodes), sorted([self.idx(a), self.idx(b)] for a, b in r.edges())]
        if fn in ('sched', 'schedx'):
            s, run = r
            return [self.pairs(s.graph), sorted(self.idx(x) for x in s.nodes),
                    [sorted(self.idx(x) for x in q) for q in s.consideration_queue], run]
        return self.pairs(r)

    def compute(self, fn, d, o):
        if fn == 'receivers':
            return gs.get_receivers(d)
        if fn == 'ancestors':
            return gs.get_ancestors(d)
        if fn == 'descendants':
            return gs.get_descendants(d)
        if fn == 'cycles':
            return gs.get_simple_cycles(d)
        if fn == 'clone':
            return gs.clone_graph(d)
        if fn == 'di':
            return gs.dependency_dict_to_networkx_digraph(d)
        if fn == 'disub':
            r = gs.dependency_dict_to_networkx_digraph(d, nx_type=MyDiGraph)
            if not isinstance(r, MyDiGraph):
                raise AssertionError('type')
            return r
        if fn in ('back', 'backless'):
            g = self.full(d, o['d'])
            n, e = list(g.nodes), list(g.edges)
            r = gs.networkx_digraph_to_dependency_dict(g) if fn == 'back' else \
                gs.networkx_digraph_to_dependency_dict(g, add_missing=False)
            if list(g.nodes) != n or list(g.edges) != e:
                raise AssertionError('graph changed')
            return r
        if fn in ('sched', 'schedx'):
            src = d if fn == 'sched' else self.full(d, o['d'])
            s = gs.Scheduler(src)
            if fn == 'schedx':
                src.add_edge('?', next(iter(d), '??'))
            for n in s.nodes:
                # all nodes in every pass
                s.add_condition(n, gs.Always())
            run = [sorted(self.idx(x) for x in q)
                   for q in s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)})]
            return s, run
        raise ValueError(fn)

    def do(self, o):
        e = o['e']
        if e == 'new':
            d = DICTS[o['type']]([(self.nodes[k - 1], container(c, [self.nodes[x - 1] for x in xs])) for k, c, xs in o['g']])
            self.slots[o['d']] = d
            self.kinds[o['d']] = {k: c for k, c, xs in o['g']}
            return {'e': 'new', 'd': o['d'], 'v': [[k, sorted(set(xs))] for k, c, xs in o['g']]}
        d = self.slots.get(o.get('d'))
        if e == 'mut':
            x = self.nodes[o['x'] - 1]
            how = o['how']
            ks = self.kinds[o['d']]
            if how == 'addkey':
                if x not in d:
                    d[x] = set()
                    ks[o['x']] = 'set'
            elif how == 'dropkey':
                d.pop(x, None)
                ks.pop(o['x'], None)
            else:
                if x not in d:
                    return None
                s = self.nodes[o['s'] - 1]
                kind = ks[o['x']]
                c = d[x]
                if kind == 'one':
                    c, kind, ks[o['x']] = [c], 'set', 'set'
                    d[x] = c = set(c)
                there = any(y is s or (type(y) is type(s) and y == s) for y in c)
                if kind == 'set':
                    c.add(s) if how == 'add' else c.discard(s)
                elif kind in ('list', 'deque'):
                    if how == 'add':
                        if not there:
                            c.append(s)
                    else:
                        while s in c:
                            c.remove(s)
                elif kind in ('dict', 'attrs'):
                    if how == 'add':
                        c[s] = {} if kind == 'attrs' else None
                    else:
                        c.pop(s, None)
                else:
                    d[x] = container(kind, [y for y in c if not (y is s or y == s)] + ([s] if how == 'add' else []))
            return {k: o[k] for k in ('e', 'd', 'how', 'x', 's')}
        if e == 'call':
            self.n += 1
            ev = {'e': 'call', 'd': o['d'], 'fn': o['fn'], 'n': self.n, 'r': 'ok', 'v': []}
            try:
                r = self.compute(o['fn'], d, o)
                ev['v'] = self.show(o['fn'], r)
                self.results[self.n] = (o['fn'], r)
            except Hang:
                raise
            except Exception as x:
                ev['r'] = 'err' if isinstance(x, ValueError) or type(x).__name__ == 'SchedulerError' else 'exc'
                ev['detail'] = repr(x)[:200]
            ev['after'] = self.pairs(d, o['d'])
            for p in ev['after']:
                p[1] = sorted(set(p[1]))
            return ev
        if e == 'spoil':
            # change a result that was handed out
            n = o['n'] if o['n'] in self.results else (max(self.results) if self.results else 0)
            if n == 0 or self.results[n][0] in ('sched', 'schedx'):
                return None
            fn, r = self.results.pop(n)
            y = self.nodes[o['x'] - 1]
            if fn in ('di', 'disub'):
                r.add_edge(y, '?')
                r.remove_node(y)
            elif fn == 'cycles':
                for c in r:
                    c.append(y)
                r.append([y])
            else:
                for v in r.values():
                    if hasattr(v, 'clear'):
                        if o['x'] % 2:
                            v.clear()
                        else:
                            v.add(y) if hasattr(v, 'add') else None
                            v.add('?') if hasattr(v, 'add') else None
                r['?'] = {y}
                r.pop(y, None)
            return {'e': 'spoil', 'n': n}
        return {'e': 'look', 'res': [[n, self.show(fn, r)] for n, (fn, r) in self.results.items()]}


def record(scn):
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    ev = []
    try:
        w = World(scn)
        for o in scn['ops']:
            e = w.do(o)
            if e is not None:
                ev.append(e)
        ev.append(w.do({'e': 'look'}))
    except Hang:
        ev.append({'e': 'fail', 'c': 'HANG'})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {'id': scn['id'], 'ev': ev}

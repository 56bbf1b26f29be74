"""Applies graph structure conditions and records what they make of a graph
(judged by spec/GSCTrace.tla)."""
import copy
import signal
import warnings

import graph_scheduler as gs

from values import Eq, make_node

warnings.simplefilter('ignore')

CLS = {'Before': ('BeforeNodes', 'BeforeNode'), 'After': ('AfterNodes', 'AfterNode'), 'With': ('WithNode', 'WithNode'),
       'Add': ('AddEdgeTo', 'AddEdgeTo'), 'Remove': ('RemoveEdgeFrom', 'RemoveEdgeFrom')}
DEF = {'Before': ('MERGE', 'KEEP', 'KEEP', 'KEEP'), 'After': ('KEEP', 'MERGE', 'MERGE', 'KEEP'),
       'With': ('MERGE', 'KEEP', 'MERGE', 'KEEP')}


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class World:
    def __init__(self, nodes):
        self.desc = nodes
        self.nodes = [make_node(d) for d in nodes]
        self.index = {n: k + 1 for k, n in enumerate(self.nodes)}

    def node(self, k, fresh=False):
        """node k, as a different but equal object if asked for"""
        d = self.desc[k - 1]
        if fresh and d[0] in ('eq', 'tuple', 'fset'):
            return make_node(d)
        return self.nodes[k - 1]

    def idx(self, n):
        try:
            return self.index.get(n, 99)
        except TypeError:
            return 99

    def graph(self, g, order=None):
        return {self.node(k + 1): {self.node(s) for s in g[k]} for k in (order or range(len(g)))}

    def json(self, g, n):
        """(senders per node 1..n, whether the keys are those nodes)"""
        try:
            keys = {self.idx(x) for x in g} == set(range(1, n + 1)) and len(g) == n
            out = [[] for _ in range(n)]
            for x in g:
                k = self.idx(x)
                if 1 <= k <= n:
                    out[k - 1] = sorted(self.idx(s) for s in g[x])
            if any(j > n for s in out for j in s):
                keys = False
                out = [[j for j in s if j <= n] for s in out]
            return out, keys
        except Exception:
            return [[] for _ in range(n)], False


def opval(name, style):
    op = gs.Operation.__members__[name]
    return [op, name, name.lower(), name.title()][style % 4]


def build(w, c):
    """the condition and its owner"""
    f = c.get('fresh', 0)
    d = [w.node(k, bool(f & 1)) for k in c['d']]
    many, one = CLS[c['cls']]
    name = one if len(d) == 1 and c.get('style', 0) % 2 else many
    cls = getattr(gs, name)
    kw = {}
    if c['cls'] in DEF:
        st = c.get('style', 0)
        full = c.get('explicit', False)
        dos, dor, dss, dsr = DEF[c['cls']]
        if c['cls'] != 'With' and (full or c['os'] != dos):
            kw['owner_senders'] = opval(c['os'], st)
        if full or c['or'] != dor:
            kw['owner_receivers'] = opval(c['or'], st + 1)

        def subj(ops):
            if len(set(ops)) == 1 and not c.get('dict'):
                return opval(ops[0], st + 2)
            return {w.node(k, bool(f & 2)): opval(o, st + j) for j, (k, o) in enumerate(zip(c['d'], ops))}
        if c['cls'] != 'With' and (full or c.get('dict') or set(c['ss']) != {dss}):
            kw['subject_senders'] = subj(c['ss'])
        if full or c.get('dict') or set(c['sr']) != {dsr}:
            kw['subject_receivers'] = subj(c['sr'])
        for k, arg, dv in (('rec', 'reconnect_non_subject_receivers', True),
                           ('self', 'remove_new_self_referential_edges', True),
                           ('prune', 'prune_cycles', True), ('ign', 'ignore_conflicts', False)):
            if c[k] is not dv or full:
                kw[arg] = c[k]
    return cls(*d, **kw), w.node(c['o'], bool(f & 4))


def same(g, h):
    return list(g) == list(h) and all(g[k] == h[k] for k in g)


def do_mod(w, ev):
    n = len(ev['g'])
    g = w.graph(ev['g'], ev.get('order'))
    before = {k: set(v) for k, v in g.items()}
    objs = [id(v) for v in g.values()]
    out = {'e': 'mod', 'c': ev['c'], 'g': ev['g'], 'r': 'ok', 'res': ev['g'], 'keys': True, 'own': True}
    via = ev.get('via', 'modify')
    try:
        cond, owner = build(w, ev['c'])
        try:
            if via == 'sched':
                s = gs.Scheduler(g)
                s.add_condition(owner, cond)
                res = s.graph
            elif via == 'ctor':
                s = gs.Scheduler(g, conditions={owner: cond})
                res = s.graph
            else:
                cond.owner = owner
                res = cond.modify_graph(g)
                if ev.get('twice'):
                    # the same condition applied again to the same graph
                    again = cond.modify_graph(g)
                    if not same({k: res[k] for k in g}, {k: again[k] for k in g}) and not ev['c'].get('prune', True):
                        out['own'] = False
        except gs.ConditionError as e:
            out['r'] = 'err'
            out['detail'] = str(e)[:120]
    except Hang:
        raise
    except Exception as e:
        out['r'] = 'exc'
        out['detail'] = repr(e)[:200]
    else:
        if out['r'] == 'ok':
            out['res'], out['keys'] = w.json(res, n)
            if via == 'modify':
                ids = {id(v) for v in res.values()}
                if res is g or ids & set(objs) or len(ids) != len(res):
                    out['own'] = False
    out['inp'] = same(g, before)
    return out


def do_op(w, ev):
    S = {w.node(k) for k in ev['S']}
    C = {w.node(k) for k in ev['C']}
    s0, c0 = set(S), set(C)
    out = {'e': 'op', 'op': ev['op'], 'S': ev['S'], 'C': ev['C'], 'r': 'ok', 'res': []}
    try:
        r = gs.Operation[ev['op']](S, C)
        out['res'] = sorted(w.idx(x) for x in r)
    except Hang:
        raise
    except Exception as e:
        out['r'] = 'exc'
        out['detail'] = repr(e)[:200]
    out['inp'] = S == s0 and C == c0
    return out


def do_custom(w, ev):
    n = len(ev['g'])
    g = w.graph(ev['g'])
    before = {k: set(v) for k, v in g.items()}
    want = []

    def edit(graph):
        for s, r in ev['add']:
            graph[w.node(r)].add(w.node(s))
        for s, r in ev['del']:
            graph[w.node(r)].discard(w.node(s))
        if ev.get('new'):
            graph = {k: set(v) for k, v in graph.items()}
        want[:] = [w.json(graph, n)[0]]
        return graph

    fs = [lambda graph: edit(graph), lambda self, graph: edit(graph) if self.owner == w.node(ev['owner']) else None]
    out = {'e': 'custom', 'r': 'ok', 'res': ev['g'], 'want': ev['g'], 'keys': True}
    try:
        c = gs.CustomGraphStructureCondition(fs[ev['style'] % 2])
        if ev['via'] == 'sched':
            s = gs.Scheduler(g)
            s.add_condition(w.node(ev['owner']), c)
            res = s.graph
        else:
            c.owner = w.node(ev['owner'])
            res = c.modify_graph(g)
        out['res'], out['keys'] = w.json(res, n)
        out['want'] = want[0]
    except Hang:
        raise
    except Exception as e:
        out['r'] = 'exc'
        out['detail'] = repr(e)[:200]
    out['inp'] = same(g, before)
    return out


def record(scn):
    w = World(scn['nodes'])
    ev = []
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, scn.get('cpu', 20))
    try:
        for o in scn['ops']:
            ev.append({'mod': do_mod, 'op': do_op, 'custom': do_custom}[o['o']](w, o))
    except Hang:
        ev.append({'e': 'fail', 'c': 'HANG'})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {'id': scn['id'], 'ev': ev}

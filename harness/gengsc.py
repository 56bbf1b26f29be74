"""Random and enumerated applications of graph structure conditions."""
import itertools

from gen import gen_graph
from gscrec import DEF
from values import gen_nodes

OPS = ['KEEP', 'REPLACE', 'DISCARD', 'INTERSECTION', 'UNION', 'MERGE', 'DIFFERENCE', 'INVERSE_DIFFERENCE',
       'SYMMETRIC_DIFFERENCE']


def default_cond(cls, o, d):
    c = {'cls': cls, 'o': o, 'd': list(d)}
    if cls in DEF:
        a, b, s, r = DEF[cls]
        c.update({'os': a, 'or': b, 'ss': [s] * len(d), 'sr': [r] * len(d),
                  'rec': True, 'self': True, 'prune': True, 'ign': False})
    return c


def extras(rng, c):
    c['style'] = rng.randint(0, 7)
    c['fresh'] = rng.choice([0, 0, rng.randint(0, 7)])
    c['explicit'] = rng.random() < 0.15
    c['dict'] = rng.random() < 0.2
    return c


def rand_ops(rng, c, p=0.5):
    """operations other than the default ones"""
    k = len(c['d'])
    if c['cls'] != 'With' and rng.random() < p:
        c['os'] = rng.choice(OPS)
    if rng.random() < p:
        c['or'] = rng.choice(OPS)
    if c['cls'] != 'With' and rng.random() < p:
        c['ss'] = [rng.choice(OPS) for _ in range(k)] if rng.random() < 0.5 else [rng.choice(OPS)] * k
    if rng.random() < p:
        c['sr'] = [rng.choice(OPS) for _ in range(k)] if rng.random() < 0.5 else [rng.choice(OPS)] * k


def graph(rng, n, p_cyc=0.08):
    g = gen_graph(rng, n)
    if rng.random() < p_cyc:
        for _ in range(rng.randint(1, 2)):
            a, b = rng.randint(1, n), rng.randint(1, n)
            g[b - 1] = sorted(set(g[b - 1]) | {a})
    return g


def cond(rng, n, classes, m):
    """m: how many of the nodes are in the graph"""
    cls = rng.choice(classes)
    o = rng.randint(1, m)
    rest = [k for k in range(1, m + 1) if k != o]
    if not rest:
        return None
    k = 1 if cls in ('With', 'Add', 'Remove') else min(len(rest), rng.choice([1, 1, 1, 2, 2, 3]))
    d = rng.sample(rest, k)
    if n > m and rng.random() < 0.06:
        # a node that is not in the graph
        if rng.random() < 0.5:
            d[rng.randrange(k)] = n
        else:
            o = n
    return default_cond(cls, o, d)


def via(rng):
    return rng.choice(['modify', 'modify', 'modify', 'sched', 'ctor'])


def frame(rng, n):
    return {'kind': 'gsc', 'nodes': gen_nodes(rng, n), 'ops': []}


REPO = ['Before', 'After', 'With']
ALL = REPO * 2 + ['Add', 'Remove']


def t_pos(rng, sid):
    """C13: mostly the default operations and options"""
    n = rng.choice([2, 3, 4, 4, 5, 6])
    if rng.random() < 0.01:
        n = rng.randint(7, 9)
    scn = frame(rng, n + 1)
    for _ in range(10):
        g = graph(rng, n)
        c = extras(rng, cond(rng, n + 1, ALL, n))
        if c['cls'] in DEF:
            if rng.random() < 0.25:
                rand_ops(rng, c, 0.4)
                c['ign'] = rng.random() < 0.5
            if rng.random() < 0.2:
                for k in ('rec', 'self', 'prune'):
                    c[k] = rng.random() < 0.6
        op = {'o': 'mod', 'g': g, 'c': c, 'via': via(rng), 'twice': rng.random() < 0.2,
              'order': rng.sample(range(n), n)}
        scn['ops'].append(op)
        if rng.random() < 0.15:
            es = [(s, x + 1) for x, ss in enumerate(g) for s in ss]
            scn['ops'].append({'o': 'custom', 'g': g, 'style': rng.randint(0, 1), 'owner': rng.randint(1, n),
                               'add': [rng.sample(range(1, n + 1), 2)], 'del': rng.sample(es, min(1, len(es))),
                               'new': rng.random() < 0.3, 'via': rng.choice(['modify', 'sched'])})
    return scn


def dags(n):
    pairs = [(a, b) for a in range(1, n + 1) for b in range(1, n + 1) if a != b]
    out = []
    for perm in itertools.product([0, 1, 2], repeat=n * (n - 1) // 2):
        es = []
        for (a, b), v in zip(itertools.combinations(range(1, n + 1), 2), perm):
            if v == 1:
                es.append((a, b))
            elif v == 2:
                es.append((b, a))
        g = [sorted(s for s, r in es if r == k) for k in range(1, n + 1)]
        # acyclic?
        left, ok = set(range(1, n + 1)), True
        while left:
            free = {k for k in left if not set(g[k - 1]) & left}
            if not free:
                ok = False
                break
            left -= free
        if ok:
            out.append(g)
    return out


_D = {}


def enum_dags(n):
    if n not in _D:
        _D[n] = dags(n)
    return _D[n]


def all_conds(n):
    for cls in ('Before', 'After', 'With', 'Add', 'Remove'):
        for o in range(1, n + 1):
            rest = [k for k in range(1, n + 1) if k != o]
            for k in range(1, n):
                if k > 1 and cls in ('With', 'Add', 'Remove'):
                    break
                for d in itertools.combinations(rest, k):
                    yield default_cond(cls, o, d)


def _enum(rng, sid, n, k):
    """the sid-th block of all (graph, condition) pairs over n nodes, with the default options"""
    ds = enum_dags(n)
    cs = list(all_conds(n))
    tot = len(ds) * len(cs)
    scn = {'kind': 'gsc', 'nodes': gen_nodes(rng, n), 'ops': []}
    for j in range(sid * k, min(tot, (sid + 1) * k)):
        g = ds[j // len(cs)]
        c = dict(cs[j % len(cs)])
        c['style'] = rng.randint(0, 7)
        scn['ops'].append({'o': 'mod', 'g': g, 'c': c, 'via': 'modify' if rng.random() < 0.8 else 'sched',
                           'order': rng.sample(range(n), n)})
    if not scn['ops']:
        return t_pos(rng, sid)
    return scn


def t_enum3(rng, sid):
    return _enum(rng, sid, 3, 15)


def t_enum4(rng, sid):
    return _enum(rng, sid, 4, 40)


def t_enum4r(rng, sid):
    """blocks of the four-node space in random order"""
    return _enum(rng, rng.randrange(543 * 92 // 40), 4, 40)


def t_ops(rng, sid):
    """C14: operations, mostly without cleanup"""
    n = rng.choice([2, 3, 3, 4, 4, 5])
    if rng.random() < 0.01:
        n = rng.randint(7, 9)
    scn = frame(rng, n)
    for _ in range(10):
        g = graph(rng, n, 0.15)
        c = extras(rng, cond(rng, n, REPO, n))
        rand_ops(rng, c, rng.choice([0.3, 0.6, 0.9]))
        c['ign'] = rng.random() < 0.6
        off = rng.random()
        if off < 0.75:
            c['rec'] = c['self'] = c['prune'] = False
        elif off < 0.9:
            for k in ('rec', 'self', 'prune'):
                c[k] = rng.random() < 0.5
        scn['ops'].append({'o': 'mod', 'g': g, 'c': c, 'via': via(rng), 'twice': rng.random() < 0.2,
                           'order': rng.sample(range(n), n)})
    for _ in range(4):
        scn['ops'].append({'o': 'op', 'op': rng.choice(OPS), 'S': sorted(rng.sample(range(1, n + 1), rng.randint(0, n))),
                           'C': sorted(rng.sample(range(1, n + 1), rng.randint(0, n)))})
    return scn


def t_clean(rng, sid):
    """C15: cleanup after arbitrary operations"""
    n = rng.choice([2, 3, 4, 4, 5, 6])
    if rng.random() < 0.01:
        n = rng.randint(7, 9)
    scn = frame(rng, n)
    for _ in range(10):
        g = graph(rng, n, 0.2)
        c = extras(rng, cond(rng, n, REPO, n))
        rand_ops(rng, c, rng.choice([0, 0.2, 0.5, 0.8]))
        c['ign'] = rng.random() < 0.8
        if rng.random() < 0.5:
            for k in ('rec', 'self', 'prune'):
                c[k] = rng.random() < 0.6
        scn['ops'].append({'o': 'mod', 'g': g, 'c': c, 'via': via(rng), 'twice': rng.random() < 0.2,
                           'order': rng.sample(range(n), n)})
    return scn

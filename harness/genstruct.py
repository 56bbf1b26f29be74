"""Random histories of conditions being added to, assigned in and removed from
a scheduler."""
from gen import gen_graph
from gengsc import ALL, OPS, default_cond, extras, rand_ops
from values import gen_nodes

EDGE = ['Add', 'Remove']
FORMS = ['dict', 'lists', 'tuples', 'iters', 'set']


def has_cycle(g):
    left = set(range(1, len(g) + 1))
    while left:
        free = {k for k in left if not (set(g[k - 1]) - {k}) & left}
        if not free:
            return True
        left -= free
    return False


def struct_cond(rng, n, P):
    cls = rng.choice(P['classes']) if n > 1 else 'Custom'
    o = rng.randint(1, n)
    rest = [k for k in range(1, n + 1) if k != o]
    if cls == 'Custom':
        def some(p):
            out = []
            while rng.random() < p and len(out) < 2:
                out.append([rng.randint(1, n), rng.randint(1, n)] if n == 1 or rng.random() < P['selfedge']
                           else rng.sample(range(1, n + 1), 2))
            return out
        return {'cls': 'Custom', 'o': o, 'd': [], 'add': some(0.7), 'del': some(0.5)}
    if cls == 'Raise':
        return {'cls': 'Raise', 'o': o, 'd': []}
    k = 1 if cls in ('With', 'Add', 'Remove') else min(len(rest), rng.choice([1, 1, 1, 2]))
    d = rng.sample(rest, k)
    if rng.random() < P['foreign']:
        d[rng.randrange(k)] = n + 1
    c = extras(rng, default_cond(cls, o, d))
    c['fresh'] &= 3
    if 'os' in c and rng.random() < P['ops'] and n <= 4:
        rand_ops(rng, c, 0.3)
        c['ign'] = rng.random() < 0.4
    if 'os' in c and rng.random() < P['conflict']:
        # the two sides disagree about an edge
        s = rng.choice(OPS)
        if cls == 'Before':
            c['os'], c['ss'] = 'DISCARD', [s] * len(d)
        elif cls == 'After':
            c['or'], c['sr'] = rng.choice(OPS), ['DISCARD'] * len(d)
    if 'os' in c and rng.random() < P['noprune']:
        c['prune'] = False
        c['self'] = rng.random() < 0.7
    return c


BASE = {'classes': ALL * 2 + ['Custom'], 'foreign': 0, 'ops': 0.15, 'conflict': 0, 'noprune': 0.1, 'selfedge': 0.1,
        'basic': 0.15, 'bad': 0.02, 'len': (5, 11), 'add': 5, 'assign': 1, 'addset': 1, 'rmc': 4, 'rmo': 1, 'run': 1,
        'graph': 4, 'obs': 1, 'mode': 0.2, 'lvl': 0.3, 'n': [2, 3, 4, 4, 5], 'cyc': 0.08, 'like': 0.15, 'ctor': 0.2, 'conds': (3, 6)}


def history(rng, sid, **over):
    P = dict(BASE, **over)
    n = rng.choice(P['n'])
    if rng.random() < 0.02:
        n = rng.randint(6, 7)
    g = gen_graph(rng, n)
    if n > 1 and rng.random() < P['cyc']:
        a, b = rng.sample(range(1, n + 1), 2)
        g[b - 1] = sorted(set(g[b - 1]) | {a})
        if rng.random() < 0.6:
            g[a - 1] = sorted(set(g[a - 1]) | {b})
    if rng.random() < 0.06:
        a = rng.randint(1, n)
        g[a - 1] = sorted(set(g[a - 1]) | {a})
    conds = []
    for _ in range(rng.randint(*P['conds'])):
        if rng.random() < P['basic']:
            conds.append({'cls': 'basic', 'o': rng.randint(1, n), 'd': []})
        elif conds and conds[-1]['cls'] not in ('basic', 'Raise') and rng.random() < P['like']:
            # just like the one before, perhaps of another owner
            c = dict(conds[-1])
            c['o'] = rng.choice([k for k in range(1, n + 1) if k not in c['d']] or [c['o']])
            conds.append(c)
        else:
            conds.append(struct_cond(rng, n, P))
    ids = list(range(1, len(conds) + 1))

    def at(k):
        c = conds[k - 1]
        if c['cls'] not in ('basic', 'Custom', 'Raise') and rng.random() < P['bad']:
            d = [x for x in c['d'] if x <= n]
            if d:
                return rng.choice(d)
        return c['o']

    def lvl():
        return 'set' if rng.random() < P['lvl'] else 'sched'

    ops = []
    on = []

    def pick(xs):
        return rng.choice(xs) if xs else rng.choice(ids)

    def some():
        ks = rng.sample(ids, rng.randint(1, min(3, len(ids))))
        if rng.random() < 0.2:
            # the same one again
            ks.insert(rng.randint(0, len(ks)), rng.choice(ks))
        return [[at(k), k] for k in ks]

    ctor = some() if rng.random() < P['ctor'] else None
    if ctor:
        on += [k for _, k in ctor]
    kinds = ['add', 'assign', 'addset', 'rmc', 'rmo', 'run', 'mode']
    weights = [P[k] for k in kinds]
    for _ in range(rng.randint(*P['len'])):
        kind = rng.choices(kinds, weights)[0]
        if kind == 'add':
            k = pick([k for k in ids if k not in on]) if rng.random() < 0.9 else rng.choice(ids)
            ops.append({'o': 'add', 'k': k, 'at': at(k), 'via': 'edge' if rng.random() < 0.5 else lvl()})
            on.append(k)
        elif kind == 'assign':
            k = rng.choice(ids)
            ops.append({'o': 'assign', 'k': k, 'at': at(k)})
            on.append(k)
        elif kind == 'addset':
            ps = some()
            ops.append({'o': 'addset', 'ps': ps, 'via': lvl(), 'form': rng.choice(FORMS)})
            on += [k for _, k in ps]
        elif kind == 'rmc':
            k = pick(on) if rng.random() < 0.85 else rng.choice(ids)
            ops.append({'o': 'rmc', 'k': k, 'via': lvl()})
            if k in on:
                on.remove(k)
        elif kind == 'rmo':
            o = rng.randint(1, n)
            if on and rng.random() < 0.7:
                o = conds[rng.choice(on) - 1]['o']
            ops.append({'o': 'rmo', 'at': o, 'via': lvl()})
        elif kind == 'run':
            ops.append({'o': 'run'})
        elif kind == 'mode':
            ops.append({'o': 'mode', 'm': rng.choice(['std', 'exact'])})
        if rng.random() < 0.2 * P['graph'] / 2:
            ops.append({'o': 'graph', 'seq': rng.sample(range(4), 4)})
        if rng.random() < 0.3 * P['obs']:
            ops.append({'o': 'obs'})
    ops += [{'o': 'graph', 'seq': rng.sample(range(4), 4)}, {'o': 'obs'}]
    if rng.random() < 0.6:
        ops.append({'o': 'run'})
        ops.append({'o': 'graph', 'seq': rng.sample(range(4), 4)})
    return {'kind': 'struct', 'n': n, 'nodes': gen_nodes(rng, n + 1), 'graph': g, 'order': rng.sample(range(n), n),
            'form': rng.choice(['dict', 'dict', 'sparse', 'list', 'nx']), 'conds': conds, 'ops': ops, 'ctor': ctor,
            'ctorform': rng.choice(FORMS), 'exact': rng.random() < 0.06}


def s_hist(rng, sid):
    """C12: the graph follows the conditions present"""
    return history(rng, sid)


def s_set(rng, sid):
    """C16: the account of conditions"""
    return history(rng, sid, classes=['Add', 'Remove', 'Before', 'After', 'With', 'Custom'], basic=0.45, bad=0.06,
                   ops=0.05, add=5, assign=2.5, addset=2, rmc=3, rmo=3, run=0.5, obs=2.2, graph=1.5, lvl=0.5, len=(6, 14),
                   conds=(3, 7), n=[1, 2, 2, 3, 3, 4], ctor=0.3, noprune=0)


def s_refuse(rng, sid):
    """C23: refused operations"""
    return history(rng, sid, classes=ALL + ['Custom', 'Raise'], foreign=0.2, conflict=0.4, bad=0.15, ops=0.3, basic=0.15,
                   add=6, rmc=5, rmo=2, addset=1.5, assign=1.5, run=1.5, obs=1.5, n=[2, 3, 3, 4], ctor=0.1)


def s_cyc(rng, sid):
    """C17: cycles come and go"""
    return history(rng, sid, classes=['Add'] * 6 + ['Remove'] * 3 + ['Custom'] * 3 + ['Before', 'After'], cyc=0.4,
                   noprune=1, selfedge=0.4, run=5, rmc=5, add=6, ops=0, basic=0.15, bad=0, conds=(3, 7), len=(6, 12))

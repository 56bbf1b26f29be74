"""Random scenarios for the scheduler traces.  Everything is derived from the
random generator handed in; a scenario is plain JSON and can be replayed."""
import random
from values import gen_nodes

AHR = {'op': 'AllHaveRun', 'd': [], 'ts': 2}
NEVER = {'op': 'Never'}
DEFAULT = {'op': 'Default'}

CALLS = ['BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'AfterNCallsCombined',
         'EveryNCalls', 'JustRan', 'AllHaveRun']
TIMES = ['BeforeConsiderationSetExecution', 'AtConsiderationSetExecution',
         'AfterConsiderationSetExecution', 'AfterNConsiderationSetExecutions',
         'BeforePass', 'AtPass', 'AfterPass', 'AfterNPasses', 'EveryNPasses',
         'BeforeEnvironmentStateUpdate', 'AtEnvironmentStateUpdate',
         'AfterEnvironmentStateUpdate', 'AfterNEnvironmentStateUpdates',
         'AtEnvironmentSequence', 'AfterEnvironmentSequence', 'AfterNEnvironmentSequences',
         'AtEnvironmentStateUpdateStart', 'AtEnvironmentStateUpdateNStart',
         'AtEnvironmentSequenceStart', 'AtEnvironmentSequenceNStart']
COMPOSITE = ['All', 'Any', 'Not', 'NWhen']
DYN = ['While', 'WhileNot', 'WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll', 'Threshold']
SIMPLE = ['Always', 'Never']
ABS = ['TimeInterval']


class Ctx:
    """what conditions of one scenario may talk about"""

    def __init__(self, rng, n, nf=3, np=3):
        self.rng, self.n, self.nf, self.np = rng, n, nf, np
        self.next_id = 0
        self.objs = False

    def small(self, hi=4):
        r = self.rng
        return r.choice([0, 1, 1, 2, 2, 3, r.randint(0, hi), r.randint(0, 2 * hi)])

    def scale(self, lo):
        return self.rng.choice([k for k in (2, 3, 4) if k > lo] * 2 + [max(lo + 1, 2)])

    def dep(self, owner):
        return self.rng.randint(1, self.n)

    def leaf(self, op, owner, term=False):
        r = self.rng
        a = {'op': op}
        if op in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls'):
            a.update(d=[self.dep(owner)], n=self.small(), ts=r.choice([2, 2, 2, 0, 1, 3, 4]))
        elif op == 'AfterNCallsCombined':
            k = r.randint(1, min(3, self.n))
            ds = r.sample(range(1, self.n + 1), k)
            a.update(d=ds, n=self.small(6), ts=r.choice([2, 2, 1, 3, 4]))
        elif op == 'EveryNCalls':
            a.update(d=[self.dep(owner)], n=r.choice([1, 1, 2, 2, 3, 0, 4]))
        elif op == 'JustRan':
            a.update(d=[self.dep(owner)])
        elif op == 'AllHaveRun':
            k = r.choice([0, 0, 1, 2])
            a.update(d=r.sample(range(1, self.n + 1), min(k, self.n)), ts=r.choice([2, 2, 1, 3, 4]))
        elif op in ('Always', 'Never', 'AtEnvironmentStateUpdateStart', 'AtEnvironmentSequenceStart'):
            pass
        elif 'ConsiderationSet' in op:
            a.update(n=self.small(6), ts=self.scale(0))
        elif 'Pass' in op:
            a.update(n=self.small(), ts=self.scale(1))
            if op == 'EveryNPasses':
                a['n'] = max(1, a['n'])
        elif 'EnvironmentStateUpdate' in op:
            a.update(n=r.choice([0, 1, 1, 2, 3]), ts=self.scale(2))
        elif 'EnvironmentSequence' in op:
            a.update(n=r.choice([0, 1, 1, 2]))
        elif op in ('While', 'WhileNot'):
            a.update(f=r.randint(1, self.nf), style=r.randint(0, 3))
        elif op in ('WhenFinished',):
            a.update(d=[self.dep(owner)])
        elif op in ('WhenFinishedAny', 'WhenFinishedAll'):
            k = r.choice([0, 1, 2])
            a.update(d=r.sample(range(1, self.n + 1), min(k, self.n)))
        elif op == 'Threshold':
            a.update(p=r.randint(1, self.np), thr=r.choice([-4, 0, 2, 4, 8, -2, 40]),
                     cmp=r.choice(['<', '<=', '>', '>=', '==', '!=', '==', '!=']),
                     atol=0, rtol=0, style=r.randint(0, 2))
            if a['cmp'] in ('==', '!='):
                a['atol'] = r.choice([0, 0, 1, 2, 4])
                a['rtol'] = r.choice([0, 0, 25, 50])
        else:
            raise ValueError(op)
        if 'ts' in a and r.random() < 0.3:
            dflt = 3 if 'EnvironmentStateUpdate' in op else 2
            if a['ts'] == dflt:
                a['tskw'] = False
        return a

    def cond(self, owner, pool, depth=2, top=True, term=False):
        r = self.rng
        ops = [o for o in pool if (depth > 0 or o not in COMPOSITE)
               and not (o == 'NWhen' and (not top or term))
               and not (term and o == 'EveryNCalls')
               and not (not self.objs and o.startswith('WhenFinished'))]
        if not ops:
            ops = ['Always']
        op = r.choice(ops)
        if op in ('All', 'Any'):
            k = r.choice([1, 2, 2, 3])
            return {'op': op, 'c': [self.cond(owner, pool, depth - 1, False, term) for _ in range(k)],
                    'style': r.randint(0, 1)}
        if op == 'Not':
            return {'op': 'Not', 'c': [self.cond(owner, pool, depth - 1, False, term)]}
        if op == 'NWhen':
            self.next_id += 1
            i = self.next_id
            return {'op': 'NWhen', 'id': i, 'n': r.choice([1, 1, 2, 3, 0]),
                    'c': [self.cond(owner, pool, depth - 1, True, term)]}
        return self.leaf(op, owner, term)


def gen_graph(rng, n, p=None):
    """random DAG; graph[k] = senders of node k+1"""
    if p is None:
        p = rng.choice([0.15, 0.3, 0.5, 0.8])
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    g = [[] for _ in range(n)]
    for a in range(n):
        for b in range(a + 1, n):
            if rng.random() < p:
                g[perm[b] - 1].append(perm[a])
    return [sorted(x) for x in g]


def gen_ctx(rng, k, default_none=None):
    pool = [['str', 'x'], ['int', 0], ['str', ''], ['tuple', [1, 'a']], ['obj', ['ctx', 5]],
            ['int', 7], ['fset', ['q']], ['tuple', []], ['str', 'run'], ['obj', ['ctx2', 6]]]
    rng.shuffle(pool)
    if default_none is None:
        default_none = rng.random() < 0.6
    if default_none:
        return [['none', None]] + pool[:k - 1], False
    out = pool[:k]
    if k > 1 and rng.random() < 0.4:
        out[rng.randrange(1, k)] = ['none', None]
    return out, True


# --- absolute time ----------------------------------------------------------

class AbsGen:
    """times in units of u microseconds; 60*ticks per unit keep every step of
    up to six layers integral"""

    def __init__(self, rng, us_per_unit):
        self.rng = rng
        self.us = us_per_unit
        self.ticks_per_unit = 60
        from math import gcd
        g = gcd(us_per_unit, 60)
        self.tick_us = [us_per_unit // g, 60 // g]

    def interval(self, small=True):
        r = self.rng
        rep = r.choice([0, 1, 2, 2, 3, 4, 5, 6]) * self.ticks_per_unit
        st = r.choice([-1, -1, 0, 1, 2, 3, 5, 8])
        en = r.choice([-1, -1, -1, 4, 6, 10, 12])
        if st > en >= 0:
            st, en = en, st
        if rep == 0 and st < 0 and en < 0:
            rep = self.ticks_per_unit
        T = self.ticks_per_unit
        a = {'op': 'TimeInterval', 'rep': rep, 'st': st * T if st >= 0 else -1,
             'en': en * T if en >= 0 else -1,
             'si': r.random() < 0.7, 'ei': r.random() < 0.7, 'style': r.randint(0, 999)}
        if self.us == 1000 and r.random() < 0.15:
            a['style'] = 0
            a['unitkw'] = 'us'
        return a

    def term(self):
        r = self.rng
        return {'op': 'TimeTermination', 't': r.choice([0, 1, 2, 3, 4, 6, 7, 10]) * self.ticks_per_unit,
                'inc': r.random() < 0.6, 'style': r.randint(0, 99)}


# --- scenarios ----------------------------------------------------------------

def base(rng, sid, n, pool, ctxs=1, p_default=0.3, depth=2, kind=None, p_term=0.4,
         p_sterm=0.15, termpool=None, gp=None):
    nodes = gen_nodes(rng, n, kind)
    c = Ctx(rng, n)
    c.objs = all(d[0] in ('obj', 'eq') for d in nodes)
    conds = [DEFAULT if rng.random() < p_default else c.cond(k + 1, pool, depth) for k in range(n)]
    tp = termpool or ['AfterNPasses', 'AtPass', 'AfterPass', 'AllHaveRun', 'AfterNCalls',
                      'AtNCalls', 'AfterNConsiderationSetExecutions', 'JustRan', 'All', 'Any', 'Not',
                      'AfterNCallsCombined', 'AfterConsiderationSetExecution', 'AfterCall']
    te = c.cond(0, tp, 1, term=True) if rng.random() < p_term else AHR
    ts = c.cond(0, tp + ['AfterNEnvironmentStateUpdates', 'AfterEnvironmentSequence',
                         'AfterNEnvironmentSequences'], 1, term=True) if rng.random() < p_sterm else NEVER
    ctx, eid0 = gen_ctx(rng, ctxs)
    order = list(range(n))
    rng.shuffle(order)
    scn = {
        'id': sid, 'kind': 'sched', 'nodes': nodes, 'graph': gen_graph(rng, n, gp), 'conds': conds,
        'order': order, 'form': rng.choice(['dict', 'dict', 'list', 'digraph', 'sparse']),
        'how': rng.choice(['dict', 'set', 'add', 'addset']),
        'te': te, 'ts': ts, 'tkey': rng.randint(0, 3), 'term0': True, 'burn': rng.random() < 0.3,
        'ctx': ctx, 'eid0': eid0, 'tick_us': [1, 1], 'dflt': 1000,
        'fl': [rng.random() < 0.5 for _ in range(c.nf)],
        'pv': [rng.choice([-4, 0, 2, 4, 8]) for _ in range(c.np)],
        'shapes': [rng.choice(['scalar', 'list', 'nested', 'dict', 'scales']) for _ in range(c.np)],
        'ops': [], 'probes': [],
    }
    e = random.Random(f'equal/{sid}')
    if e.random() < 0.35:
        scn['equal'] = e.randint(1, 999)
    return scn, c


def flips(rng, scn, c, x):
    op = {'o': 'set'}
    if rng.random() < 0.7:
        op['fl'] = [[rng.randint(1, c.nf), rng.random() < 0.5]]
    if rng.random() < 0.5:
        op['pv'] = [[rng.randint(1, c.np), rng.choice([-4, -1, 0, 1, 2, 3, 4, 5, 6, 8, 12, 30, 50])]]
    if c.objs and rng.random() < 0.8:
        op['fin'] = [[x, rng.randint(1, c.n), rng.random() < 0.6] for _ in range(2)]
    return op


def clk(rng, x):
    return {'o': 'clk', 'x': x, 'via': rng.choice(['given', 'given', 'comp', 'default' if x == 1 else 'comp'])}


def script(rng, scn, c, runs=3, cap=10, p_flip=0.0, p_probe=0.0, p_seq=0.25, p_skip=0.1,
           p_term=0.2, p_drop=0.15, termpool=None):
    """runs of the contexts one after the other"""
    ops = scn['ops']
    nctx = len(scn['ctx'])
    termpool = termpool or ['AfterNPasses', 'AtPass', 'AllHaveRun', 'AfterNCalls', 'Any', 'Not',
                            'AfterNConsiderationSetExecutions', 'AfterCall', 'JustRan', 'Never', 'Always']
    for _ in range(runs):
        x = rng.randint(1, nctx)
        new = {'o': 'new', 'x': x, 'skip': rng.random() < p_skip}
        if x == 1 and rng.random() < 0.5:
            new['eid'] = 'default'
        if rng.random() < p_term:
            new['te'] = c.cond(0, termpool, 1, term=True)
        if rng.random() < p_term / 2:
            new['ts'] = c.cond(0, termpool, 1, term=True)
        new['tkey'] = rng.randint(0, 3)
        if p_flip and rng.random() < p_flip:
            ops.append(flips(rng, scn, c, x))
        ops.append(new)
        left = cap if rng.random() >= p_drop else rng.randint(1, 4)
        while left > 0:
            k = min(left, rng.randint(1, 4) if (p_flip or p_probe) else left)
            ops.append({'o': 'next', 'x': x, 'n': k})
            left -= k
            if p_flip and rng.random() < p_flip:
                ops.append(flips(rng, scn, c, x))
            if scn['probes'] and rng.random() < p_probe:
                for _ in range(rng.randint(1, 3)):
                    ops.append({'o': 'probe', 'x': x, 'k': rng.randrange(len(scn['probes']))})
        ops.append({'o': 'drop', 'x': x})
        ops.append(clk(rng, x))
        if scn['probes'] and rng.random() < p_probe:
            for _ in range(rng.randint(1, 3)):
                ops.append({'o': 'probe', 'x': x, 'k': rng.randrange(len(scn['probes']))})
        if rng.random() < p_seq:
            ops.append({'o': 'seqend', 'x': x, 'eid': 'default' if x == 1 and rng.random() < 0.5 else 'given'})
    for x in range(1, nctx + 1):
        ops.append({'o': 'obs', 'x': x})


def interleave(rng, scn, c, steps=30, p_base=0.3, p_seq=0.08, p_skip=0.1, p_drop=0.1, p_probe=0.15, p_flip=0.1):
    ops = scn['ops']
    nctx = len(scn['ctx'])
    active = {}
    used = {1}
    if rng.random() < 0.4:
        # a clock is there before anything runs
        ops.append(clk(rng, rng.randint(1, nctx)))
    for _ in range(steps):
        x = rng.randint(1, nctx)
        r = rng.random()
        if x not in active:
            if r < p_seq:
                ops.append({'o': 'seqend', 'x': x})
                continue
            new = {'o': 'new', 'x': x, 'skip': rng.random() < p_skip}
            if x not in used and rng.random() < p_base:
                new['base'] = rng.choice(sorted(used))
            if x == 1 and rng.random() < 0.5:
                new['eid'] = 'default'
            used.add(x)
            if rng.random() < 0.3:
                new['te'] = c.cond(0, ['AfterNPasses', 'AfterNCalls', 'AllHaveRun', 'Never'], 1, term=True)
            ops.append(new)
            ops.append({'o': 'next', 'x': x, 'n': 1})
            active[x] = rng.randint(1, 12)
        else:
            if r < p_drop or active[x] <= 0:
                ops.append({'o': 'drop', 'x': x})
                del active[x]
                continue
            k = rng.randint(1, 3)
            ops.append({'o': 'next', 'x': x, 'n': k})
            active[x] -= k
            if nctx > 1 and rng.random() < 0.3:
                # may not come to pass
                ops[-1]['nest'] = rng.choice([y for y in range(1, nctx + 1) if y != x])
        if rng.random() < p_flip:
            ops.append(flips(rng, scn, c, x))
        if rng.random() < 0.02:
            ops.append({'o': 'badbase', 'fresh': rng.random() < 0.7})
        if scn['probes'] and rng.random() < p_probe:
            ops.append({'o': 'probe', 'x': x, 'k': rng.randrange(len(scn['probes']))})
    for x in range(1, nctx + 1):
        ops.append({'o': 'drop', 'x': x})
        ops.append(clk(rng, x))
        ops.append({'o': 'obs', 'x': x})


def add_probes(rng, scn, c, pool, k=6, depth=2):
    for _ in range(k):
        o = rng.randint(1, c.n)
        scn['probes'].append({'o': o, 'c': c.cond(o, pool, depth)})


ALLPOOL = CALLS * 2 + TIMES + COMPOSITE * 2 + SIMPLE + DYN


def g_general(rng, sid, pool=None, **kw):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6])
    pool = pool or ALLPOOL
    kind = 'obj' if any(o.startswith('WhenF') for o in pool) and rng.random() < 0.5 else None
    scn, c = base(rng, sid, n, pool, kind=kind, **kw)
    dyn = any(o in DYN for o in pool)
    script(rng, scn, c, p_flip=0.4 if dyn else 0)
    return scn


def topo(g):
    """the nodes, senders first"""
    out = []
    while len(out) < len(g):
        out += [k for k in range(1, len(g) + 1) if k not in out and set(g[k - 1]) <= set(out)]
    return out


def g_mid(rng, sid):
    """edges come and go while runs are suspended"""
    n = rng.choice([2, 3, 3, 4, 4, 5])
    scn, c = base(rng, sid, n, ['Always'] * 8 + ['EveryNPasses', 'AtPass', 'AfterNCalls', 'JustRan', 'Not'], p_default=0,
                  depth=1, ctxs=rng.choice([1, 1, 2]), p_term=0, p_sterm=0)
    scn['te'] = {'op': 'AfterNPasses', 'n': rng.choice([2, 3, 4]), 'ts': 2}
    ops = scn['ops']
    t = topo(scn['graph'])
    edges = {(s, r + 1) for r, ss in enumerate(scn['graph']) for s in ss}
    for x in range(1, len(scn['ctx']) + 1):
        ops.append({'o': 'new', 'x': x})
    for _ in range(rng.randint(4, 9)):
        for x in range(1, len(scn['ctx']) + 1):
            if rng.random() < 0.75:
                ops.append({'o': 'step', 'x': x} if rng.random() < 0.3 else {'o': 'next', 'x': x, 'n': rng.randint(1, 3)})
        if rng.random() < 0.6:
            i, j = sorted(rng.sample(range(n), 2))
            e = (t[i], t[j])
            ch = 'add'
            if edges and rng.random() < 0.5:
                e, ch = rng.choice(sorted(edges)), 'rm'
            (edges.add if ch == 'add' else edges.discard)(e)
            ops.append({'o': ch + 'edge', 'a': e[0], 'b': e[1], 'mid': True, 'blind': rng.random() < 0.7})
    for x in range(1, len(scn['ctx']) + 1):
        ops += [{'o': 'next', 'x': x, 'n': 3 * n}, {'o': 'drop', 'x': x}, {'o': 'clk', 'x': x}, {'o': 'obs', 'x': x}]
    return scn


def g_order(rng, sid):
    """C01: order and layers, also after the graph changed"""
    if rng.random() < 0.25:
        return g_mid(rng, sid)
    n = rng.choice([2, 3, 4, 5, 6, 7])
    if rng.random() < 0.03:
        n = rng.randint(9, 16)
    scn, c = base(rng, sid, n, CALLS + ['Always'] * 6 + ['EveryNPasses', 'AtPass', 'Any', 'Not', 'AfterPass'],
                  p_default=0.4, depth=1)
    script(rng, scn, c, runs=2, cap=14)
    if rng.random() < 0.6:
        graph_ops(rng, scn, c, rng.randint(1, 3), cyc=False)
        script(rng, scn, c, runs=1, cap=12)
    return scn


def g_cascade(rng, sid):
    """nodes of one consideration set that let each other in one after the
    other, in an order that has nothing to do with that of the set"""
    n = rng.choice([3, 4, 5, 5, 6, 7, 8])
    scn, c = base(rng, sid, n, ['Always'], p_default=0, gp=0, kind=rng.choice(['obj', 'obj', 'int', None]))
    first = rng.randint(0, 1)
    p = rng.sample(range(n), n)
    for i, k in enumerate(p):
        if i == 0:
            a = {'op': rng.choice(['Always', 'EveryNPasses', 'AtPass']), 'n': rng.choice([1, 2, 3]), 'ts': 2}
            a = {'op': 'Always'} if a['op'] == 'Always' else a
        else:
            b = p[rng.choice([i - 1, i - 1, i - 1, rng.randrange(i)])] + 1
            a = {'op': rng.choice(['EveryNCalls', 'EveryNCalls', 'AfterNCalls', 'AtNCalls', 'AfterCall', 'AfterNCallsCombined']),
                 'd': [b], 'n': 1, 'ts': rng.choice([1, 1, 2])}
            if a['op'] == 'EveryNCalls':
                a.pop('ts')
                a['n'] = rng.choice([1, 1, 1, 2])
            elif a['op'] == 'AfterCall':
                a['n'] = first
        if rng.random() < 0.15:
            a = {'op': rng.choice(['All', 'Any']), 'c': [a, c.cond(k + 1, CALLS + ['Always', 'Never'], 1, False)], 'style': 0}
        scn['conds'][k] = a
    script(rng, scn, c, runs=2, cap=8)
    return scn


def g_fix(rng, sid):
    """C02: many conditions about members of the same consideration set"""
    if rng.random() < 0.15:
        return g_cascade(rng, sid)
    n = rng.choice([2, 3, 4, 4, 5])
    if rng.random() < 0.02:
        n = rng.randint(8, 14)
    scn, c = base(rng, sid, n, CALLS * 3 + ['Any', 'All', 'Not', 'NWhen', 'Always', 'AtPass', 'EveryNPasses', 'While'],
                  p_default=0.15, gp=rng.choice([0, 0, 0.15, 0.3]), kind=rng.choice(['obj', 'obj', None]))
    script(rng, scn, c, runs=2, cap=12, p_flip=0.15)
    return scn


def g_fan(rng, sid):
    """nodes without conditions below many nodes that run at different rates"""
    n = rng.choice([4, 5, 5, 6, 7])
    scn, c = base(rng, sid, n, ['Always'], p_default=1, p_term=0, gp=0)
    p = rng.sample(range(1, n + 1), n)
    m = rng.choice([1, 1, 2])
    for k in p[:n - m]:
        scn['conds'][k - 1] = rng.choice([
            {'op': 'Always'}, {'op': 'EveryNPasses', 'n': rng.randint(1, 4), 'ts': 2}, {'op': 'AtPass', 'n': rng.randint(0, 4), 'ts': 2},
            {'op': 'AfterNPasses', 'n': rng.randint(1, 4), 'ts': 2}, {'op': 'BeforePass', 'n': rng.randint(1, 3), 'ts': 2}])
    for j in range(m):
        up = p[:n - m + j]
        scn['graph'][p[n - m + j] - 1] = sorted(rng.sample(up, rng.randint(max(2, len(up) - 2), len(up))))
    scn['te'] = {'op': 'AfterNPasses', 'n': rng.randint(4, 8), 'ts': 2}
    script(rng, scn, c, runs=2, cap=16, p_term=0.1)
    return scn


def g_default(rng, sid):
    """C03: nodes without conditions"""
    if rng.random() < 0.12:
        return g_fan(rng, sid)
    n = rng.choice([1, 2, 3, 4, 5, 6])
    if rng.random() < 0.03:
        n = rng.randint(9, 16)
    scn, c = base(rng, sid, n, CALLS + ['Always', 'EveryNPasses', 'AtPass', 'Not', 'NWhen'],
                  p_default=rng.choice([1, 0.8, 0.6]), p_term=0.4, depth=1)
    script(rng, scn, c, runs=2, cap=12)
    for _ in range(rng.randint(0, 2)):
        graph_ops(rng, scn, c, rng.randint(1, 2), cyc=False)
        if rng.random() < 0.5:
            k = rng.randint(1, n)
            scn['ops'].append({'o': 'uncond', 'n': k} if rng.random() < 0.5 else
                              {'o': 'cond', 'n': k, 'c': c.cond(k, CALLS + ['Always'], 1)})
        script(rng, scn, c, runs=rng.randint(1, 2), cap=10)
    return scn


def g_long(rng, sid, pool, term=None):
    """numbers that do not fit in a byte: many passes, runs or sequences of a
    small graph"""
    n = rng.choice([1, 1, 2])
    how = rng.choice(['passes', 'passes', 'runs', 'seqs'])
    scn, c = base(rng, sid, n, pool + ['Always'] * 3, p_default=0.4, depth=1, p_term=0, p_sterm=0)
    if how == 'passes':
        scn['te'] = {'op': rng.choice(['AfterNPasses', 'AfterNConsiderationSetExecutions']), 'n': rng.randint(4, 8), 'ts': 2}
        if term and rng.random() < 0.6:
            scn['te'] = c.cond(0, term, 1, term=True)
    add_probes(rng, scn, c, pool, 10, 1)
    for k in scn['conds'] + [p['c'] for p in scn['probes']] + [scn['te']]:
        for y in walk(k):
            if 'n' in y and y['op'] not in ('EveryNCalls', 'EveryNPasses') and rng.random() < 0.7:
                y['n'] += 254
    if how == 'passes' and 'n' in scn['te'] and scn['te']['n'] < 100:
        scn['te']['n'] += 254

    def some(k):
        return [{'o': 'probe', 'x': 1, 'k': rng.randrange(10)} for _ in range(k)]

    ops = scn['ops']
    if how == 'passes':
        ops += [{'o': 'new', 'x': 1, 'skip': False, 'tkey': 0}, {'o': 'next', 'x': 1, 'n': rng.randint(245, 255)}]
        for _ in range(14):
            ops += [{'o': 'next', 'x': 1, 'n': 1}] + some(3)
    else:
        for k in range(264):
            ops += [{'o': 'new', 'x': 1, 'skip': False, 'tkey': 0}, {'o': 'next', 'x': 1, 'n': 1}]
            ops += [{'o': 'next', 'x': 1, 'n': 2}] if how == 'runs' or rng.random() < 0.1 else [{'o': 'drop', 'x': 1}]
            if how == 'seqs':
                ops.append({'o': 'seqend', 'x': 1, 'eid': 'given'})
            if k > 252:
                ops += some(3)
    ops += [{'o': 'drop', 'x': 1}, {'o': 'clk', 'x': 1}, {'o': 'obs', 'x': 1}, {'o': 'new', 'x': 1, 'skip': False, 'tkey': 0},
            {'o': 'next', 'x': 1, 'n': 3}] + some(4)
    return scn


def g_calls(rng, sid):
    if rng.random() < 0.008:
        return g_long(rng, sid, CALLS)
    n = rng.choice([2, 3, 3, 4, 5])
    scn, c = base(rng, sid, n, CALLS * 4 + ['Any', 'All', 'Not', 'Always', 'AtPass', 'EveryNPasses'],
                  p_default=0.15, depth=1)
    add_probes(rng, scn, c, CALLS, 8, 0)
    script(rng, scn, c, runs=4, cap=10, p_probe=0.6, p_seq=0.35)
    return scn


def g_times(rng, sid):
    if rng.random() < 0.008:
        return g_long(rng, sid, TIMES)
    n = rng.choice([1, 2, 3, 4])
    scn, c = base(rng, sid, n, TIMES * 4 + ['Any', 'All', 'Not', 'Always'], p_default=0.15, depth=1,
                  p_term=0.8, termpool=['AfterNPasses', 'AfterPass', 'AtPass', 'AfterNConsiderationSetExecutions',
                                        'AtConsiderationSetExecution', 'AfterConsiderationSetExecution'])
    add_probes(rng, scn, c, TIMES, 10, 0)
    script(rng, scn, c, runs=5, cap=9, p_probe=0.7, p_seq=0.4, p_skip=0.2)
    return scn


def g_composite(rng, sid):
    if rng.random() < 0.008:
        return g_long(rng, sid, COMPOSITE + CALLS)
    n = rng.choice([2, 3, 4])
    scn, c = base(rng, sid, n, COMPOSITE * 4 + DYN * 2 + CALLS + ['AtPass', 'EveryNPasses', 'Always', 'Never'],
                  p_default=0.1, depth=3, kind=rng.choice(['obj', 'obj', 'eq', None]),
                  ctxs=rng.choice([1, 2]))
    add_probes(rng, scn, c, COMPOSITE * 2 + DYN + ['EveryNCalls', 'EveryNCalls', 'AfterNCalls', 'Always', 'Never'], 8, 3)
    script(rng, scn, c, runs=3, cap=10, p_probe=0.6, p_flip=0.6)
    return scn


TERMS = ['AfterNPasses', 'AtPass', 'AfterPass', 'EveryNPasses', 'AllHaveRun', 'AfterNCalls', 'AtNCalls',
         'AfterCall', 'AfterNConsiderationSetExecutions', 'AtConsiderationSetExecution', 'JustRan', 'All', 'Any',
         'Not', 'AfterNCallsCombined', 'While', 'WhileNot', 'Never', 'Always', 'BeforeNCalls', 'BeforePass',
         'AfterNEnvironmentStateUpdates', 'Threshold']


def g_term(rng, sid):
    if rng.random() < 0.008:
        return g_long(rng, sid, CALLS + TIMES, TERMS)
    n = rng.choice([1, 2, 3, 4, 5])
    scn, c = base(rng, sid, n, CALLS + ['Always'] * 4 + ['EveryNPasses', 'AtPass', 'Not'], p_default=0.4,
                  depth=1, p_term=0.5, p_sterm=0.4, termpool=TERMS)
    scn['term0'] = True
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.3:
            op = {'o': 'term', 'tkey': rng.randint(0, 3), 'item': rng.random() < 0.3}
            if rng.random() < 0.7:
                op['te'] = c.cond(0, TERMS, 1, term=True)
            if rng.random() < 0.5:
                op['ts'] = c.cond(0, TERMS, 1, term=True)
            scn['ops'].append(op)
        elif r < 0.45:
            scn['ops'].append({'o': 'reterm'})
        elif r < 0.55:
            scn['ops'].append({'o': 'badterm', 'k': rng.randint(0, 6), 'how': rng.choice(['run', 'set', 'new'])})
        script(rng, scn, c, runs=rng.randint(1, 2), cap=9, p_flip=0.25, p_term=0.6, termpool=TERMS)
    return scn


def g_clock(rng, sid):
    if rng.random() < 0.008:
        return g_long(rng, sid, TIMES)
    n = rng.choice([1, 2, 3, 4])
    scn, c = base(rng, sid, n, CALLS + TIMES + ['Always'] * 8 + ['Never'] * 4, p_default=0.3, depth=1, ctxs=rng.choice([1, 1, 2]))
    script(rng, scn, c, runs=4, cap=9, p_seq=0.5, p_skip=0.3, p_drop=0.3)
    return scn


def g_ctx(rng, sid):
    n = rng.choice([1, 2, 3, 4])
    k = rng.choice([2, 2, 3])
    scn, c = base(rng, sid, n, CALLS * 2 + TIMES + COMPOSITE + ['Always'] * 3 + ['WhenFinished', 'WhenFinishedAll'] + ['While', 'WhileNot'] * 3,
                  ctxs=k, p_default=0.2, kind=rng.choice(['obj', None]))
    add_probes(rng, scn, c, CALLS + TIMES + ['WhenFinished', 'NWhen'], 6, 1)
    interleave(rng, scn, c, steps=36)
    return scn


def g_carry(rng, sid):
    if rng.random() < 0.008:
        return g_long(rng, sid, CALLS)
    n = rng.choice([1, 2, 3, 4])
    scn, c = base(rng, sid, n, CALLS * 4 + ['Always'] * 3 + ['Any', 'Not', 'AtEnvironmentSequence'], p_default=0.2, depth=1,
                  ctxs=rng.choice([1, 1, 2]), p_term=0.6)
    add_probes(rng, scn, c, CALLS, 8, 0)
    script(rng, scn, c, runs=5, cap=8, p_seq=0.5, p_skip=0.2, p_drop=0.35, p_probe=0.7)
    return scn


def graph_ops(rng, scn, c, k, cyc=True):
    n = c.n
    if n < 2:
        return
    for _ in range(k):
        r = rng.random()
        a, b = rng.sample(range(1, n + 1), 2)
        if r < 0.35:
            scn['ops'].append({'o': 'addedge', 'a': a, 'b': b, 'blind': rng.random() < 0.5} if cyc or rng.random() < 0.1
                              else {'o': 'gsc', 'cls': 'AfterNode', 'n': b, 'd': [a]})
        elif r < 0.55:
            # prefer existing edges
            es = [(s, x + 1) for x, ss in enumerate(scn['graph']) for s in ss]
            if es and rng.random() < 0.8:
                a, b = rng.choice(es)
            scn['ops'].append({'o': 'rmedge', 'a': a, 'b': b})
        elif r < 0.8:
            scn['ops'].append({'o': 'gsc', 'cls': rng.choice(['BeforeNode', 'AfterNode', 'WithNode']), 'n': a, 'd': [b]})
        else:
            scn['ops'].append({'o': 'rmgsc', 'k': rng.randint(0, 3)})
    scn['ops'].append({'o': 'look'})


def g_cyclic(rng, sid):
    """C17"""
    n = rng.choice([2, 3, 4, 5])
    scn, c = base(rng, sid, n, CALLS + ['Always'] * 5 + ['EveryNPasses'], p_default=0.6, depth=1)
    if rng.random() < 0.3:
        # cyclic from the start
        a, b = rng.sample(range(n), 2)
        scn['graph'][a] = sorted(set(scn['graph'][a]) | {b + 1})
        scn['graph'][b] = sorted(set(scn['graph'][b]) | {a + 1})
    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.5:
            script(rng, scn, c, runs=1, cap=6)
        es = [(s, x + 1) for x, ss in enumerate(scn['graph']) for s in ss]
        r = rng.random()
        if es and r < 0.5:
            s, t = rng.choice(es)
            scn['ops'].append({'o': 'addedge', 'a': t, 'b': s})
        elif es and r < 0.65:
            s, t = rng.choice(es)
            scn['ops'].append({'o': 'rmedge', 'a': s, 'b': t})
        else:
            graph_ops(rng, scn, c, 1)
        if rng.random() < 0.7:
            script(rng, scn, c, runs=1, cap=6)
            for x in (1,):
                scn['ops'].append({'o': 'clk', 'x': x})
        if rng.random() < 0.6:
            scn['ops'].append({'o': 'rmgsc', 'k': rng.randint(0, 3)})
            scn['ops'].append({'o': 'look'})
    script(rng, scn, c, runs=1, cap=6)
    return scn


def abs_conds(rng, scn, c, ag, p_abs=0.7, p_default=0.2):
    def interval(depth=2):
        r = rng.random()
        if depth and r < 0.16:
            sub = [interval(depth - 1), rng.choice([{'op': 'Always'}, c.leaf('AfterNCalls', 1), interval(depth - 1),
                                                    {'op': 'Not', 'c': [interval(0)]}])]
            rng.shuffle(sub)
            return {'op': rng.choice(['All', 'Any']), 'style': 0, 'c': sub}
        if depth and r < 0.24:
            return {'op': 'Not', 'c': [interval(depth - 1)]}
        if depth == 2 and r < 0.3:
            c.next_id += 1
            return {'op': 'NWhen', 'id': c.next_id, 'n': rng.randint(1, 2), 'c': [interval(1)]}
        return ag.interval()
    out = []
    for k in range(c.n):
        r = rng.random()
        if r < p_abs:
            out.append(interval())
        elif r < p_abs + p_default:
            out.append(DEFAULT)
        else:
            out.append(c.cond(k + 1, ['EveryNCalls', 'Always', 'AfterNCalls', 'JustRan', 'AtPass', 'AfterNPasses'], 0))
    scn['conds'] = out


def set_dflt(rng, scn, ag):
    if rng.random() < 0.4:
        k = rng.choice([1, 2, 3, 5])
        us = ag.us * k
        scn['dflt'] = k * ag.ticks_per_unit
        scn['dflt_str'] = f'{us}us'
    else:
        us = ag.us
        # 1 ms
        num = 1000 * ag.tick_us[1]
        if num % ag.tick_us[0] == 0:
            scn['dflt'] = num // ag.tick_us[0]
        else:
            scn['dflt'] = ag.ticks_per_unit
            scn['dflt_str'] = f'{us}us'


def g_abs(rng, sid, mode=None):
    """C18 / C19"""
    n = rng.choice([1, 2, 2, 3, 3, 4])
    scn, c = base(rng, sid, n, ['Always'], p_default=1, ctxs=rng.choice([1, 1, 1, 2]))
    ag = AbsGen(rng, rng.choice([1000, 1000, 100, 1, 250, 100000, 500000, 60000000]))
    scn['tick_us'] = ag.tick_us
    set_dflt(rng, scn, ag)
    r = rng.random()
    if r < 0.1:
        # absolute termination only
        abs_conds(rng, scn, c, ag, 0, 0.5)
    elif r < 0.3:
        abs_conds(rng, scn, c, ag, 1, 0)
        for k in range(n):
            scn['conds'][k] = ag.interval()
            if scn['conds'][k]['st'] < 0:
                scn['conds'][k]['st'] = rng.choice([2, 3, 4]) * ag.ticks_per_unit
                if 0 <= scn['conds'][k]['en'] < scn['conds'][k]['st']:
                    scn['conds'][k]['en'] = -1
    else:
        abs_conds(rng, scn, c, ag)
    if mode is None:
        mode = rng.choice(['std', 'std', 'std', 'exact'])
    if mode == 'exact':
        scn['mode0'] = 'exact'
    r = rng.random()
    if r < 0.55:
        scn['te'] = ag.term()
    elif r < 0.65:
        scn['te'] = {'op': 'Any', 'style': 0, 'c': [ag.term(), c.cond(0, ['AfterNPasses', 'AfterNCalls'], 0, term=True)]}
    elif r < 0.72:
        scn['te'] = ag.interval()
        scn['te']['style'] = 0
    else:
        scn['te'] = c.cond(0, ['AllHaveRun', 'AfterNPasses', 'AfterNCalls'], 0, term=True)
    scn['ts'] = ag.term() if rng.random() < 0.1 else NEVER
    if all(k['op'] in ('Default', 'Always') for k in scn['conds']) and rng.random() < 0.4:
        # the end of the sequence is the only thing in absolute time
        scn['te'] = rng.choice([NEVER, {'op': 'AfterNPasses', 'n': rng.choice([2, 5]), 'ts': 2}])
        scn['ts'] = ag.term()
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.randint(1, len(scn['ctx']))
        new = {'o': 'new', 'x': x, 'skip': rng.random() < 0.1}
        r = rng.random()
        if r < 0.25:
            new['te'] = ag.term()
            new['te']['t'] *= 2
        elif r < 0.32:
            new['ts'] = ag.term()
            if rng.random() < 0.5:
                new['te'] = {'op': 'AfterNPasses', 'n': 4, 'ts': 2}
        elif r < 0.37:
            new['te'] = rng.choice([ag.interval, ag.term])()
            if new['te']['op'] == 'TimeInterval':
                new['te']['style'] = 0
            new['te'] = {'op': 'Any', 'style': 0, 'c': [new['te'], {'op': 'AfterNPasses', 'n': 4, 'ts': 2}]}
        scn['ops'].append(new)
        scn['ops'].append({'o': 'next', 'x': x, 'n': rng.choice([4, 14, 22])})
        scn['ops'].append({'o': 'drop', 'x': x})
        scn['ops'].append({'o': 'clk', 'x': x})
        if rng.random() < 0.2:
            scn['ops'].append({'o': 'seqend', 'x': x})
    for x in range(1, len(scn['ctx']) + 1):
        scn['ops'].append({'o': 'obs', 'x': x})
    return scn


def touches(c):
    """user functions a condition looks at, and those that must not raise:
    how often an at-most-N wrapper was satisfied would not be known"""
    own, held = set(), set()
    op = c['op']
    if op in ('While', 'WhileNot'):
        own.add(c['f'])
    elif op == 'Threshold':
        own.add(-c['p'])
    elif op.startswith('WhenFinished'):
        own |= {100 + d for d in c['d']} or {100 + d for d in range(1, 10)}
    for k in c.get('c', []):
        a, b = touches(k)
        own |= a
        held |= b
    if op == 'NWhen' and any(k['op'] in ('All', 'Any', 'WhenFinishedAny', 'WhenFinishedAll') for k in walk(c)):
        held |= own
    return own, held


def walk(c):
    yield c
    for k in c.get('c', []):
        yield from walk(k)


RAISING = ['While', 'WhileNot', 'Threshold', 'WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll']


def g_raise(rng, sid):
    """C26: user functions raise, at any point of a run"""
    n = rng.choice([1, 2, 3, 3, 4])
    pool = RAISING * 2 + COMPOSITE * 2 + CALLS * 2 + ['AtPass', 'AfterNPasses', 'EveryNPasses', 'Always', 'Always', 'Always']
    scn, c = base(rng, sid, n, pool, p_default=0.2, depth=2, kind=rng.choice(['obj', 'obj', 'eq', None]),
                  ctxs=rng.choice([1, 1, 2]), p_term=0.6, gp=rng.choice([None, 0, 0.2]),
                  termpool=CALLS + ['AfterNPasses', 'AfterNPasses', 'While', 'WhileNot', 'Any', 'All', 'Not', 'Threshold'])
    scn['fl'] = [rng.random() < 0.7 for _ in scn['fl']]
    scn['ts'] = NEVER
    if rng.random() < 0.4:
        # may be satisfied a few times only: not by what raises
        c.next_id += 1
        scn['conds'][rng.randrange(n)] = {'op': 'NWhen', 'id': c.next_id, 'n': rng.choice([1, 1, 2, 3]),
                                          'c': [c.leaf(rng.choice(['While', 'WhileNot', 'Threshold']), 1)]}
    if rng.random() < 0.15:
        # absolute time
        ag = AbsGen(rng, rng.choice([1000, 100, 250]))
        scn['tick_us'] = ag.tick_us
        set_dflt(rng, scn, ag)
        scn['conds'][rng.randrange(n)] = {**ag.interval(), 'style': 0}
    add_probes(rng, scn, c, CALLS * 2 + RAISING + COMPOSITE, 7, 1)
    own, held = set(), set()
    for k in scn['conds'] + [p['c'] for p in scn['probes']] + [scn['te']]:
        a, b = touches(k)
        own |= a
        held |= b
    for k, w in enumerate(scn['probes']):
        # an at-most-N wrapper is looked at once per question
        if w['c']['op'] == 'NWhen':
            scn['probes'][k] = {'o': w['o'], 'c': c.leaf('AfterNCalls', 1)}
    can = sorted(own - held)
    script(rng, scn, c, runs=5, cap=rng.choice([5, 8]), p_flip=0.3, p_probe=0.6, p_seq=0.3, p_term=0.15,
           termpool=['AfterNPasses', 'AllHaveRun', 'AfterNCalls', 'Never'])
    if not can:
        return scn
    ops, out = scn['ops'], []
    for o in ops:
        if o['o'] == 'next' and rng.random() < 0.5:
            k = rng.randint(0, o['n'] - 1)
            if k:
                out.append({**o, 'n': k})
            x = o['x']
            out.append({'o': 'next', 'x': x, 'n': 1, 'exc': rng.randint(0, 5),
                        'boom': sorted(rng.sample(can, min(len(can), rng.choice([1, 1, 2]))))})
            if rng.random() < 0.3:
                out.append({'o': 'obs', 'x': x})
            if rng.random() < 0.7:
                # how things are, and on with a new run
                out += [{'o': 'clk', 'x': x}] + [{'o': 'probe', 'x': x, 'k': rng.randrange(len(scn['probes']))}
                                                for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.6:
                out.append({'o': 'step', 'x': x})
            if o['n'] - k - 1 > 0:
                out.append({**o, 'n': o['n'] - k - 1})
        elif o['o'] == 'probe' and rng.random() < 0.25:
            out.append({**o, 'exc': rng.randint(0, 5), 'boom': [rng.choice(can)]})
        elif o['o'] == 'drop' and rng.random() < 0.2:
            out.append({**o, 'throw': rng.randint(1, 6)})
        else:
            out.append(o)
    scn['ops'] = out
    return scn


def g_exact(rng, sid):
    """C19: exact mode, switching, graph changes without effect"""
    scn = g_abs(rng, sid, 'exact') if rng.random() < 0.7 else g_default(rng, sid)
    while len(scn['nodes']) > 7:
        # all of them are one consideration set, and the monitor considers all orders
        scn = g_default(rng, sid)
    if scn.get('mode0') != 'exact' and rng.random() < 0.8:
        scn['mode0'] = 'exact'
    ops = []
    k = rng.randint(1, 3)
    n = len(scn['nodes'])
    pend = [i for i, o in enumerate(scn['ops']) if o['o'] == 'new']
    cut = rng.choice(pend) if pend else 0
    ins = []
    mode = scn.get('mode0', 'std')
    for _ in range(k):
        r = rng.random()
        if r < 0.5:
            mode = 'std' if mode == 'exact' else 'exact'
            ins.append({'o': 'mode', 'm': mode})
        elif n > 1:
            a, b = rng.sample(range(1, n + 1), 2)
            ins.append({'o': 'gsc', 'cls': rng.choice(['BeforeNode', 'AfterNode', 'WithNode']), 'n': a, 'd': [b]})
    ins.append({'o': 'look'})
    tail = [dict(o) for o in scn['ops'][cut:]]
    scn['ops'] = scn['ops'][:cut] + ins + tail
    if rng.random() < 0.5:
        mode = 'std' if mode == 'exact' else 'exact'
        scn['ops'].append({'o': 'mode', 'm': mode})
        x = 1
        scn['ops'] += [{'o': 'new', 'x': x}, {'o': 'next', 'x': x, 'n': 10}, {'o': 'drop', 'x': x}, {'o': 'obs', 'x': x}]
    return scn

"""Random well-formed and ill-formed specifications."""
import values

SINGLE = ['BeforeNode', 'AfterNode', 'AddEdgeTo', 'RemoveEdgeFrom']
MANY = ['BeforeNodes', 'AfterNodes']
GSC = SINGLE + MANY + ['WithNode']
OPS = ['KEEP', 'replace', 'Merge', 'DISCARD', 'union']
DEP1 = ['BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'EveryNCalls', 'JustRan', 'WhenFinished']
DEPN = ['AllHaveRun', 'AfterNCallsCombined', 'WhenFinishedAny', 'WhenFinishedAll']
TIMES = ['BeforeConsiderationSetExecution', 'AtConsiderationSetExecution', 'AfterConsiderationSetExecution',
         'AfterNConsiderationSetExecutions', 'BeforePass', 'AtPass', 'AfterPass', 'AfterNPasses', 'EveryNPasses',
         'BeforeEnvironmentStateUpdate', 'AtEnvironmentStateUpdate', 'AfterEnvironmentStateUpdate',
         'AfterNEnvironmentStateUpdates', 'AtEnvironmentSequence', 'AfterEnvironmentSequence',
         'AfterNEnvironmentSequences', 'AtEnvironmentStateUpdateStart', 'AtEnvironmentStateUpdateNStart',
         'AtEnvironmentSequenceStart', 'AtEnvironmentSequenceNStart']
CALLS = ['BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'AfterNCallsCombined', 'EveryNCalls', 'AllHaveRun']
LOOSE = ['JustRan', 'TimeInterval', 'TimeTermination', 'AllHaveRun()', 'WhenFinishedAny()', 'WhenFinishedAll()']
FREE = ['Always', 'Never', 'While', 'WhileNot', 'All', 'Any', 'Not']
N = 4


def quantity(rng, lo=0):
    u = rng.choice([1, 1000, 1000, 10 ** 6])
    den = rng.choice([1, 1, 1, 2, 4, 5, 10])
    top = {1: 2000, 1000: 2000, 10 ** 6: 20}[u]
    return {'num': rng.choice([lo, rng.randint(lo, 20), rng.randint(lo, top)]), 'den': den, 'u': u}


def again(rng, q):
    """the same time, or nearly"""
    tw = q['num'] * q['u'] * (20 // q['den'])
    r = rng.random()
    if r < 0.3 and q['u'] > 1 and tw % (20 * q['u'] // 1000) == 0:
        return {'num': tw // (20 * q['u'] // 1000), 'den': 1, 'u': q['u'] // 1000}
    if r < 0.5 and tw % 20 == 0 and tw:
        return {'num': tw // 20 + rng.choice([-1, 0, 1]), 'den': 1, 'u': 1}
    if r < 0.7:
        return {'num': q['num'] + rng.choice([0, 0, 1]), 'den': q['den'], 'u': q['u']}
    return quantity(rng)


def interval(rng):
    f = {'f': 'interval', 'rep': [], 'st': [], 'en': []}
    if rng.random() < 0.4:
        f['rep'] = [quantity(rng, 1)]
    if rng.random() < 0.7:
        f['st'] = [quantity(rng)]
    if rng.random() < 0.7:
        f['en'] = [again(rng, f['st'][0]) if f['st'] else quantity(rng)]
    return f


def threshold(rng):
    return {'f': 'threshold', 'has': rng.random() < 0.7, 'val': rng.choice(['none', 'none', 'ok', 'no']),
            'cmp': rng.choice(['<', '<=', '>', '>=', '==', '!='] * 2 + ['=', '=>', '<>', 'lt', '', 'none', 'zero', 'op', '=<',
                                                                        '< ', '<==']),
            'atol': rng.random() < 0.3, 'rtol': rng.random() < 0.3}


def subjects(rng, cls, lo=1):
    n = 1 if cls in SINGLE + ['WithNode'] else rng.choice([1, 2, 2, 3])
    return rng.sample(range(1, N + 1), n)


def nodes(rng):
    cls = rng.choice(GSC)
    ns = subjects(rng, cls)
    if cls != 'WithNode' and rng.random() < 0.25:
        ns = [] if rng.random() < 0.5 else ns + [rng.choice([k for k in range(1, N + 1) if k not in ns])]
    if ns and rng.random() < 0.2:
        ns[rng.randrange(len(ns))] = 0
    f = {'f': 'nodes', 'cls': cls, 'nodes': ns, 'ss': [], 'sr': []}
    if 0 not in ns:
        for key in ('ss', 'sr'):
            if cls in ('AddEdgeTo', 'RemoveEdgeFrom') or (key, cls) == ('ss', 'WithNode') or rng.random() < 0.5:
                continue
            ks = list(ns)
            rng.shuffle(ks)
            if rng.random() < 0.3 and len(ks) > 1:
                ks = ks[1:]
            if rng.random() < 0.2:
                ks.insert(rng.randint(0, len(ks)), rng.choice([k for k in range(1, N + 1) if k not in ns] or [1]))
            if ks:
                f[key] = [list(dict.fromkeys(ks))]
    return f


def owner(rng):
    cls = rng.choice(GSC)
    ns = subjects(rng, cls)
    return {'f': 'owner', 'cls': cls, 'nodes': ns, 'o': rng.choice(ns) if rng.random() < 0.4 else rng.randint(1, N)}


def apply(rng):
    cls = rng.choice(GSC)
    inn = list(range(1, N + 1))
    rng.shuffle(inn)
    if rng.random() < 0.5:
        inn = inn[:rng.randint(1, N)]
    ns = subjects(rng, cls)
    o = rng.choice([0] + [k for k in range(1, N + 1) if k not in ns] * 5)
    g = [sorted(s for s in inn if inn.index(s) < inn.index(k) and rng.random() < 0.5) if k in inn else []
         for k in range(1, N + 1)]
    return {'f': 'apply', 'cls': cls, 'nodes': ns, 'o': o, 'g': g, 'in': inn,
            'via': rng.choice(['modify', 'modify', 'sched']) if o else 'modify'}


def custom(rng):
    return {'f': 'custom', 'call': rng.random() < 0.75, 'self': rng.choice(['none', 'first', 'later']), 'own': rng.random() < 0.8}


def graph(rng):
    return {'f': 'graph', 'kind': rng.choice(['none', 'dict', 'graph', 'multigraph', 'digraph', 'multidigraph'])}


def alone(rng):
    return {'f': 'alone', 'cls': rng.choice(rng.choice([TIMES, TIMES, CALLS, LOOSE, FREE]))}


def combined(rng):
    return {'f': 'combined', 'n': [] if rng.random() < 0.3 else [rng.randint(0, 7)], 'got': 2 * rng.randint(0, 3)}


def finished(rng):
    cls = rng.choice(['One', 'Any', 'All'])
    w = rng.choice(['TFX', 'TF', 'FX', 'TX', 'T', 'F', 'X'])
    return {'f': 'finished', 'cls': cls, 'deps': [rng.choice(w) for _ in range(1 if cls == 'One' else rng.randint(1, 4))]}


def own(rng):
    cls = rng.choice(DEP1 + DEPN)
    d = rng.sample(range(1, N + 1), 1 if cls in DEP1 else rng.randint(1, 3))
    return {'f': 'own', 'cls': cls, 'deps': d, 'o': rng.choice([d[0], d[0], rng.randint(1, N), rng.randint(1, N)])}


MAKE = [interval, interval, threshold, threshold, nodes, nodes, owner, apply, apply, custom, graph, alone, combined, finished,
        own, own]


def opts(rng, f):
    return {**opts_of(rng, f), 'fresh': rng.random() < 0.4}


def opts_of(rng, f):
    k = f['f']
    if k == 'interval':
        return {'how': {x: rng.choice(['num', 'num', 'numstr', 'str', 'long', 'qty']) for x in ('rep', 'st', 'en')},
                'unit': rng.choice([1, 1000, 1000, 10 ** 6]), 'unitkw': rng.randint(0, 2),
                'none': rng.random() < 0.3, 'incl': rng.choice([0, 0, 1, 2, 3]), 'pos': rng.random() < 0.3}
    if k == 'threshold':
        return {'dep': rng.choice(['has', 'falsy', 'prop'] if f['has'] else ['not', 'missing']), 'thr': rng.choice([0, 1.5, -2]),
                'getter': rng.random() < 0.3, 'zero': rng.random() < 0.3, 'idx': rng.choice([0, 0, 0, 1, 2, 3, 4])}
    if k == 'nodes':
        return {'un': rng.randint(0, 3), 'ops': rng.sample(OPS, 3)}
    if k == 'owner':
        free = [x for x in range(1, N + 1) if x not in f['nodes']]
        return {'via': rng.choice(['attr', 'set', 'dict']), 'prev': rng.choice([0] + free)}
    if k == 'custom':
        return {'style': rng.randint(0, 11), 'kw': rng.random() < 0.3, 'via': rng.choice(['modify', 'sched'] if f['own'] else ['modify'])}
    if k == 'graph':
        es = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3) if a < b]
        return {'edges': rng.sample(es, rng.randint(0, 3)), 'pos': rng.random() < 0.5}
    if k == 'alone':
        return {'eid': rng.random() < 0.4, 'none': rng.random() < 0.3,
                'wrap': rng.choice(['', '', '', 'All', 'Any', 'Not', 'deep'])}
    if k == 'combined':
        return {'none': rng.random() < 0.5}
    if k == 'finished':
        return {'eid': rng.choice(['', 'x']), 'none': rng.random() < 0.3}
    if k == 'own':
        return {'via': rng.choice(['attr', 'set', 'dict', 'sched']),
                'wrap': rng.choice(['', '', '', 'All', 'Any', 'Not', 'NWhen', 'deep'])}
    return {}


def names(rng, n=N):
    """nodes that are no collections of nodes"""
    ds = values.gen_nodes(rng, n, rng.choice(['obj', 'str', 'int', 'eq', 'eq']))
    if ds[0][0] == 'str' and rng.random() < 0.5:
        ds[0], ds[1] = ['str', 'ab'], ['str', 'a']
        ds[2:] = [['str', x] for x in ['b', ''][:n - 2]]
    return ds


def f_mix(rng, sid):
    scn = {'kind': 'forms', 'nodes': names(rng), 'ops': []}
    for _ in range(8):
        f = rng.choice(MAKE)(rng)
        scn['ops'].append({'form': f, 'opt': opts(rng, f)})
    return scn


def replays(forms, rng):
    out = []
    forms = sorted(forms, key=repr)
    rng.shuffle(forms)
    for k in range(0, len(forms), 8):
        out.append({'kind': 'forms', 'id': len(out), 'nodes': names(rng),
                    'ops': [{'form': f, 'opt': opts(rng, f)} for f in forms[k:k + 8]]})
    return out

"""Small worlds of several schedulers made of one caller's objects (spec/TwinModel.tla)
and the scenarios to replay what TLC lets them do."""
import json
import os
import tempfile

import gen
import tlc
from schedworlds import ALWAYS, GRAPHS, NEVER, AHR, DEFAULT, TICKS, calls, every, passes
from values import gen_nodes

ONEPASS = passes('AfterNPasses', 1)


def world(r):
    g = r.choice(GRAPHS)
    n = len(g)
    pool = [DEFAULT, DEFAULT, ALWAYS, every(1, 2), calls('AfterNCalls', 1, r.choice([1, 2]), r.choice([1, 2, 3])), calls('AtNCalls', 2, 1, 2),
            calls('BeforeNCalls', 1, 2, r.choice([2, 4])), passes('EveryNPasses', 2), passes('AtPass', 1), {'op': 'JustRan', 'd': [1]}]
    cs = [r.choice(pool) for _ in g]
    alt = r.choice([DEFAULT, ALWAYS, NEVER, passes('AtPass', 0)])
    k = r.choice([2, 2, 2, 3])

    def edge():
        return sorted(r.sample(range(1, n + 1), 2))
    a, b = edge()
    ops = [['make', w] for w in range(1, k + 1)] + [['st', w] for w in range(1, k + 1)] + [['mu', 0, *edge()]]
    mine = [['ed', 1, a, b], ['co', 1, r.randint(1, n), 1], ['tm', 1, 1], ['dr', 1], ['kill', 1], ['sq', 1], ['rt', 1]]
    ops += r.sample(mine, 2)
    if k == 2 and r.random() < 0.6:
        # the other one does the same: equal programs
        ops.append([ops[-1][0], 2, *ops[-1][2:]])
    pairs = {(s, x + 1) for x, ss in enumerate(g) for s in ss}
    for c, o in [(c, j + 1) for j, c in enumerate(cs)]:
        if c['op'] == 'EveryNCalls':
            pairs.add((c['d'][0], o))
    for o in ops:
        if o[0] in ('ed', 'mu'):
            pairs.add((o[2], o[3]))
    return {'graph': g, 'conds': cs, 'te': r.choice([AHR, passes('AfterNPasses', 2)]), 'ts': NEVER, 'mode': r.choice(['std'] * 4 + ['exact']),
            'dflt': TICKS, 'k': k, 'alts': [alt], 'terms': [r.choice([ONEPASS, passes('AfterNPasses', 3), calls('AfterNCalls', 1, 2, 2)])],
            'pairs': sorted(map(list, pairs)), 'ops': ops, 'depth': 6 if k == 2 else 5}


def explore(ws, workers=8, timeout=600, heap='6g'):
    d = tempfile.mkdtemp(prefix='world_')
    f = os.path.join(d, 'w.json')
    with open(f, 'w') as fh:
        json.dump(ws, fh)
    r = tlc.run_tlc('TwinModel', env={'WORLD_FILE': f}, workers=workers, timeout=timeout, heap=heap)
    os.remove(f)
    os.rmdir(d)
    if r['rc'] != 0:
        raise tlc.TLCError('TwinModel: ' + r['out'][-6000:])
    hs = {}
    for v in tlc.tuples(r['out'], 'HIST'):
        hs.setdefault(v[1] - 1, set()).add(v[2])
    return {k: [json.loads(x) for x in sorted(v)] for k, v in hs.items()}, r


def scenario(rng, w, hist):
    n, K = len(w['graph']), w['k']
    ctx, eid0 = gen.gen_ctx(rng, 1)
    order = list(range(n))
    rng.shuffle(order)
    given = {'graph': [list(s) for s in w['graph']], 'conds': list(w['conds']), 'te': w['te'], 'ts': w['ts']}
    how, form, tkey = rng.choice(['dict', 'set']), rng.choice(['dict', 'list', 'digraph', 'sparse']), rng.randint(0, 3)
    share = {'graph': 'a', 'term': 'a', 'conds' if rng.random() < 0.7 else 'condobjs': 'a'}
    # what is left of the objects when nobody mutates them does not matter
    if any(o[0] == 'mu' for o in hist):
        share.pop('condobjs', None)
        share['conds'] = 'a'
        # a node that is only mentioned as a dependency would vanish with its edge
        form = rng.choice(['dict', 'list', 'digraph'])

    def made():
        return {'graph': [list(s) for s in given['graph']], 'conds': list(given['conds']), 'te': given['te'], 'ts': given['ts'],
                'order': order, 'form': form, 'how': how, 'tkey': tkey, 'term0': True, 'eid0': eid0, 'dflt': TICKS, 'mode0': w['mode'],
                'share': dict(share)}
    halves = {}
    tops, edges = [], {}

    def do(half, **o):
        tops.append({**o, 'w': half - 1})
    for o in hist:
        k = o[1]
        if o[0] == 'make':
            halves[k] = made()
            edges[k] = {(s, r + 1) for r, ss in enumerate(given['graph']) for s in ss}
            do(k, o='make')
        elif o[0] == 'kill':
            do(k, o='kill')
        elif o[0] == 'mu':
            a, b = o[2], o[3]
            x = given['graph'][b - 1]
            (x.remove if a in x else x.append)(a)
            given['conds'][a - 1] = NEVER
            given['te'], given['ts'] = ONEPASS, NEVER
            # in the eyes of one that exists
            do(next(iter(halves)), o='mutate', a=a, b=b, k=1)
        elif o[0] == 'st':
            do(k, o='step', x=1, tkey=rng.randint(0, 3), **({'eid': 'default'} if rng.random() < 0.4 else {}))
        elif o[0] == 'dr':
            do(k, o='drop', x=1)
        elif o[0] == 'sq':
            do(k, o='seqend', x=1, eid=rng.choice(['default', 'given']))
        elif o[0] == 'ed':
            e = (o[2], o[3])
            do(k, o='rmedge' if e in edges[k] else 'addedge', a=e[0], b=e[1], mid=True, blind=rng.random() < 0.5)
            edges[k] ^= {e}
        elif o[0] == 'co':
            c = w['alts'][o[3] - 1]
            do(k, **({'o': 'uncond', 'n': o[2]} if c['op'] == 'Default' else {'o': 'cond', 'n': o[2], 'c': c}))
        elif o[0] == 'tm':
            do(k, o='term', tkey=rng.randint(0, 3), te=w['terms'][o[2] - 1])
        elif o[0] == 'rt':
            do(k, o='reterm')
    for k in range(1, K + 1):
        halves.setdefault(k, made())
    return {'kind': 'twin', 'nodes': gen_nodes(rng, n), 'ctx': ctx, 'tick_us': [500, 3], 'fl': [], 'pv': [], 'shapes': [],
            'halves': [halves[k] for k in range(1, K + 1)], 'tops': tops}

"""Small worlds all short histories of which TLC generates (StructModel) for
the implementation to replay."""
import json
import os
import random
import tempfile

import tlc
from gengsc import default_cond
from genstruct import struct_cond


def basic(o):
    return {'cls': 'basic', 'o': o, 'd': []}


def custom(o, add=(), dele=()):
    return {'cls': 'Custom', 'o': o, 'd': [], 'add': [list(e) for e in add], 'del': [list(e) for e in dele]}


def opts(c, **kw):
    c.update(kw)
    return c


RAISE = {'cls': 'Raise', 'o': 1, 'd': []}


def world(graph, conds, extra=(), at=None):
    """every condition can be added at its owner, and removed; owners can be asked to drop what they have"""
    ops = []
    for k, c in enumerate(conds, 1):
        ops += [['add', c['o'], k], ['rmc', 0, k]]
        if c['cls'] == 'basic' or k == 1:
            ops.append(['assign', c['o'], k])
        if c['cls'] not in ('basic', 'Custom', 'Raise') and c['d'][0] <= len(graph) and k == len(conds):
            ops.append(['add', c['d'][0], k])      # refused: the owner is a subject
    ops += [['rmo', o, 0] for o in sorted({c['o'] for c in conds})]
    ops += [list(e) for e in extra]
    return {'n': len(graph), 'graph': graph, 'conds': conds, 'ops': ops}


LOOK, RUN = ['look', 0, 0], ['run', 0, 0]
CHAIN = [[], [1], [2]]
FORK = [[], [1], [1]]


def worlds():
    return [
        # placing nodes, in an order that matters
        world(CHAIN, [default_cond('Before', 3, [1]), default_cond('With', 2, [3]), default_cond('Remove', 2, [1])], [LOOK]),
        # cycles come and go
        world(CHAIN, [default_cond('Add', 3, [1]), default_cond('Remove', 3, [2]), custom(2, [(3, 1), (2, 1)])], [RUN]),
        # conditions that cannot be applied, next to ones that can
        world(FORK, [default_cond('After', 1, [2]), RAISE, default_cond('Add', 2, [4])], [LOOK]),
        # the two sides disagree
        world([[], [], [1, 2]], [default_cond('Add', 1, [2]), opts(default_cond('Before', 1, [2]), os='DISCARD', ss=['UNION'],
                                                                    ign=False, style=0), basic(1)], [RUN]),
        # basic and structure conditions of the same owners
        world([[], [1]], [basic(1), basic(1), default_cond('Before', 2, [1])], [RUN]),
        world([[], [1]], [basic(2), default_cond('Remove', 2, [1]), default_cond('After', 1, [2])], [LOOK]),
        # the same again and again
        world([[], [1], []], [custom(1, [(1, 3)]), custom(1, [], [(1, 2)]), default_cond('Add', 3, [2])], [LOOK]),
    ]


def random_world(rng):
    n = rng.choice([2, 3, 3])
    g = [sorted(rng.sample(range(1, k + 1), rng.randint(0, min(k, 2)))) for k in range(n)]
    P = {'classes': ['Before', 'After', 'With', 'Add', 'Remove', 'Custom', 'Raise'], 'foreign': 0.08, 'ops': 0.3,
         'conflict': 0.2, 'noprune': 0.2, 'selfedge': 0.1}
    conds = [basic(rng.randint(1, n)) if rng.random() < 0.25 else struct_cond(rng, n, P) for _ in range(3)]
    return world(g, conds, [rng.choice([LOOK, RUN])])


def histories(w, depth, timeout=120):
    """TLC checks the model of the world and returns all its histories"""
    d = tempfile.mkdtemp(prefix='world_')
    f = os.path.join(d, 'w.json')
    with open(f, 'w') as fh:
        json.dump(dict(w, depth=depth), fh)
    r = tlc.run_tlc('StructModel', env={'WORLD_FILE': f}, workers=4, timeout=timeout, heap='2g')
    os.remove(f)
    os.rmdir(d)
    if r['rc'] != 0:
        raise tlc.TLCError('StructModel: ' + r['out'][-4000:])
    return [json.loads(v[1]) for v in tlc.tuples(r['out'], 'HIST')], r


def scenario(rng, w, hist):
    from values import gen_nodes
    n = w['n']
    ops = []
    for name, o, k in hist:
        lvl = 'set' if rng.random() < 0.25 else 'sched'
        if name == 'add':
            ops.append({'o': 'add', 'k': k, 'at': o, 'via': 'edge' if rng.random() < 0.3 else lvl})
        elif name == 'assign':
            ops.append({'o': 'assign', 'k': k, 'at': o})
        elif name == 'rmc':
            ops.append({'o': 'rmc', 'k': k, 'via': lvl})
        elif name == 'rmo':
            ops.append({'o': 'rmo', 'at': o, 'via': lvl})
        elif name == 'look':
            ops.append({'o': 'graph', 'seq': rng.sample(range(4), 4)})
        elif name == 'run':
            ops.append({'o': 'run'})
    ops += [{'o': 'obs'}, {'o': 'graph', 'seq': rng.sample(range(4), 4)}]
    if rng.random() < 0.4:
        ops.append({'o': 'run'})
    return {'kind': 'struct', 'n': n, 'nodes': gen_nodes(rng, n + 1), 'graph': w['graph'], 'order': list(range(n)),
            'form': rng.choice(['dict', 'sparse', 'list', 'nx']), 'conds': w['conds'], 'ops': ops, 'ctor': None,
            'ctorform': 'dict', 'exact': False}


def scenarios(seed, depth, more=0):
    """(scenarios, states, worlds)"""
    from concurrent.futures import ThreadPoolExecutor
    ws = worlds() + [random_world(random.Random(f'world/{seed}/{j}')) for j in range(more)]
    out = []
    st = 0
    with ThreadPoolExecutor(4) as ex:
        for j, (hs, r) in enumerate(ex.map(lambda w: histories(w, depth), ws)):
            st += r['distinct']
            rng = random.Random(f'replay/{seed}/{j}')
            out += [scenario(rng, ws[j], h) for h in hs]
    for k, s in enumerate(out):
        s['id'] = k
    return out, st, len(ws)

"""Random dictionaries, calls of the graph helpers and changes in between."""
import values

KINDS = ['set', 'set', 'set', 'frozenset', 'list', 'tuple', 'dict', 'attrs', 'keys', 'deque']
FNS = ['receivers', 'ancestors', 'descendants', 'cycles', 'clone', 'di', 'disub', 'back', 'backless', 'sched', 'schedx']


def graph(rng, n, acyclic, uniform):
    keys = list(range(1, n + 1))
    rng.shuffle(keys)
    order = list(range(1, n + 1))
    rng.shuffle(order)
    p = rng.choice([0.15, 0.3, 0.5, 0.8])
    if rng.random() < 0.3:
        keys = keys[:rng.randint(0, n)]
    g = []
    for k in keys:
        xs = [x for x in order if (order.index(x) < order.index(k) or not acyclic) and rng.random() < p]
        if not acyclic and rng.random() < 0.8:
            xs = [x for x in xs if x != k]
        c = uniform or rng.choice(KINDS)
        if c == 'list' and xs and rng.random() < 0.2:
            xs = xs + [rng.choice(xs)]
        g.append([k, c, xs])
    return g


def u_calls(rng, sid):
    n = rng.randint(1, 5)
    wide = rng.random() < 0.02
    if wide:
        n = rng.randint(8, 14)
    nodes = values.gen_nodes(rng, n)
    if rng.random() < 0.5:
        # nodes of equal hash
        h = rng.randrange(8)
        for d in nodes:
            if d[0] in ('obj', 'eq'):
                d[1][1] = h
    acyclic = rng.random() < 0.6
    ops = []
    nslots = rng.choice([1, 1, 2])
    for d in range(1, nslots + 1):
        uniform = rng.choice([None, None, 'set', 'list'])
        ops.append({'e': 'new', 'd': d, 'type': rng.choice(['dict', 'dict', 'ordered', 'default']),
                    'g': graph(rng, n, acyclic, uniform)})
    if nslots == 2 and rng.random() < 0.5:
        # the same graph again
        ops[1]['g'] = [[k, rng.choice([c, 'set']), list(xs)] for k, c, xs in ops[0]['g']]
    fns = rng.sample(FNS, rng.randint(1, 4))
    if wide and not acyclic:
        # too many of them
        fns = [f for f in fns if f != 'cycles'] or ['receivers']
    if rng.random() < 0.2:
        # dependencies given as a node
        for o in ops:
            for e in o['g']:
                if len(e[2]) == 1 and nodes[e[2][0] - 1][0] in ('obj', 'str', 'int', 'eq') and nodes[e[2][0] - 1][1] != '':
                    e[1] = 'one'
        fns = [f for f in fns if f not in ('di', 'disub')] or ['receivers']
    calls = 0
    for _ in range(rng.randint(4, 14)):
        d = rng.randint(1, nslots)
        r = rng.random()
        if r < 0.55:
            ops.append({'e': 'call', 'd': d, 'fn': rng.choice(fns)})
            calls += 1
        elif r < 0.8:
            how = rng.choice(['add', 'add', 'drop', 'drop', 'addkey', 'dropkey'])
            x, s = rng.randint(1, n), rng.randint(1, n)
            ops.append({'e': 'mut', 'd': d, 'how': how, 'x': x, 's': s})
            if rng.random() < 0.4 and how in ('add', 'drop'):
                # and the reverse elsewhere, so that only the place differs
                ops.append({'e': 'mut', 'd': d, 'how': 'drop' if how == 'add' else 'add', 'x': x, 's': rng.randint(1, n)})
        elif r < 0.95 and calls:
            ops.append({'e': 'spoil', 'n': rng.randint(max(1, calls - 2), calls), 'x': rng.randint(1, n)})
        else:
            ops.append({'e': 'look'})
    return {'kind': 'utils', 'nodes': nodes, 'ops': ops}


def replays(dicts, rng):
    out = []
    for d in sorted(dicts, key=repr):
        keys = list(d['keys'])
        rng.shuffle(keys)
        deps = {k: list(v) for k, v in d['deps']}
        fns = list(FNS)
        rng.shuffle(fns)
        ops = [{'e': 'new', 'd': 1, 'type': 'dict', 'g': [[k, rng.choice(KINDS), deps[k]] for k in keys]}]
        ops += [{'e': 'call', 'd': 1, 'fn': f} for f in fns]
        # spoil everything, and ask again
        ops += [{'e': 'spoil', 'n': n, 'x': rng.randint(1, 3)} for n in range(1, len(fns) + 1)]
        ops += [{'e': 'call', 'd': 1, 'fn': f} for f in rng.sample(fns, 5)]
        out.append({'kind': 'utils', 'id': len(out), 'nodes': values.gen_nodes(rng, 3), 'ops': ops})
    return out

"""Scenarios of several schedulers that share inputs."""
import copy

import gen
from gen import ABS, ALLPOOL, Ctx, NEVER, base, g_abs, gen_graph, graph_ops, interleave, script


def half_ops(rng, scn, c, short):
    """what happens to one of them"""
    scn['ops'] = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        r = rng.random()
        if r < 0.5:
            script(rng, scn, c, runs=rng.choice([1, 2]), cap=rng.choice([3, 6, 9]), p_flip=0.2, p_drop=0.4)
        elif r < 0.6:
            interleave(rng, scn, c, steps=8, p_probe=0)
        elif r < 0.8:
            graph_ops(rng, scn, c, rng.choice([1, 1, 2]), cyc=rng.random() < 0.3)
        elif r < 0.9:
            k = rng.randint(1, c.n)
            scn['ops'].append({'o': 'cond', 'n': k, 'c': c.cond(k, ['Always', 'Never', 'AtPass', 'AfterNCalls', 'EveryNCalls', 'BeforeNCalls'], 0)}
                              if rng.random() < 0.6 else {'o': 'uncond', 'n': k})
        elif r < 0.95:
            scn['ops'].append(rng.choice([{'o': 'reterm'},
                                          {'o': 'term', 'te': c.cond(0, ['AfterNPasses', 'AfterNCalls'], 0, term=True)},
                                          {'o': 'term', 'ts': c.cond(0, ['AfterNPasses', 'AfterNCalls'], 0, term=True)}]))
        else:
            scn['ops'].append({'o': 'mode', 'm': rng.choice(['std', 'exact'])})
    ops, scn['ops'] = scn['ops'], []
    return ops


def g_twins(rng, sid):
    if rng.random() < 0.25:
        scn = g_abs(rng, sid)
        n = len(scn['nodes'])
        c = Ctx(rng, n)
    else:
        n = rng.choice([1, 2, 2, 3, 3, 4])
        scn, c = base(rng, sid, n, ALLPOOL, kind='obj' if rng.random() < 0.3 else None, ctxs=rng.choice([1, 1, 2]))
    scn['ops'] = []
    top = {'id': sid, 'kind': 'twin'}
    for k in ('nodes', 'ctx', 'tick_us', 'fl', 'pv', 'shapes'):
        top[k] = scn.pop(k)
    K = rng.choice([2, 2, 2, 3, 4])
    halves = []
    pg, pc, pt = rng.random() < 0.7, rng.random(), rng.random() < 0.6
    proto = {k: scn[k] for k in ('graph', 'conds', 'order', 'form', 'how', 'te', 'ts', 'tkey', 'term0', 'eid0', 'dflt')}
    for k in ('mode0', 'dflt_str'):
        if k in scn:
            proto[k] = scn[k]
    if rng.random() < 0.35 and n > 1:
        proto['gscs'] = []
        for _ in range(rng.randint(1, 2)):
            a, b = rng.sample(range(1, n + 1), 2)
            proto['gscs'].append([a, rng.choice(['BeforeNode', 'AfterNode']), [b]])
        # nothing that closes a circle here
        perm = list(range(1, n + 1))
        rng.shuffle(perm)
        pos = {v: k for k, v in enumerate(perm)}
        proto['gscs'] = [[min((a, d[0]), key=pos.get), 'BeforeNode', [max((a, d[0]), key=pos.get)]]
                         if cls == 'BeforeNode' else
                         [max((a, d[0]), key=pos.get), 'AfterNode', [min((a, d[0]), key=pos.get)]]
                         for a, cls, d in proto['gscs']]
        proto['graph'] = [sorted(s for s in ss if pos[s] < pos[r + 1]) for r, ss in enumerate(proto['graph'])]
    ops = []
    for k in range(K):
        h = copy.deepcopy(proto)
        h['share'] = {}
        r = rng.random()
        if r < 0.2 and 'gscs' not in h:
            h['graph'] = gen_graph(rng, n)        # another graph over the same nodes
        elif pg:
            h['share']['graph'] = 'a'
        if rng.random() < 0.15:
            h['conds'] = [gen.DEFAULT if rng.random() < 0.3 else c.cond(j + 1, ALLPOOL, 1) for j in range(n)]
            h.pop('gscs', None)
        elif pc < 0.5:
            h['share']['conds'] = 'a'
        elif pc < 0.75:
            h['share']['condobjs'] = 'a'
            h['how'] = rng.choice(['dict', 'set', 'add', 'addset'])
            if 'gscs' in h and h['how'] == 'add':
                h['how'] = 'dict'
        if 'gscs' in h and h['how'] == 'add':
            h['how'] = 'addset'
        if pt:
            h['share']['term'] = 'a'
        if rng.random() < 0.1:
            h['mode0'] = rng.choice(['std', 'exact'])
        halves.append(h)
        tmp = {'ops': [], 'nodes': top['nodes'], 'ctx': top['ctx'], 'graph': h['graph'], 'probes': [], **{}}
        ops.append([{'o': 'make'}] + half_ops(rng, tmp, c, K > 2))
        if rng.random() < 0.15:
            ops[-1].append({'o': 'kill'})
    # the shared container has the form of whoever makes it
    hows = {h['how'] for h in halves if 'conds' in h['share']}
    if hows:
        for h in halves:
            if 'conds' in h['share']:
                h['how'] = proto['how'] if not (proto.get('gscs') and proto['how'] == 'add') else 'addset'
    tops = []
    left = list(range(K))
    first = rng.random() < 0.5
    if first:
        for k in left:
            tops.append({**ops[k].pop(0), 'w': k})
    burst = rng.choice([1, 1, 3, 6])
    while left:
        k = rng.choice(left)
        for _ in range(rng.randint(1, burst)):
            if ops[k]:
                tops.append({**ops[k].pop(0), 'w': k})
        if not ops[k]:
            left.remove(k)
    if rng.random() < 0.3 and n > 1:
        last = max(i for i, o in enumerate(tops) if o['o'] == 'make')
        a, b = rng.sample(range(1, n + 1), 2)
        tops.insert(rng.randint(last + 1, len(tops)), {'o': 'mutate', 'a': a, 'b': b, 'k': rng.randint(0, 5), 'w': 0})
    top['halves'] = halves
    top['tops'] = tops
    return top

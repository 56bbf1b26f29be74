"""Small worlds in which TLC lets a user do everything within a number of
operations (spec/Sched.tla), and the scenarios to replay it."""
import json
import os
import random
import tempfile

import gen
import tlc
from values import gen_nodes

AHR, NEVER, DEFAULT, ALWAYS = gen.AHR, gen.NEVER, gen.DEFAULT, {'op': 'Always'}
TICKS = 6         # of a millisecond
GRAPHS = [[[], [1], [2]], [[], [1], [1]], [[], [], [1, 2]], [[], [1], [1, 2]], [[], [1], []], [[], [], []], [[], []], [[], [1]]]


def every(d, n):
    return {'op': 'EveryNCalls', 'd': [d], 'n': n}


def calls(op, d, n, ts=2):
    return {'op': op, 'd': [d], 'n': n, 'ts': ts}


def passes(op, n, ts=2):
    return {'op': op, 'n': n, 'ts': ts}


def any_(*c):
    return {'op': 'Any', 'c': list(c), 'style': 0}


def all_(*c):
    return {'op': 'All', 'c': list(c), 'style': 0}


def not_(c):
    return {'op': 'Not', 'c': [c]}


def term(te=None, ts=None):
    return {'te': [te] if te else [], 'ts': [ts] if ts else []}


def interval(rep=0, st=-1, en=-1, si=True, ei=True):
    f = TICKS
    return {'op': 'TimeInterval', 'rep': rep * f, 'st': st * f if st >= 0 else -1, 'en': en * f if en >= 0 else -1,
            'si': si, 'ei': ei, 'style': 0}


def until(t, inc=True):
    return {'op': 'TimeTermination', 't': t * TICKS, 'inc': inc, 'style': 0}


def world(graph, conds, ops, depth, cap=5, te=AHR, ts=NEVER, mode='std', nctx=1, terms=(), alts=(), fl=(), pv=(), objs=False, orders=False):
    pairs, ids = set(), set()
    n = len(graph)
    for r, ss in enumerate(graph):
        pairs |= {(s, r + 1) for s in ss}
    for o in ops:
        if o[0] in ('ed', 'me'):
            pairs.add((o[1], o[2]))

    def walk(c, o):
        if c['op'] == 'EveryNCalls':
            pairs.add((c['d'][0], o))
        if c['op'] == 'NWhen':
            ids.add(c['id'])
        for k in c.get('c', []):
            walk(k, o)
    for k, c in enumerate(conds):
        walk(c, k + 1)
    for c in alts:
        for k in range(n):
            walk(c, k + 1)
    return {'graph': graph, 'conds': conds, 'ops': ops, 'depth': depth, 'cap': cap, 'te': te, 'ts': ts, 'mode': mode,
            'dflt': TICKS, 'nctx': nctx, 'terms': list(terms), 'alts': list(alts), 'fl': list(fl), 'pv': list(pv),
            'pairs': sorted(map(list, pairs)), 'ids': sorted(ids), 'objs': objs, 'orders': orders}


GO, ST, DR, SQ, SK = ['go', 1, 0], ['st', 1, 0], ['dr', 1], ['sq', 1], ['sk', 1, 0]


def w_order(r):
    """C01, C02, C03"""
    if r.random() < 0.35:
        return w_mid(r)
    g = r.choice(GRAPHS[:6])
    pool = [DEFAULT, DEFAULT, ALWAYS, every(1, 2), every(2, 1), every(3, 1), calls('AfterNCalls', 1, 1), calls('AtNCalls', 2, 1), calls('AtNCalls', 3, 0),
            passes('EveryNPasses', 2), {'op': 'JustRan', 'd': [2]}, calls('BeforeNCalls', 3, 1), passes('AtPass', 1)]
    cs = [r.choice(pool) for _ in g]
    a, b = r.sample([1, 2, 3], 2)
    deep = r.random() < 0.5
    return world(g, cs, [GO, ST, ['ed', a, b]], 3 if deep else 2, orders=not deep, cap=5 if deep else 3, te=r.choice([AHR, passes('AfterNPasses', 2)]))


def w_mid(r):
    """C01: edges come and go while runs are suspended"""
    g = r.choice(GRAPHS[:6])
    cs = [r.choice([ALWAYS, ALWAYS, ALWAYS, passes('EveryNPasses', 2), calls('AfterNCalls', 1, 1)]) for _ in g]
    two = r.random() < 0.3
    ops = [ST, ['me', *sorted(r.sample([1, 2, 3], 2))], ['me', *sorted(r.sample([1, 2, 3], 2))]] + ([['st', 2, 0]] if two else [])
    return world(g, cs, ops, 5, te=passes('AfterNPasses', 3), nctx=2 if two else 1)


def w_fix(r):
    """C02: members of one consideration set speak about each other"""
    g = r.choice([[[], [], []], [[], [], [], []], [[], [], [1]], [[], [1], [1]]])
    n = len(g)
    ops = ['BeforeNCalls', 'AtNCalls', 'AfterNCalls', 'AfterCall']

    def c():
        d = r.randint(1, n)
        return r.choice([calls(r.choice(ops), d, r.choice([0, 1, 1, 2]), r.choice([0, 1, 2])), every(d, r.choice([1, 2])),
                         {'op': 'JustRan', 'd': [d]}, {'op': 'AllHaveRun', 'd': [d], 'ts': r.choice([1, 2])},
                         ALWAYS, NEVER, passes('AtPass', 1)])
    cs = [r.choice([c, c, c, lambda: not_(c()), lambda: any_(c(), c()), lambda: all_(c(), c())])() for _ in g]
    return world(g, cs, [GO, ST], 1 if n == 4 else 2, cap=3, te=passes('AfterNPasses', 2 if n == 4 else 3), orders=True)


def w_default(r):
    """C03"""
    g = r.choice(GRAPHS)
    n = len(g)
    cs = [DEFAULT] * n
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        cs[r.randrange(n)] = r.choice([ALWAYS, passes('EveryNPasses', 2), passes('AtPass', 1), every(1, 2)])
    a, b = r.sample(range(1, n + 1), 2)
    ops = [GO, ST, ['ed', a, b], ['co', r.randint(1, n), 1]]
    if r.random() < 0.4:
        ops.append(['sq', 1])
    return world(g, cs, ops, 3, cap=6, te=r.choice([AHR, AHR, passes('AfterNPasses', 3)]),
                 alts=[r.choice([DEFAULT, ALWAYS, passes('AtPass', 0)])])


def w_calls(r):
    """C04"""
    n = r.choice([2, 3])
    g = r.choice([x for x in GRAPHS if len(x) == n])

    def c(o):
        d, ts, k = r.randint(1, n), r.choice([0, 1, 2, 2, 3, 4]), r.choice([0, 1, 1, 2, 3])
        return r.choice([lambda: calls(r.choice(['BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls']), d, k, ts)] * 4 + [
            lambda: every(d, r.choice([1, 2, 3])), lambda: {'op': 'JustRan', 'd': [d]},
            lambda: {'op': 'AfterNCallsCombined', 'd': r.sample(range(1, n + 1), r.randint(1, n)), 'n': r.choice([1, 2, 3]), 'ts': max(ts, 1)},
            lambda: {'op': 'AllHaveRun', 'd': r.choice([[], [d]]), 'ts': max(ts, 1)}])()
    cs = [ALWAYS if r.random() < 0.25 else c(k + 1) for k in range(n)]
    return world(g, cs, [GO, ST, DR, SQ], 4, cap=3, te=r.choice([AHR, passes('AfterNPasses', 2)]))


def w_times(r):
    """C05"""
    n = r.choice([1, 2])
    g = [[]] if n == 1 else r.choice([[[], []], [[], [1]]])

    def c():
        op = r.choice(gen.TIMES)
        a = {'op': op}
        if 'ConsiderationSet' in op:
            a.update(n=r.choice([0, 1, 2, 3]), ts=r.choice([2, 3, 4]))
        elif 'Pass' in op:
            a.update(n=r.choice([1, 1, 2, 3]), ts=r.choice([2, 3, 4]))
        elif op == 'AtEnvironmentStateUpdateNStart' or ('EnvironmentStateUpdate' in op and not op.endswith('Start')):
            a.update(n=r.choice([0, 1, 1, 2]), ts=r.choice([3, 4]))
        elif 'EnvironmentSequence' in op and not op == 'AtEnvironmentSequenceStart':
            a.update(n=r.choice([0, 1, 1, 2]))
        return a
    cs = [c() for _ in g]
    if r.random() < 0.4:
        cs[0] = ALWAYS
    return world(g, cs, [GO, ST, DR, SQ, SK], 4, cap=3, te=passes(r.choice(['AfterNPasses', 'AfterPass', 'AtPass']), r.choice([1, 2])))


def w_composite(r):
    """C06"""
    n = r.choice([1, 2])
    g = [[]] if n == 1 else r.choice([[[], []], [[], [1]]])
    ids = [0]

    def leaf():
        return r.choice([lambda: {'op': r.choice(['While', 'WhileNot']), 'f': r.randint(1, 2), 'style': r.randint(0, 3)},
                         lambda: {'op': 'WhenFinished', 'd': [r.randint(1, n)]},
                         lambda: {'op': r.choice(['WhenFinishedAny', 'WhenFinishedAll']), 'd': r.choice([[], [r.randint(1, n)]])},
                         lambda: {'op': 'Threshold', 'p': 1, 'thr': 4, 'cmp': r.choice(['<', '<=', '>', '>=', '==', '!=']), 'atol': 0, 'rtol': 0, 'style': 0},
                         lambda: calls('AfterNCalls', r.randint(1, n), 1), lambda: passes('EveryNPasses', 2)])()

    def c(d, top):
        k = r.random()
        if d == 0 or k < 0.25:
            return leaf()
        if k < 0.45:
            return all_(*[c(d - 1, False) for _ in range(2)])
        if k < 0.65:
            return any_(*[c(d - 1, False) for _ in range(2)])
        if k < 0.8 or not top:
            return not_(c(d - 1, False))
        ids[0] += 1
        return {'op': 'NWhen', 'id': ids[0], 'n': r.choice([1, 2]), 'c': [c(d - 1, True)]}
    cs = [c(2, True) for _ in g]
    return world(g, cs, [GO, ST, ['fl', 1], ['fn', 1, 1], ['pv', 1, 4], ['pv', 1, 8]], 3, cap=3, te=passes('AfterNPasses', 2),
                 fl=[r.random() < .5, r.random() < .5], pv=[0], objs=True)


def w_term(r):
    """C07"""
    g = r.choice(GRAPHS)
    n = len(g)

    def t():
        return r.choice([passes('AfterNPasses', r.choice([1, 2])), passes('AtPass', 1), AHR, NEVER, ALWAYS, calls('AfterNCalls', r.randint(1, n), 2),
                         {'op': 'JustRan', 'd': [r.randint(1, n)]}, {'op': 'AfterNEnvironmentStateUpdates', 'n': 1, 'ts': 3},
                         {'op': 'AfterNConsiderationSetExecutions', 'n': 2, 'ts': 2}, {'op': 'AfterEnvironmentSequence', 'n': 0}])
    cs = [r.choice([DEFAULT, DEFAULT, ALWAYS, passes('EveryNPasses', 2), every(1, 2)]) for _ in g]
    terms = [term(t(), None), term(None, t())] if r.random() < 0.6 else [term(t(), t()), term(None, t())]
    ops = [GO, ['go', 1, 1], ['go', 1, 2], ['tm', r.randint(1, 2)], ['rt']] + ([SQ] if r.random() < 0.5 else [])
    return world(g, cs, ops, 3, cap=4, te=r.choice([AHR, AHR, t()]), ts=r.choice([NEVER, NEVER, t()]), terms=terms)


def w_clock(r):
    """C08, C11"""
    g = r.choice([[[]], [[], [1]], [[], []]])
    cs = [r.choice([DEFAULT, ALWAYS, passes('AtPass', 1), NEVER, passes('EveryNPasses', 2)]) for _ in g]
    return world(g, cs, [GO, ST, DR, SQ, SK], 4, cap=3, te=r.choice([AHR, passes('AfterNPasses', 2)]))


def w_ctx(r):
    """C10"""
    g = r.choice([[[]], [[], [1]], [[], []]])
    n = len(g)
    k = r.randint(1, n)
    pool = [DEFAULT, ALWAYS, every(k, 2), calls('AfterNCalls', k, 2, 3), calls('AtNCalls', k, 1, 4), {'op': 'JustRan', 'd': [k]},
            {'op': 'NWhen', 'id': 1, 'n': 2, 'c': [ALWAYS]}, passes('AtPass', 1, 4), {'op': 'AtEnvironmentStateUpdate', 'n': 1, 'ts': 4},
            {'op': 'WhenFinished', 'd': [k]}]
    cs = [r.choice(pool) for _ in g]
    if sum(c['op'] == 'NWhen' for c in cs) > 1:
        cs[0] = ALWAYS
    ops = [ST, ['st', 2, 0], ['go', 2, 0], r.choice([DR, SQ, GO]), r.choice([['fk', 2, 0], ['fn', 2, k], ['dr', 2], ['sq', 2]])]
    return world(g, cs, ops, 4, cap=3, nctx=2, te=passes('AfterNPasses', 2), objs=any(c['op'] == 'WhenFinished' for c in cs))


def w_carry(r):
    """C11"""
    g = r.choice([[[], [1]], [[], []]])
    ts = r.choice([2, 3, 4])
    cs = [r.choice([ALWAYS, calls('BeforeNCalls', 1, 2, ts)]),
          r.choice([every(1, 2), calls(r.choice(['AfterNCalls', 'AtNCalls', 'BeforeNCalls']), 1, r.choice([2, 3]), ts), {'op': 'JustRan', 'd': [1]}])]
    return world(g, cs, [GO, ST, DR, SQ, SK], 4, cap=3, te=r.choice([AHR, passes('AfterNPasses', 2)]))


def w_cyclic(r):
    """C17"""
    g = r.choice(GRAPHS[:6])
    cs = [r.choice([DEFAULT, DEFAULT, ALWAYS, every(1, 1)]) for _ in g]
    a, b = r.sample([1, 2, 3], 2)
    c, d = r.sample([1, 2, 3], 2)
    return world(g, cs, [GO, ST, DR, ['ed', a, b], ['ed', b, a], ['ed', c, d]], 4, cap=3)


def w_abs(r, mode=None):
    """C18"""
    g = r.choice(GRAPHS + [[[]], [[]]])
    n = len(g)

    def c():
        st = r.choice([-1, -1, 0, 1, 2, 3, 5])
        en = r.choice([-1, -1, 3, 4, 6])
        if st > en >= 0:
            en = -1
        rep = r.choice([0, 1, 2, 2, 3, 4])
        if rep == 0 and st < 0 and en < 0:
            rep = 2
        return interval(rep, st, en, r.random() < 0.6, r.random() < 0.6)
    cs = [c() if r.random() < 0.7 else r.choice([DEFAULT, ALWAYS, every(1, 2), any_(c(), NEVER), not_(c())]) for _ in g]
    te = r.choice([until(r.choice([2, 3, 5]), r.random() < 0.6), until(4), AHR, any_(until(3), calls('AfterNCalls', 1, 2))])
    terms = [term(until(r.choice([1, 6]), r.random() < 0.5)), term(passes('AfterNPasses', 2))]
    return world(g, cs, [GO, ['go', 1, 1], ['go', 1, 2], SQ, ST] if r.random() < 0.6 else [GO, ['st', 1, 2], DR, ['go', 1, 1]], 2,
                 cap=r.choice([6, 10, 14]), te=te, mode=mode or r.choice(['std', 'std', 'exact']), terms=terms)


def w_raise(r):
    """C26: user functions raise"""
    g = r.choice([[[]], [[], []], [[], [1]], [[], [], []], [[], [1], [1]]])
    n = len(g)

    def raising():
        f = {'op': r.choice(['While', 'WhileNot']), 'f': r.randint(1, 2), 'style': r.randint(0, 3)}
        return r.choice([f, f, f, not_(f), any_(f, calls('AfterNCalls', r.randint(1, n), 1)), all_(calls('BeforeNCalls', r.randint(1, n), 2), f),
                         {'op': 'NWhen', 'id': 1, 'n': 2, 'c': [f]}, {'op': 'WhenFinished', 'd': [r.randint(1, n)]},
                         {'op': 'Threshold', 'p': 1, 'thr': 4, 'cmp': '<', 'atol': 0, 'rtol': 0, 'style': r.randint(0, 2)}])

    def other():
        d, ts = r.randint(1, n), r.choice([1, 2, 3, 4])
        return r.choice([ALWAYS, DEFAULT, calls('AfterNCalls', d, 2, ts), calls('AtNCalls', d, 1, ts), calls('BeforeNCalls', d, 2, ts), every(d, 1)])
    cs = [other() for _ in g]
    k = r.randrange(n)
    cs[k] = raising()
    if r.random() < 0.3:
        cs[r.randrange(n)] = raising()
    if sum(c['op'] == 'NWhen' for c in cs) > 1:
        cs[0] = ALWAYS
    te = r.choice([AHR, passes('AfterNPasses', 2), calls('AfterNCalls', 1, 2, 4),
                   any_(passes('AfterNPasses', 2), {'op': 'WhileNot', 'f': 1, 'style': 0})])
    booms = set()
    for c in cs + [te]:
        booms |= gen.touches(c)[0]
    ops = [ST, GO] + [['sb', 1, b] for b in sorted(b for b in booms if b <= 100 + n)[:3]] + r.choice([[], [SQ], [DR]])
    return world(g, cs, ops, 4 if n < 3 else 3, cap=3, te=te, fl=[r.random() < .8, r.random() < .8], pv=[0], objs=True,
                 orders=n == 3 and r.random() < 0.5)


def w_exact(r):
    """C19"""
    if r.random() < 0.35:
        w = w_default(r)
        w.update(mode=r.choice(['std', 'exact', 'exact']), ops=[GO, ST, ['mo']] + [o for o in w['ops'] if o[0] == 'ed'])
        return w
    w = w_abs(r, 'exact')
    a = r.sample(range(1, max(3, len(w['graph']) + 1)), 2)
    ops = [GO, ['go', 1, 1], ['mo']]
    if len(w['graph']) > 1:
        ops.append(['ed', *a])
    w = world(w['graph'], w['conds'], ops, 3, cap=6, te=w['te'], mode='exact', terms=w['terms'])
    return w


WORLDS = {'C01': w_order, 'C02': w_fix, 'C03': w_default, 'C04': w_calls, 'C05': w_times, 'C06': w_composite, 'C07': w_term,
          'C08': w_clock, 'C10': w_ctx, 'C11': w_carry, 'C17': w_cyclic, 'C18': w_abs, 'C19': w_exact,
          'C26': w_raise}


def explore(ws, workers=8, timeout=600, heap='6g'):
    """TLC checks all worlds; returns {world: histories}"""
    d = tempfile.mkdtemp(prefix='world_')
    f = os.path.join(d, 'w.json')
    with open(f, 'w') as fh:
        json.dump(ws, fh)
    r = tlc.run_tlc('Sched', env={'WORLD_FILE': f}, workers=workers, timeout=timeout, heap=heap)
    os.remove(f)
    os.rmdir(d)
    if r['rc'] != 0:
        raise tlc.TLCError('Sched: ' + r['out'][-6000:])
    hs = {}
    for v in tlc.tuples(r['out'], 'HIST'):
        hs.setdefault(v[1] - 1, set()).add(v[2])
    return {k: [json.loads(x) for x in sorted(v)] for k, v in hs.items()}, r


def scenario(rng, w, hist):
    n = len(w['graph'])
    nodes = gen_nodes(rng, n, 'obj' if w['objs'] else None)
    ctx, eid0 = gen.gen_ctx(rng, w['nctx'])
    order = list(range(n))
    rng.shuffle(order)
    ops = []
    edges = {(s, r + 1) for r, ss in enumerate(w['graph']) for s in ss}
    mode, fl, fin = w['mode'], list(w['fl']), {}

    def new(x, k, **kw):
        o = {'o': 'new', 'x': x, 'tkey': rng.randint(0, 3), **kw}
        if x == 1 and rng.random() < 0.4:
            o['eid'] = 'default'
        if k:
            for key in ('te', 'ts'):
                if w['terms'][k - 1][key]:
                    o[key] = w['terms'][k - 1][key][0]
        ops.append(o)
    for o in hist:
        x = o[1] if len(o) > 1 else 1
        if o[0] in ('go', 'sk', 'fk'):
            new(x, o[2], skip=o[0] == 'sk', **({'base': 1} if o[0] == 'fk' else {}))
            ops += [{'o': 'next', 'x': x, 'n': w['cap']}, {'o': 'drop', 'x': x}]
        elif o[0] == 'st':
            new(x, o[2])
            ops[-1]['o'] = 'step'
        elif o[0] == 'sb':
            new(x, 0)
            ops[-1].update(o='step', boom=[o[2]], exc=rng.randint(0, 5))
        elif o[0] == 'dr':
            ops.append({'o': 'drop', 'x': x})
        elif o[0] == 'sq':
            ops.append({'o': 'seqend', 'x': x, 'eid': 'default' if x == 1 and rng.random() < 0.4 else 'given'})
        elif o[0] == 'fl':
            fl[o[1] - 1] = not fl[o[1] - 1]
            ops.append({'o': 'set', 'fl': [[o[1], fl[o[1] - 1]]]})
        elif o[0] == 'pv':
            ops.append({'o': 'set', 'pv': [[o[1], o[2]]]})
        elif o[0] == 'fn':
            v = fin[(o[1], o[2])] = not fin.get((o[1], o[2]), False)
            ops.append({'o': 'set', 'fin': [[o[1], o[2], v]]})
        elif o[0] in ('ed', 'me'):
            e = (o[1], o[2])
            ops.append({'o': 'rmedge' if e in edges else 'addedge', 'a': e[0], 'b': e[1], 'mid': o[0] == 'me',
                        'blind': rng.random() < 0.5})
            edges ^= {e}
        elif o[0] == 'mo':
            mode = 'exact' if mode == 'std' else 'std'
            ops.append({'o': 'mode', 'm': mode})
        elif o[0] == 'co':
            c = w['alts'][o[2] - 1]
            ops.append({'o': 'uncond', 'n': o[1]} if c['op'] == 'Default' else {'o': 'cond', 'n': o[1], 'c': c})
        elif o[0] == 'tm':
            t = w['terms'][o[1] - 1]
            ops.append({'o': 'term', 'tkey': rng.randint(0, 3), **{k: t[k][0] for k in ('te', 'ts') if t[k]}})
        elif o[0] == 'rt':
            ops.append({'o': 'reterm'})
        if rng.random() < 0.3:
            ops.append({'o': 'clk', 'x': rng.randint(1, w['nctx'])})
    for x in range(1, w['nctx'] + 1):
        ops += [{'o': 'clk', 'x': x}, {'o': 'obs', 'x': x}]
    return {'kind': 'sched', 'nodes': nodes, 'graph': w['graph'], 'conds': w['conds'], 'order': order,
            'form': rng.choice(['dict', 'list', 'digraph', 'sparse']), 'how': rng.choice(['dict', 'set', 'add', 'addset']),
            'te': w['te'], 'ts': w['ts'], 'tkey': rng.randint(0, 3), 'term0': True, 'ctx': ctx, 'eid0': eid0,
            'tick_us': [500, 3], 'dflt': TICKS, 'fl': w['fl'], 'pv': w['pv'], 'shapes': ['scalar'] * len(w['pv']),
            'mode0': w['mode'], 'ops': ops, 'probes': []}

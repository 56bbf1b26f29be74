"""Random user functions and ways of calling them."""
NAMES = ['a', 'b', 'c', 'd', 'x', 'y', 'value', 'scheduler', 'execution_id', 'threshold']
FORMS = ['def', 'def', 'lambda', 'method', 'callable', 'same', 'nohash', 'slots', 'static', 'classm', 'partial', 'wraps']


def function(rng):
    names = rng.sample(NAMES, rng.randint(0, 5))
    kinds = sorted((rng.choice(['po', 'pk', 'pk', 'pk', 'ko']) for _ in names), key=['po', 'pk', 'ko'].index)
    ps = []
    opt = False
    for j, (n, k) in enumerate(zip(names, kinds)):
        if k == 'ko':
            o = rng.random() < 0.5
        else:
            opt = opt or rng.random() < 0.35
            o = opt
        if n in ('scheduler', 'execution_id') and k == 'po':
            k = 'po'
        ps.append({'name': n, 'kind': k, 'dflt': 1000 + j, 'opt': o})
    at = next((j for j, p in enumerate(ps) if p['kind'] == 'ko'), len(ps))
    if rng.random() < 0.3:
        ps.insert(at, {'name': 'args', 'kind': 'vp', 'dflt': 0, 'opt': False})
    if rng.random() < 0.35:
        ps.append({'name': 'kwargs', 'kind': 'vk', 'dflt': 0, 'opt': False})
    return {'ps': ps, 'form': rng.choice(FORMS)}


def call(rng, fns):
    k = rng.randrange(len(fns))
    ps = fns[k]['ps']
    pos = [p for p in ps if p['kind'] in ('po', 'pk')]
    need = [p for p in pos if not p['opt']]
    # names that will be filled by position
    m = rng.choice([len(need), len(need), len(pos), rng.randint(0, len(pos) + 2)])
    A = [10 + j for j in range(m)]
    E = []
    if A and rng.random() < 0.3:
        cut = rng.randint(0, len(A))
        A, E = A[:cut], A[cut:]
    names = [p['name'] for p in ps if p['kind'] not in ('vp', 'vk')] + ['foo', 'bar', 'a', 'x', 'z']
    filled = {p['name'] for p in pos[:m]} if rng.random() < 0.8 else set()
    K, X = {}, {}
    for n in names:
        if n in filled or n in ('scheduler', 'execution_id'):
            continue
        want = any(p['name'] == n and not p['opt'] for p in ps)
        if rng.random() < (0.6 if want else 0.2):
            K[n] = 100 + len(K)
        if rng.random() < (0.6 if want else 0.2):
            X[n] = 200 + len(X)
        if want and n not in K and n not in X:
            K[n] = 150
    via = rng.choice(['Condition', 'While', 'WhileNot', 'All', 'Any', 'Not', 'NWhen', 'deep'])
    how = 'sched' if rng.random() < 0.4 else 'direct'
    if via not in ('Condition', 'While', 'WhileNot') or how == 'sched':
        A, E = A + E, []
    if rng.random() < 0.15 and how == 'direct':
        K['scheduler'] = 160
    more = []
    for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
        # evaluated again, with other keywords
        X2 = {}
        j = 300 + 100 * len(more)
        for n in names:
            want = any(p['name'] == n and not p['opt'] for p in ps)
            if n not in filled and n not in ('scheduler', 'execution_id') and (
                    want and n not in K or rng.random() < 0.25):
                X2[n] = j + len(X2)
        more.append({'X': X2, 'eid': rng.random() < 0.5, 'sch': rng.random() < 0.6, 'answer': rng.random() < 0.6})
    return {'more': more, 'f': k, 'A': A, 'K': K, 'E': E, 'X': X, 'via': via, 'how': how, 'eid': rng.random() < 0.5,
            'sch': rng.random() < 0.6, 'answer': rng.random() < 0.6, 'renew': rng.random() < 0.3}


def a_calls(rng, sid):
    fns = [function(rng) for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.4:
        # the same code with another signature under the same name
        f = function(rng)
        f['form'] = fns[0]['form']
        fns.append(f)
    return {'kind': 'args', 'fns': fns, 'ops': [call(rng, fns) for _ in range(rng.randint(5, 10))]}


def replays(calls, rng):
    """scenarios of calls generated by TLC (spec/ArgsModel.tla)"""
    calls = list(calls)
    rng.shuffle(calls)
    out = []
    for at in range(0, len(calls), 25):
        part = calls[at:at + 25]
        fns, ops, known = [], [], {}
        for c in part:
            key = repr(c['ps'])
            if key not in known:
                known[key] = len(fns)
                fns.append({'ps': c['ps'], 'form': rng.choice(FORMS)})
            how = 'sched' if rng.random() < 0.1 else 'direct'
            via = rng.choice(['Condition', 'While', 'WhileNot', 'All', 'Any', 'Not', 'NWhen', 'deep'])
            A, E = c['A'], []
            if via in ('Condition', 'While', 'WhileNot') and how == 'direct' and rng.random() < 0.3:
                A, E = A[:1], A[1:]
            ops.append({'f': known[key], 'A': A, 'K': dict(c['K'] or {}), 'E': E, 'X': dict(c['X'] or {}), 'via': via, 'how': how,
                        'eid': rng.random() < 0.5, 'sch': c['sch'], 'answer': rng.random() < 0.5, 'renew': rng.random() < 0.1})
        out.append({'kind': 'args', 'id': len(out), 'fns': fns, 'ops': ops})
    return out

"""Random time histories and queries."""


def query(rng, via, top):
    if via in ('clock', 'sched') and rng.random() < 0.5:
        b = rng.randint(1, 4)
        o = {'o': 'cq', 'q': rng.randint(0, 3) if rng.random() < 0.15 else rng.randint(0, b - 1), 'b': b}
        if rng.random() < 0.5 and b < 4:
            o['idx'] = rng.choice([0, 0, 1, 1, 2, 3, 4])
        return o
    B = []
    for k in (4, 3, 2, 1, 0):
        p = {4: 0.1, 3: 0.5, 2: 0.6, 1: 0.25, 0: 0.05}[k]
        if rng.random() < p and k < top:
            B.append([k, rng.choice([0, 0, 0, 1, 1, 2, 3])])
        elif k == top and (k != 4 and rng.random() < 0.85 or rng.random() < 0.1):
            B.append([k, 0])
    if top == 4 and rng.random() < 0.1 and not any(b[0] == 4 for b in B):
        B.append([4, 0])
    rng.shuffle(B)
    return {'o': 'q', 'q': rng.choice([0, 0, 1, 1, 2, 3, 4]), 'B': B, 'none': rng.random() < 0.5}


def t_long(rng):
    """numbers that do not fit in a byte"""
    scn = {'kind': 'time', 'via': rng.choice(['tree', 'clock']), 'top': 4, 'depth': 2, 'timed': True, 'ops': [],
           'layers': 1, 'eid': None, 'explicit': False}
    many = rng.choice([0, 1, 2, 2, 3, 3])
    ks = [many] * 258 if many < 2 else [k for _ in range(258) for k in rng.choices([1, 0], k=rng.randint(0, 2)) + [many]]
    scn['ops'] = [{'o': 'inc', 'ks': [3, 2, 1] + ks + [1]}, {'o': 'obs'}]
    for _ in range(12):
        q = query(rng, 'tree', 4)
        for b in q['B']:
            if b[0] == many and rng.random() < 0.8:
                b[1] = rng.randint(254, 259)
        scn['ops'].append(q)
    return scn


def t_tree(rng, sid):
    if rng.random() < 0.004:
        return t_long(rng)
    via = rng.choice(['tree', 'tree', 'clock', 'sched', 'sched'])
    top, depth, timed = 4, 2, True
    if via == 'tree':
        top = rng.choice([4, 4, 4, 4, 3, 2, 1])
        depth = rng.choice([1, 1, 2, 2, 3, 4])
        timed = rng.random() < 0.95
    scn = {'kind': 'time', 'via': via, 'top': top, 'depth': depth, 'timed': timed, 'ops': [],
           'layers': rng.randint(1, 3), 'eid': rng.choice([None, 'x', 3]), 'explicit': rng.random() < 0.2}
    for _ in range(rng.randint(2, 7)):
        if via == 'sched':
            if rng.random() < 0.25:
                scn['ops'].append({'o': 'seq'})
            else:
                scn['ops'].append({'o': 'run', 'passes': rng.randint(1, 3), 'skip': rng.random() < 0.15})
        else:
            scn['ops'].append({'o': 'inc', 'ks': rng.choices(range(top), [6, 4, 3, 2][:top], k=rng.randint(1, 8))})
        for _ in range(rng.randint(0, 4)):
            scn['ops'].append(query(rng, via, top))
        if rng.random() < 0.4 and timed:
            scn['ops'].append({'o': 'obs'})
    for _ in range(8):
        scn['ops'].append(query(rng, via, top))
    if timed:
        scn['ops'].append({'o': 'obs'})
    return scn


def replays(hists, rng):
    """histories generated from TimeTreeModel"""
    out = []
    for k, h in enumerate(hists):
        depth = rng.choice([1, 1, 2, 2, 2, 3])
        via = rng.choice(['tree', 'clock']) if depth == 2 else 'tree'
        m = max(h.count(3), h.count(2))
        cut = rng.randint(0, len(h))
        out.append({'id': k, 'kind': 'time', 'via': via, 'top': 4, 'depth': depth, 'timed': True, 'layers': 1,
                    'ops': [{'o': 'inc', 'ks': h[:cut]}, {'o': 'obs'}, query(rng, via, 4), {'o': 'inc', 'ks': h[cut:]},
                            {'o': 'obs'}, {'o': 'all', 'max': min(m, 3), 'fine': depth < 2 or rng.random() < 0.1}]})
    return out

"""Random histories of time scale aliases."""
FREE = ['TRIAL', 'RUN', 'TIME_STEP', 'EPOCH', 'MY_TRIAL', 'Trial', 'trial', 'X', 'x_', 'STEP', 'TICK_TOCK', 'A1',
        'MY__X', 'PASS_GROUP', 'PASSAGE', 'LIFETIME', 'ENVIRONMENT_SEQUENCE_X', 'Run', 'RUN_', 'FOO', 'Foo_Bar', 'FOO_BAR',
        'ENVIRONMENT', 'UPDATE', 'CLASS', 'IF', 'MY_ENVIRONMENT_STATE_UPDATE_ALIAS']
TAKEN = ['PASS', 'LIFE', 'ENVIRONMENT_SEQUENCE', 'pass_', 'Pass', 'ABSOLUTE', 'absolute_interval', 'N_CALLS', 'CALL', 'get_parent',
         'get_child', 'Life', 'environment_state_update', 'CONSIDERATION_SET_EXECUTION', 'name', 'value']
NAMES = ['CONSIDERATION_SET_EXECUTION', 'PASS', 'ENVIRONMENT_STATE_UPDATE', 'ENVIRONMENT_SEQUENCE', 'LIFE']


def al_hist(rng, sid):
    pool = rng.sample(FREE, rng.randint(2, 5)) + rng.sample(TAKEN, rng.randint(0, 2))
    if rng.random() < 0.5:
        a = rng.choice(pool)
        pool.append(rng.choice([a.lower(), a.upper(), a.title(), a + '_', a + '_' + rng.choice(pool)]))
    pool = list(dict.fromkeys(pool))
    ops = []
    set_before = []
    for _ in range(rng.randint(2, 9)):
        if rng.random() < 0.62:
            n = rng.choice(pool)
            r = rng.random()
            if r < 0.7:
                kind, v = 'scale', rng.randrange(5)
            elif r < 0.8:
                kind, v = 'name', rng.choice(NAMES)
            elif r < 0.9:
                kind, v = 'name', rng.choice(pool)
            else:
                kind, v = 'bad', rng.randrange(7)
            ops.append({'e': 'set', 'name': n, 'kind': kind, 'target': v})
            set_before.append(n)
        else:
            ops.append({'e': 'remove', 'name': rng.choice(set_before or pool) if rng.random() < 0.8 else rng.choice(pool + NAMES)})
    if rng.random() < 0.5:
        rest = list(dict.fromkeys(set_before))
        rng.shuffle(rest)
        ops += [{'e': 'remove', 'name': n} for n in rest]
    return {'kind': 'alias', 'names': sorted(set(pool) | set(NAMES)), 'ops': ops}

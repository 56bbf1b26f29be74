"""Model checking of the specification itself."""
import tlc


def theorem(module, cfg, note, timeout=700, heap='6g', min_states=100):
    """a model all of whose states satisfy the invariants of its configuration"""
    r = tlc.run_tlc(module, cfg, workers=8, timeout=timeout, heap=heap)
    if r['rc'] != 0 or r['distinct'] < min_states:
        # says something about the specification only, not about the implementation
        raise tlc.TLCError(f'{module}/{cfg}: ' + r['out'][-4000:])
    return dict(states=r['states'], distinct=r['distinct'], note=note)


def gsc_dag3(check, tier):
    return theorem('GSCModel', 'GSCModel.cfg',
                   'every outcome of every positioning condition on every DAG of 3 nodes meets the promises')


def gsc_dag4(check, tier):
    return theorem('GSCModel', 'GSCModel4.cfg',
                   'every outcome of every positioning condition on every DAG of 4 nodes meets the promises')


def gsc_cyc(check, tier):
    return theorem('GSCModel', 'GSCModelCyc.cfg',
                   'every outcome with every combination of cleanup options on every directed graph of 3 nodes meets '
                   'the promises')


def gsc_ops(check, tier):
    return theorem('GSCModel', 'GSCModelFew.cfg',
                   'every outcome of conditions with all combinations of three operations, with and without cleanup, on '
                   'every DAG of 3 nodes meets the promises')


def struct_replay(check, tier):
    """all short histories of small worlds, generated by TLC and replayed"""
    import random
    import worlds
    quick = tier == 'quick'
    scns, states, n = worlds.scenarios(check.seed, 3 if quick else 4, 1 if quick else 3)
    total = len(scns)
    limit = 6000 if quick else 40000
    if total > limit:
        scns = random.Random(check.seed).sample(scns, limit)
        for k, s in enumerate(scns):
            s['id'] = k
    check.replay_all('struct', 'histories', scns)
    return dict(states=states, distinct=states,
                note=f'{n} small worlds, {total} histories of length {3 if quick else 4}, {len(scns)} of them replayed')


def time_replay(check, tier):
    """all histories of six advances, generated by TLC and replayed"""
    import json
    import random
    import gentime
    r = tlc.run_tlc('TimeTreeModel', workers=8, timeout=300)
    if r['rc'] != 0:
        raise tlc.TLCError('TimeTreeModel: ' + r['out'][-4000:])
    hists = [json.loads(v[1]) for v in tlc.tuples(r['out'], 'HIST')]
    n = len(hists)
    if tier == 'quick':
        hists = random.Random(check.seed).sample(hists, 1200)
    check.replay_all('time', 'histories', gentime.replays(hists, random.Random(f'time/{check.seed}')))
    return dict(states=r['states'], distinct=r['distinct'],
                note=f'the account and a tree of totals give the same answers in all {n} histories of six advances, '
                     f'{len(hists)} replayed')


def alias_table(names):
    import check
    return check.load('alias').table(names)


def alias_replay(check, tier):
    """all histories of three operations on a few names, generated by TLC and replayed"""
    import json
    import multiprocessing as mp
    import os
    import random
    import tempfile
    rng = random.Random(f'alias/{check.seed}')
    quick = tier == 'quick'
    pools = [['TRIAL', 'Trial', 'PASS_GROUP'], ['CALL', 'RUN', 'RUN_'], ['Pass', 'EPOCH', 'ENVIRONMENT'], ['ABSOLUTE', 'x', 'X']]
    rng.shuffle(pools)
    total = states = 0
    scns = []
    for pool in pools[:2 if quick else 4]:
        try:
            with mp.get_context('fork').Pool(1) as pl:
                T = pl.apply(alias_table, (pool,))
        except Exception as e:   # the recordings will show it
            return dict(note=f'not possible: {e!r}')
        scales = [1, rng.choice([0, 2]), rng.choice([3, 4])]
        d = tempfile.mkdtemp(prefix='world_')
        f = os.path.join(d, 'w.json')
        with open(f, 'w') as fh:
            json.dump({'T': T, 'pool': pool, 'scales': scales, 'depth': 3}, fh)
        try:
            r = tlc.run_tlc('AliasModel', env={'WORLD_FILE': f}, workers=8, timeout=300)
        finally:
            os.remove(f)
            os.rmdir(d)
        if r['rc'] != 0:
            raise tlc.TLCError('AliasModel: ' + r['out'][-4000:])
        states += r['states']
        hists = [json.loads(v[1]) for v in tlc.tuples(r['out'], 'HIST')]
        total += len(hists)
        if quick:
            hists = rng.sample(hists, 500)
        scns += [{'kind': 'alias', 'names': pool, 'ops': h} for h in hists]
    for k, s in enumerate(scns):
        s['id'] = k
    check.replay_all('alias', 'histories', scns)
    return dict(states=states, distinct=states,
                note=f'all {total} histories of three operations on some names, {len(scns)} of them replayed')


def utils_replay(check, tier):
    """every dependency dictionary over three nodes, generated by TLC, given to every helper"""
    import json
    import random
    import genutils
    r = tlc.run_tlc('UtilsModel', workers=8, timeout=300)
    if r['rc'] != 0:
        raise tlc.TLCError('UtilsModel: ' + r['out'][-4000:])
    dicts = [json.loads(v[1]) for v in tlc.tuples(r['out'], 'DICT')]
    check.replay_all('utils', 'dictionaries', genutils.replays(dicts, random.Random(f'utils/{check.seed}')))
    return dict(states=r['states'], distinct=r['distinct'],
                note=f'all {len(dicts)} dictionaries over three nodes given to every helper')


def forms_replay(check, tier):
    """every small specification, generated by TLC, given to the implementation in several ways"""
    import json
    import random
    import genforms
    r = tlc.run_tlc('FormsModel', workers=8, timeout=300)
    if r['rc'] != 0:
        raise tlc.TLCError('FormsModel: ' + r['out'][-4000:])
    forms = [json.loads(v[1]) for v in tlc.tuples(r['out'], 'FORM')]
    rng = random.Random(f'forms/{check.seed}')
    times = 2 if tier == 'quick' else 8
    scns = [s for _ in range(times) for s in genforms.replays(forms, rng)]
    for k, s in enumerate(scns):
        s['id'] = k
    check.replay_all('forms', 'specifications', scns)
    return dict(states=r['states'], distinct=r['distinct'],
                note=f'all {len(forms)} small specifications given to the implementation in {times} ways each')


def args_replay(check, tier):
    """every small signature and call, generated by TLC, performed on the implementation"""
    import json
    import random
    import genargs
    quick = tier == 'quick'
    r = tlc.run_tlc('ArgsModel', cfg='ArgsModel.cfg' if quick else 'ArgsModelFull.cfg', workers=8, timeout=400)
    if r['rc'] != 0:
        raise tlc.TLCError('ArgsModel: ' + r['out'][-4000:])
    calls = [json.loads(v[1]) for v in tlc.tuples(r['out'], 'CALL')]
    rng = random.Random(f'args/{check.seed}')
    total = len(calls)
    if quick:
        calls = rng.sample(calls, min(total, 15000))
    scns = genargs.replays(calls, rng)
    check.replay_all('args', 'calls', scns)
    return dict(states=r['states'], distinct=r['distinct'],
                note=f'{len(calls)} of all {total} possible small calls performed')


def twin_replay(check, tier):
    """schedulers of one caller's objects: all interleavings in small worlds, replayed"""
    import random
    import twinworlds
    quick = tier == 'quick'
    n = 12 if quick else 80
    ws = [twinworlds.world(random.Random(f'twins/{check.seed}/{k}')) for k in range(n)]
    hs, r = twinworlds.explore(ws)
    pairs = [(k, h) for k in sorted(hs) for h in hs[k]]
    total = len(pairs)
    rng = random.Random(f'twinreplay/{check.seed}')
    limit = 2500 if quick else 15000
    if total > limit:
        pairs = rng.sample(pairs, limit)
    scns = []
    for j, (k, h) in enumerate(pairs):
        s = twinworlds.scenario(rng, ws[k], h)
        s['id'] = j
        scns.append(s)
    check.replay_all('twin', 'interleavings', scns)
    return dict(states=r['states'], distinct=r['distinct'],
                note=f'{n} small worlds with {total} interleavings of operations of 2-3 schedulers in all, none can be told '
                     f'from a scheduler alone, {len(scns)} interleavings replayed')


# worlds explored in the quick tier
NWORLDS = {'C01': 60, 'C02': 150, 'C03': 25, 'C04': 40, 'C05': 30, 'C06': 30, 'C07': 30, 'C08': 25, 'C10': 16, 'C11': 30,
           'C17': 20, 'C18': 100, 'C19': 40, 'C26': 30}


def sched_replay(check, tier):
    """everything a user can do with some operations in small worlds, generated by TLC and replayed"""
    import random
    import schedworlds
    quick = tier == 'quick'
    n = NWORLDS[check.prop] * (1 if quick else 4)
    make = schedworlds.WORLDS[check.prop]
    ws = [make(random.Random(f'world/{check.prop}/{check.seed}/{k}')) for k in range(n)]
    hs, r = schedworlds.explore(ws)
    pairs = [(k, h) for k in sorted(hs) for h in hs[k]]
    total = len(pairs)
    rng = random.Random(f'replay/{check.prop}/{check.seed}')
    limit = 2500 if quick else 15000
    if total > limit:
        pairs = rng.sample(pairs, limit)
    scns = []
    for j, (k, h) in enumerate(pairs):
        s = schedworlds.scenario(rng, ws[k], h)
        s['id'] = j
        scns.append(s)
    check.replay_all('sched', 'behaviours', scns)
    return dict(states=r['states'], distinct=r['distinct'],
                note=f'{n} small worlds with {total} sequences of operations in all, the small-step scheduler over '
                     f'histories and the counters of the monitor agree in every state, {len(scns)} sequences replayed')

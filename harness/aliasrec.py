"""Sets and removes time scale aliases and records which names there are
(judged by spec/AliasTrace.tla)."""
import signal
import types
import warnings

import graph_scheduler as gs
from graph_scheduler import TimeScale

from gscrec import Hang, _alarm

warnings.simplefilter('ignore')

SCALES = list(TimeScale)
ATTR = ['consideration_set_execution', 'pass_', 'environment_state_update', 'environment_sequence', 'life']
BASE = ['consideration_set_execution', 'pass', 'environment_state_update', 'environment_sequence', 'life']
SEGS = ['ConsiderationSetExecution', 'Pass', 'EnvironmentStateUpdate', 'EnvironmentSequence', 'Life']


def public(obj):
    return {n for n in dir(obj) if not n.startswith('_')}


def statics():
    """public names of the time scales"""
    return {n for c in TimeScale.__mro__ for n in vars(c) if not n.startswith('_')} | public(TimeScale)


def times():
    t = gs.Time(**{a: 11 + k for k, a in enumerate(ATTR)})
    return t, gs.SimpleTime(t)


T0, S0 = times()
PRISTINE = {
    'member': {n: getattr(TimeScale, n, None) for n in statics()},
    'time': public(T0),
    'simple': public(S0),
    'gs': {n: v for n, v in vars(gs).items() if not n.startswith('_')},
    'cond': {n: v for n, v in vars(gs.condition).items() if not n.startswith('_')},
    'all': list(gs.__all__), 'condall': list(gs.condition.__all__),
}


def docs():
    return {n: v.__doc__ for n, v in PRISTINE['gs'].items() if isinstance(v, (type, types.ModuleType))}


DOCS = docs()
ORIG = [sorted(n for n, v in PRISTINE['gs'].items() if isinstance(v, type) and seg in n) for seg in SEGS]


def segment(name):
    return ''.join(x[0].upper() + x[1:].lower() for x in name.split('_') if x)


def table(names):
    return {
        'members': sorted(set(PRISTINE['member']) | set(dir(TimeScale)) | set(dir(SCALES[0]))),
        'attrs': sorted(PRISTINE['time'] | PRISTINE['simple']),
        'classes': sorted(set(PRISTINE['gs']) | set(PRISTINE['cond'])),
        'orig': ORIG, 'base': BASE,
        'names': {n: {'low': n.lower(), 'key': n == n.upper(),
                      'cls': [[c.replace(SEGS[s], segment(n)) for c in ORIG[s]] for s in range(5)]} for n in names},
    }


def scale(v):
    return v.value if isinstance(v, TimeScale) else -1


def which(t, v):
    hit = [k for k, a in enumerate(ATTR) if getattr(t, a) == v]
    return hit[0] if len(hit) == 1 else -2


def look(old, names):
    o = {}
    lost = []
    new = {n: getattr(TimeScale, n, None) for n in statics()}
    o['member'] = {n: scale(v) for n, v in new.items() if n not in PRISTINE['member']}
    lost += [f'TimeScale.{n}' for n, v in PRISTINE['member'].items() if n not in new or not (new[n] is v or new[n] == v)]
    if list(TimeScale) != SCALES or [s.name for s in TimeScale] != [s.name for s in SCALES]:
        lost.append('TimeScale')
    t, s = times()
    c = gs.Scheduler({0: set()}).get_clock('other')
    for k, ts in enumerate(SCALES):
        c.time[ts] = 11 + k
    pairs = [(t, t, 'time'), (s, t, 'simple'), (old[0], old[0], 'time'), (old[1], old[0], 'simple'),
             (c.time, c.time, 'time'), (c.simple_time, c.time, 'simple')]
    o['reads'], o['writes'], o['simple'], o['swrites'] = [], [], [], []
    for x, under, kind in pairs:
        r, w = {}, {}
        for n in public(x) - PRISTINE[kind]:
            try:
                v = getattr(x, n)
                r[n] = v - 11 if isinstance(v, int) else -3
            except Exception:
                r[n] = -4
            if r[n] < 0:
                # not a name of this object
                w[n] = -4
                continue
            try:
                setattr(x, n, 99)
                w[n] = which(under, 99)
            except Exception:
                w[n] = -4
            for k, a in enumerate(ATTR):
                setattr(under, a, 11 + k)
        for n in sorted(PRISTINE[kind] - public(x)):
            lost.append(f'{kind}.{n}')
        for k, a in enumerate(ATTR):
            if (kind == 'time' or a in PRISTINE['simple']) and getattr(x, a, None) != 11 + k:
                lost.append(f'{kind}.{a}')
        for k, ts in enumerate(SCALES):
            if x[ts] != 11 + k:
                lost.append(f'{kind}[{ts}]')
        o['reads' if kind == 'time' else 'simple'].append(r)
        o['writes' if kind == 'time' else 'swrites'].append(w)
    o['ctor'] = {}
    for n in names:
        low = n.lower()
        if low in PRISTINE['time'] or low == 'self':
            continue
        try:
            k = which(gs.Time(**{low: 7}), 7)
        except Exception:
            k = -2
        if k != -2:
            o['ctor'][low] = k
    o['key'] = {}
    for n in names:
        if n != n.upper() or n in PRISTINE['member']:
            continue
        sch = gs.Scheduler({0: set()})
        mark = gs.Never()
        try:
            sch.termination_conds = {n: mark}
            o['key'][n] = next((k for k, ts in enumerate(SCALES) if sch.termination_conds.get(ts) is mark), -1)
        except Exception:
            pass
    o['classes'] = []
    for mod, key in ((gs, 'gs'), (gs.condition, 'cond')):
        now = {n: v for n, v in vars(mod).items() if not n.startswith('_')}
        d = {}
        for n, v in now.items():
            if n not in PRISTINE[key]:
                d[n] = next((m for m in sum(ORIG, []) if PRISTINE['gs'][m] is v), '?')
        o['classes'].append(d)
        lost += [f'{key}.{n}' for n, v in PRISTINE[key].items() if now.get(n) is not v]
    o['all'] = []
    for now, before in ((gs.__all__, PRISTINE['all']), (gs.condition.__all__, PRISTINE['condall'])):
        extra = list(now)
        for n in before:
            if n in extra:
                extra.remove(n)
            else:
                lost.append(f'__all__ {n}')
        o['all'].append(extra)
    o['repr'] = [x.split(':')[0] for x in repr(t)[5:-1].split(', ')]
    o['srepr'] = [x.split(':')[0] for x in repr(s)[5:-1].split(', ')]
    o['docs'] = docs() == DOCS
    o['lost'] = lost
    return o


def clear():
    for _ in range(20):
        al = list(gs.time._time_scale_aliases.values()) if hasattr(gs.time, '_time_scale_aliases') else []
        if not al:
            return
        gs.remove_time_scale_alias(al[0])


def target(kind, v):
    return {'scale': lambda: SCALES[v], 'name': lambda: v, 'bad': lambda: [7, None, object(), 2.0, 'get_parent', 'NOPE', ''][v]}[kind]()


def do(o, names, old):
    ev = dict(o)
    try:
        if o['e'] == 'set':
            gs.set_time_scale_alias(o['name'], target(o['kind'], o['target']))
        else:
            gs.remove_time_scale_alias(o['name'])
        ev['r'] = 'ok'
    except (ValueError, TypeError) as x:
        ev['r'] = 'err'
        ev['detail'] = repr(x)[:200]
    except Hang:
        raise
    except Exception as x:
        ev['r'] = 'exc'
        ev['detail'] = repr(x)[:200]
    ev['o'] = look(old, names)
    return ev


def record(scn):
    import os
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    names = scn['names']
    ev = []
    set_names = []
    try:
        old = times()
        for o in scn['ops']:
            if o['e'] == 'set':
                set_names.append(o['name'])
            ev.append(do(o, names, old))
    except Hang:
        ev.append({'e': 'fail', 'c': 'HANG'})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        for _ in range(3):
            for n in set_names:
                try:
                    gs.remove_time_scale_alias(n)
                except Exception:
                    pass
    return {'id': scn['id'], 'T': table(names), 'ev': ev}

"""Calls user functions of all shapes through conditions and records what they
receive (judged by spec/ArgsTrace.tla)."""
import functools
import signal
import warnings

import graph_scheduler as gs
from graph_scheduler import TimeScale

from gscrec import Hang, _alarm

warnings.simplefilter('ignore')


class Base:
    pass


class SameCallable:
    """callable objects that are all equal"""
    def __eq__(self, other):
        return isinstance(other, SameCallable)

    def __hash__(self):
        return 7


class NoHash:
    def __eq__(self, other):
        return self is other
    __hash__ = None


class Slots:
    __slots__ = ('seen',)


def text(ps, d):
    """parameter list of a function"""
    out = []
    kinds = [p['kind'] for p in ps]
    for k, p in enumerate(ps):
        if p['kind'] == 'ko' and 'vp' not in kinds[:k] and 'ko' not in kinds[:k]:
            out.append('*')
        name = {'vp': '*' + p['name'], 'vk': '**' + p['name']}.get(p['kind'], p['name'])
        out.append(name + (f'={d[p["name"]]}' if p['opt'] else ''))
        if p['kind'] == 'po' and (k + 1 == len(ps) or kinds[k + 1] != 'po'):
            out.append('/')
    return ', '.join(out)


class Fn:
    def __init__(self, f):
        self.seen = []
        self.answer = True
        ps = f['ps']
        self.ps = ps
        named = [p['name'] for p in ps if p['kind'] in ('po', 'pk', 'ko')]
        vp = [p['name'] for p in ps if p['kind'] == 'vp']
        vk = [p['name'] for p in ps if p['kind'] == 'vk']
        params = text(ps, {p['name']: p['dflt'] for p in ps})
        body = (f"_got({{{', '.join(repr(n) + ': ' + n for n in named)}}}, "
                f"{vp[0] if vp else '()'}, {vk[0] if vk else '{}'})")
        ns = {'_got': self.got, 'Base': Base, 'SameCallable': SameCallable, 'NoHash': NoHash, 'Slots': Slots}
        sep = ', ' if params else ''
        form = f['form']
        if form == 'lambda':
            exec(f'fn = lambda {params}: {body}', ns)
        elif form in ('method', 'callable', 'same', 'nohash', 'slots', 'static', 'classm'):
            base = {'same': 'SameCallable', 'nohash': 'NoHash', 'slots': 'Slots'}.get(form, 'Base')
            meth = 'run' if form in ('method', 'static', 'classm') else '__call__'
            deco = {'static': '    @staticmethod\n', 'classm': '    @classmethod\n'}.get(form, '')
            slots = '    __slots__ = ()\n' if form == 'slots' else ''
            me = '' if form == 'static' else '_me' + (', /' if params and '/' not in params else '') + sep
            if form != 'static' and '/' in params:
                me = '_me' + sep
            exec(f'class C({base}):\n{slots}{deco}    def {meth}({me}{params}):\n        return {body}\nobj = C()', ns)
            self.obj = ns['obj']
            ns['fn'] = self.obj.run if meth == 'run' else self.obj
        else:
            exec(f'def fn({params}):\n    return {body}', ns)
            if form == 'partial':
                ns['fn'] = functools.partial(ns['fn'])
            elif form == 'wraps':
                inner = ns['fn']

                @functools.wraps(inner)
                def wrapper(*a, **k):
                    return inner(*a, **k)
                ns['fn'] = wrapper
        self.fn = ns['fn']

    def got(self, named, star, kws):
        self.seen.append((named, list(star), dict(kws)))
        return self.answer


def val(v, s, eid):
    if isinstance(v, int) and not isinstance(v, bool):
        return v
    if s is not None and v is s:
        return 501
    if v is None:
        return 503
    if v == eid and eid is not None:
        return 502
    return 599


def wrap(via, c):
    if via == 'All':
        return gs.All(gs.Always(), c)
    if via == 'Any':
        return gs.Any(gs.Never(), c)
    if via == 'Not':
        return gs.Not(c)
    if via == 'NWhen':
        return gs.NWhen(c, 1000)
    if via == 'deep':
        return gs.All(gs.Any(gs.Not(gs.Not(c))))
    return c


def in_sched(f, want, sch, ev, e, eid):
    """three passes of a scheduler"""
    kw = {'termination_conds': {TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(3)}}
    if eid is not None:
        kw['execution_id'] = eid
    e['X'].update(scheduler=501, execution_id=502 if eid else 503)
    ran = sum('A' in s for s in sch.run(**kw, **ev['X']))
    e['ret'] = ran == (3 if want else 0)
    # a node that executes is not asked again in the same set
    e['every'] = len(f.seen) == 3 if want else len(f.seen) >= 3


def direct(f, want, top, sch, ev, e, eid):
    via = ev['via']
    e['E'] = E = ev['E'] if via in ('Condition', 'While', 'WhileNot') else []
    kw = dict(ev['X'])
    if ev['sch']:
        kw['scheduler'] = sch
        e['X']['scheduler'] = 501
    if eid is not None:
        kw['execution_id'] = eid
    e['X']['execution_id'] = 502 if eid else 503
    if via == 'NWhen' and not ev['sch']:
        # passes a scheduler in any case
        e['X']['scheduler'] = 503
    got = [top.is_satisfied(*E, **kw) for _ in range(2)]
    e['ret'] = all(bool(g) == want for g in got)
    e['every'] = len(f.seen) == 2


def do(fns, ev):
    """evaluations of one condition"""
    f = fns[ev['f']]
    top = sch = None
    out = []
    for k, one in enumerate([ev] + ev.get('more', [])):
        ev = dict(ev, **one)
        f.seen.clear()
        f.answer = ev['answer']
        via, how = ev['via'], ev['how']
        e = {'e': 'call', 'ps': f.ps, 'A': ev['A'], 'K': dict(ev['K']), 'E': [], 'X': dict(ev['X']), 'r': 'ok',
             'bound': {}, 'star': [], 'kws': {}, 'ret': True, 'every': True, 'via': via, 'how': how}
        eid = 'ctx' if ev['eid'] else None
        want = ev['answer'] != (via in ('WhileNot', 'Not'))
        try:
            if top is None:
                cls = gs.WhileNot if via == 'WhileNot' else gs.While if via == 'While' else gs.Condition
                top = wrap(via, cls(f.fn, *ev['A'], **ev['K']))
                if how == 'sched':
                    sch = gs.Scheduler({'A': set(), 'B': {'A'}})
                    sch.add_condition('A', top)
                    sch.add_condition('B', gs.Always())
            if how == 'sched':
                in_sched(f, want, sch, ev, e, eid)
            else:
                if ev['sch']:
                    sch = object()
                direct(f, want, top, sch, ev, e, eid)
        except Hang:
            raise
        except Exception as x:
            e['r'] = 'exc'
            e['detail'] = repr(x)[:200]
        if f.seen:
            shown = [({k: val(v, sch, eid) for k, v in a.items()}, [val(v, sch, eid) for v in b],
                      {k: val(v, sch, eid) for k, v in c.items()}) for a, b, c in f.seen]
            e['bound'], e['star'], e['kws'] = shown[0]
            if any(s != shown[0] for s in shown):
                e['every'] = False
        elif e['r'] == 'ok':
            e['every'] = False
            e['bound'] = {'_': 0}
        out.append(e)
    return out


def record(scn):
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    ev = []
    try:
        fns = [Fn(f) for f in scn['fns']]
        for o in scn['ops']:
            if o.get('renew'):
                fns[o['f']] = Fn(scn['fns'][o['f']])
            ev += do(fns, o)
    except Hang:
        ev.append({'e': 'fail', 'c': 'HANG'})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {'id': scn['id'], 'ev': ev}

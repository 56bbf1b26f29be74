"""Advances time histories and clocks and records what they answer (judged by
spec/TimeTrace.tla)."""
import signal
import warnings

import graph_scheduler as gs
from graph_scheduler import TimeScale
from graph_scheduler.time import Clock, TimeHistoryTree, TimeScaleError

from gscrec import Hang, _alarm

warnings.simplefilter('ignore')
TS = [TimeScale(k) for k in range(5)]
ATTR = ['consideration_set_execution', 'pass_', 'environment_state_update', 'environment_sequence', 'life']


class Rec:
    def __init__(self, scn):
        self.scn = scn
        self.ev = []
        self.clock = None
        via = scn['via']
        if via == 'tree':
            kw = {}
            if scn['top'] != 4 or scn.get('explicit'):
                kw['time_scale'] = TS[scn['top']]
            if scn['depth'] != 2 or scn.get('explicit'):
                kw['max_depth'] = TS[scn['depth']]
            if not scn['timed']:
                kw['enable_current_time'] = False
            self.tree = TimeHistoryTree(**kw)
        elif via == 'clock':
            self.clock = Clock()
            self.tree = self.clock.history
        else:
            names = [f'n{k}' for k in range(scn['layers'])]
            self.sched = gs.Scheduler({n: set(names[:k][-1:]) for k, n in enumerate(names)},
                                      conditions={n: gs.Always() for n in names})
            self.eid = scn.get('eid')
            if self.eid is None:
                self.eid = self.sched.default_execution_id
            self.clock = self.sched.get_clock(self.eid)
            self.tree = self.clock.history

    def call(self, e, f):
        try:
            r = f()
            e['r'] = 'ok'
            return r
        except TimeScaleError:
            e['r'] = 'err'
        except Hang:
            raise
        except Exception as x:
            e['r'] = 'exc'
            e['detail'] = repr(x)[:200]

    def op_inc(self, o):
        for k in o['ks']:
            e = {'e': 'inc', 'k': k}
            f = self.tree.increment_time if self.clock is None else self.clock._increment_time
            self.call(e, lambda: f(TS[k]))
            self.ev.append(e)

    def op_run(self, o):
        stop = [False]
        cond = gs.Condition(lambda: stop[0])
        n = o['passes'] * self.scn['layers']
        e = {'e': 'inc', 'k': 0}

        def f():
            it = self.sched.run(termination_conds={TimeScale.ENVIRONMENT_STATE_UPDATE: cond}, execution_id=self.eid,
                                skip_environment_state_update_time_increment=o['skip'])
            for _ in range(n):
                next(it)
            stop[0] = True
            if list(it):
                raise RuntimeError('does not end')
        self.call(e, f)
        ks = ([0] * self.scn['layers'] + [1]) * o['passes'] + ([] if o['skip'] else [2])
        self.ev += [{'e': 'inc', 'k': k, 'r': e['r']} for k in ks]
        # all of it at once

    def op_seq(self, o):
        e = {'e': 'inc', 'k': 3}
        self.call(e, lambda: self.sched.end_environment_sequence(self.eid))
        self.ev.append(e)

    def op_q(self, o):
        """a query at the tree"""
        B = {TS[k]: v for k, v in o['B']}
        b0 = dict(B)
        e = {'e': 'q', 'q': o['q'], 'B': o['B'], 'v': -9}
        if o.get('none') and not B:
            v = self.call(e, lambda: self.tree.get_total_times_relative(TS[o['q']]))
        else:
            v = self.call(e, lambda: self.tree.get_total_times_relative(TS[o['q']], B))
        if e['r'] == 'ok':
            e['v'] = v
        e['inp'] = B == b0
        self.ev.append(e)

    def op_cq(self, o):
        """a query at the clock"""
        e = {'e': 'q', 'q': o['q'], 'B': [], 'v': -9, 'inp': True}

        def f():
            b = o['b']
            if o.get('idx') is None:
                e['B'] = [[b, getattr(self.clock.time, ATTR[b])]]
                return self.clock.get_total_times_relative(TS[o['q']], TS[b])
            e['B'] = [[b, o['idx']]]
            return self.clock.get_total_times_relative(TS[o['q']], TS[b], base_index=o['idx'])
        v = self.call(e, f)
        if e['r'] == 'ok':
            e['v'] = v
        self.ev.append(e)

    def op_all(self, o):
        """all queries up to the given indices"""
        top = o['max']
        Bs = [[]]
        for s3 in [None, *range(top + 2)]:
            for s2 in [None, *range(top + 2)]:
                B = [[3, s3]] * (s3 is not None) + [[2, s2]] * (s2 is not None)
                Bs.append(B)
                if o.get('fine'):
                    Bs += [B + [[1, v]] for v in range(top + 1)]
        for B in Bs:
            for q in range(4):
                self.op_q({'q': q, 'B': B})

    def op_obs(self, o):
        def vec(x):
            return [getattr(x, a) for a in ATTR[:4]]
        try:
            T = self.tree if self.clock is None else self.clock
            now = T.current_time if self.clock is None else T.time
            prev = T.previous_time
            e = {'e': 'obs', 'now': vec(now), 'hasprev': prev is not None, 'prev': [0] * 4 if prev is None else vec(prev)}
            same = all(now._get_by_time_scale(TS[k]) == getattr(now, ATTR[k]) == now[TS[k]] for k in range(5)) and now.life == 0
            if self.clock is not None:
                s = self.clock.simple_time
                same = same and all(getattr(s, ATTR[k]) == getattr(now, ATTR[k]) for k in (0, 2, 3))
                same = same and all(self.clock.get_time_by_time_scale(TS[k]) == getattr(now, ATTR[k]) for k in range(5))
            e['same'] = bool(same)
        except Hang:
            raise
        except Exception as x:
            e = {'e': 'fail', 'c': 'EXC', 'detail': repr(x)}
        self.ev.append(e)


def record(scn):
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    r = None
    try:
        r = Rec(scn)
        for o in scn['ops']:
            getattr(r, 'op_' + o['o'])(o)
            if r.ev and r.ev[-1].get('r') == 'exc':
                break
    except Hang:
        r.ev.append({'e': 'fail', 'c': 'HANG'})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {'id': scn['id'], 'top': scn['top'], 'depth': scn['depth'], 'timed': scn['timed'], 'ev': r.ev}

"""Several schedulers in one process, built from shared or equal inputs; records
the interleaved trace that spec/TwinTrace.tla judges."""
import gc
import signal

import networkx as nx

import graph_scheduler as gs

import sched
from sched import Builder, Env, Hang, Param, _alarm, make_ctx, make_node


class Sink:
    """events of one scheduler, put in the common trace"""

    def __init__(self, w, common):
        self.w, self.common = w, common

    def append(self, e):
        self.common.append({**e, 'w': self.w})

    def __iter__(self):
        return (e for e in self.common if e['w'] == self.w)

    def __bool__(self):
        return True


class Half(sched.Recorder):
    def __init__(self, twin, w, scn):
        super().__init__(scn)
        self.twin, self.w = twin, w
        self.ev = Sink(w, twin.ev)

    def make(self):
        self.env = self.twin.env
        self.index = {n: k + 1 for k, n in enumerate(self.env.nodes)}
        self.b = Builder(self.scn, self.env)
        self.gens = {}
        self.probes = []
        self.s = self.make_scheduler()
        self.log_graph('any' if self.scn.get('gscs') else 'same')

    def conds(self):
        out = super().conds()
        for n, cls, ds in self.scn.get('gscs', []):
            g = getattr(gs, cls)(*[self.b.node(k) for k in ds])
            k = self.b.node(n)
            if k in out:
                out[k] = (out[k] if isinstance(out[k], list) else [out[k]]) + [g]
            else:
                out[k] = [g]
        return out

    def shared(self, what, build):
        """the object the caller hands in, the same one every time when shared"""
        tw = self.twin
        if what not in self.scn['share']:
            v = build()
        else:
            key = (what, self.scn['share'][what])
            if key not in tw.objs:
                tw.objs[key] = build()
            v = tw.objs[key]
        tw.watch(what, v)
        return v

    def graph_arg(self):
        return self.shared('graph', super().graph_arg)

    def conds_arg(self):
        if self.scn['share'].get('condobjs'):
            objs = self.shared('condobjs', self.conds)
            c = {k: (list(v) if isinstance(v, list) else v) for k, v in objs.items()}
            c = gs.ConditionSet(c) if self.scn['how'] == 'set' else c
            self.twin.watch('conds', c)
            return c
        return self.shared('conds', super().conds_arg)

    def term_arg(self):
        return self.shared('term', super().term_arg)

    def idle(self):
        super().idle()


def snap(what, v):
    """what the caller can see of an object handed in"""
    if what == 'graph':
        if isinstance(v, nx.DiGraph):
            return [list(v.nodes), list(v.edges)]
        return [(k, type(x).__name__, list(x) if isinstance(x, list) else set(x)) for k, x in v.items()]
    if isinstance(v, gs.ConditionSet):
        return [list(v.conditions_basic.items()), [(k, list(x)) for k, x in v.conditions_structural.items() if x],
                list(v.structural_condition_order)]
    return [(k, list(x) if isinstance(x, list) else x) for k, x in v.items()]


def same(a, b):
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, str)):
        return a == b
    return a is b


class Twin:
    def __init__(self, scn):
        self.scn = scn
        self.ev = []
        self.objs = {}
        self.watched = []
        self.stale = set()

    def watch(self, what, v):
        if not any(v is x for _, x, _ in self.watched):
            self.watched.append((what, v, snap(what, v)))

    def inputs(self, w):
        for k, (what, v, before) in enumerate(self.watched):
            if not same(snap(what, v), before):
                self.ev.append({'e': 'check', 'c': 'INPUT', 'v': False, 'w': w, 'what': what})
                self.watched[k] = (what, v, snap(what, v))

    def setup(self):
        scn = self.scn
        env = self.env = Env(scn)
        env.nodes[:] = [make_node(d, env) for d in scn['nodes']]
        env.ctx[:] = [make_ctx(d) for d in scn['ctx']]
        env.params[:] = [Param(env, k, sh) for k, sh in enumerate(scn.get('shapes', []))]
        common = {k: scn[k] for k in ('nodes', 'ctx', 'tick_us', 'fl', 'pv', 'shapes')}
        self.half = [Half(self, k + 1, {**common, 'id': scn['id'], 'ops': [], **h})
                     for k, h in enumerate(scn['halves'])]

    def op_make(self, w, op):
        h = self.half[w]
        h.make()

    def op_kill(self, w, op):
        h = self.half[w]
        h.idle()
        h.s = None
        gc.collect()

    def op_mutate(self, w, op):
        """the caller goes on using the objects handed in"""
        for k, (what, v, before) in enumerate(self.watched):
            n = self.env.nodes
            a, b = n[op['a'] - 1], n[op['b'] - 1]
            if what == 'graph':
                if isinstance(v, nx.DiGraph):
                    v.add_edge(a, b) if not v.has_edge(a, b) else v.remove_edge(a, b)
                else:
                    x = v.setdefault(b, set())
                    if a in x:
                        x.remove(a)
                    else:
                        (x.append if isinstance(x, list) else x.add)(a)
                    if op['k'] % 3 == 0:
                        del v[b]
            elif what == 'term':
                v.clear()
                v[gs.TimeScale.ENVIRONMENT_STATE_UPDATE] = gs.AfterNPasses(1)
            elif isinstance(v, gs.ConditionSet):
                v.add_condition(a, gs.Never() if op['k'] % 2 else gs.BeforeNode(b))
            else:
                v[a] = gs.Never()
                for x in v.values():
                    if isinstance(x, list):
                        x.append(gs.AfterNode(b))
            self.watched[k] = (what, v, snap(what, v))

    def unseen(self, k):
        """what the others did is not seen here"""
        h = self.half[k]
        if k not in self.stale or getattr(h, 's', None) is None:
            return
        self.stale.discard(k)
        h.log_graph('same')
        for x in range(1, len(self.env.ctx) + 1):
            if h.eid(x) in h.s.execution_list:
                h.op_clk({'x': x})
                h.op_obs({'x': x})

    def run(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, 30)
        w = 0
        try:
            try:
                self.setup()
                for op in self.scn['tops']:
                    if op['w'] != w:
                        w = op['w']
                        self.unseen(w)
                    if op['o'] in ('make', 'kill', 'mutate'):
                        getattr(self, 'op_' + op['o'])(w, op)
                    elif getattr(self.half[w], 's', None) is None:
                        continue
                    elif self.half[w].op(op) is False:
                        break
                    self.inputs(w + 1)
                    if op['o'] not in ('set', 'look'):
                        self.stale |= set(range(len(self.half)))
                    if op['o'] != 'mutate':
                        self.stale.discard(w)
                for w in range(len(self.half)):
                    self.unseen(w)
            except Hang:
                raise
            except Exception as e:
                import traceback
                self.ev.append({'e': 'fail', 'c': 'EXC', 'w': w + 1, 'detail': traceback.format_exc()[-800:]})
        except Hang:
            self.ev.append({'e': 'fail', 'c': 'HANG', 'w': w + 1})
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if not self.ev:
            self.ev.append({'e': 'check', 'v': True, 'c': 'NONE', 'w': 1})
        half = []
        for h in self.half:
            t = h.trace()
            half.append({k: v for k, v in t.items() if k not in ('ev', 'id')})
        return {'id': self.scn['id'], 'half': half, 'ev': self.ev}


def record(scn):
    return Twin(scn).run()

"""Decides one property:  check.py <ID> [quick|thorough]   or   check.py --replay <file>

Records what the implementation in /repo does on generated scenarios, has TLC
judge the recordings against the specification, and model checks the
specification itself where the plan says so.
Exit 0: held.  Exit 1 with a VIOLATION line: broken."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'

if __name__ == '__main__' and (os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1'):
    e = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.pop('PYTHONPATH', None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__), *sys.argv[1:]], e)

import json
import multiprocessing as mp
import random
import resource
import time

sys.path.insert(0, HERE)
import tlc
import plan

SRC = '/repo/src'
CORES = int(os.environ.get('VERIF_CORES', '8'))
KINDS = plan.KINDS


def say(*a):
    print(*a, flush=True)


# --- recording -----------------------------------------------------------------

def clean(v):
    """only what TLC can read"""
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, int):
        return v if abs(v) < 2 ** 31 else -99999
    if v is None:
        return -99998
    if isinstance(v, float):
        return int(v) if v == int(v) and abs(v) < 2 ** 31 else -99997
    if isinstance(v, dict):
        return {str(k): clean(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [clean(x) for x in v]
    try:
        return clean(v.item())
    except Exception:
        return -99996


def load(kind):
    sys.path.insert(0, SRC)
    import importlib
    mod = importlib.import_module(KINDS[kind]['recorder'])
    import graph_scheduler
    f = os.path.realpath(graph_scheduler.__file__)
    if not f.startswith('/repo/'):
        raise RuntimeError(f'not the implementation in /repo: {f}')
    return mod


def broken_trace(kind, sid, why):
    return KINDS[kind]['broken'](sid, why)


def rec_one(kind, scn):
    """records one scenario; never raises"""
    import traceback
    try:
        return clean(load(kind).record(scn))
    except BaseException as e:   # the implementation cannot even be driven
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        t = broken_trace(kind, scn['id'], 'EXC')
        t['detail'] = traceback.format_exc()[-1500:]
        return t


def gen_one(kind, fam, seed, k):
    import importlib
    g = importlib.import_module(KINDS[kind]['generator'])
    rng = random.Random(f'{fam}/{seed}/{k}')
    s = getattr(g, fam)(rng, k)
    s['id'] = k
    return s


def has_fail(tr):
    return any(e.get('e') == 'fail' and e.get('c') == 'HANG' for e in tr.get('ev', []))


SCNS = {}


def scn_of(kind, fam, seed, k):
    return SCNS[fam][k] if fam in SCNS else gen_one(kind, fam, seed, k)


def chunk_work(args):
    kind, fam, seed, ks = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    load(kind)
    out = []
    for k in ks:
        scn = scn_of(kind, fam, seed, k)
        tr = rec_one(kind, scn)
        out.append((k, tr))
        if has_fail(tr):
            break
    return out


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = mp.get_context('fork').Pool(CORES)
    return _pool


def record_many(kind, fam, seed, lo, n):
    step = max(1, min(40, n // CORES + 1))
    jobs = [(kind, fam, seed, list(range(a, min(a + step, lo + n)))) for a in range(lo, lo + n, step)]
    out = {}
    hang = 0
    it = pool().imap_unordered(chunk_work, jobs)
    for _ in jobs:
        try:
            res = it.next(timeout=150)
        except mp.TimeoutError:
            # a worker got lost (killed, or stuck outside of Python)
            hang = 99
            out.setdefault(lo, broken_trace(kind, lo, 'HANG'))
            break
        for k, tr in res:
            out[k] = tr
            hang += has_fail(tr)
        if hang >= 3:
            break
    if hang:
        global _pool
        _pool.terminate()
        _pool = None
    return [out[k] for k in sorted(out)]


# --- findings ------------------------------------------------------------------

def known_entries(prop):
    f = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [e for e in json.load(open(f))['known'] if prop in e['properties']]


def write_replay(prop, kind, scn, tr, v, tier, seed):
    d = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}-{tier}-{seed}.json')
    with open(p, 'w') as f:
        json.dump({'property': prop, 'kind': kind, 'clause': v[2], 'event': v[1],
                   'observed': (tr['ev'][v[1] - 1] if 0 < v[1] <= len(tr.get('ev', [])) else None),
                   'detail': tr.get('detail'), 'scenario': scn, 'trace': tr}, f, indent=1)
    return p


class Done(Exception):
    pass


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.P = plan.PLAN[prop]
        self.states = self.distinct = 0
        self.traces = 0
        self.unjudged = 0
        self.events = 0
        self.samples = 0
        self.notes = []
        self.viol = None
        self.ignored = {}
        self.cover = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    # a family of recorded traces
    def family(self, kind, fam, n, off=0):
        t = time.time()
        trs = record_many(kind, fam, self.seed, off, n)
        t1 = time.time()
        r = {}
        mod = KINDS[kind]['monitor']
        viol, r = self.judge(mod, trs)
        self.states += r['states']
        self.distinct += r['distinct']
        self.traces += len(trs)
        self.samples += len(trs)
        ev = sum(len(x['ev']) for x in trs)
        self.events += ev
        for x in trs:
            for e in x['ev']:
                key = f"{kind}:{e.get('e')}" + (f":{e.get('r')}" if 'r' in e and isinstance(e['r'], str) else '')
                self.cover[key] = self.cover.get(key, 0) + 1
        say(f'  {kind}/{fam}: {len(trs)} recorded executions ({ev} events, {t1 - t:.1f} s) judged by {mod} '
            f'({r["states"]} states, {time.time() - t1:.1f} s), {len(viol)} violations'
            + (f', {r["unjudged"]} not judged in time' if r['unjudged'] else ''))
        self.unjudged += r['unjudged']
        self.traces -= r['unjudged']
        mine, other = [], []
        for v in viol:
            (mine if plan.concerns(self.prop, kind, fam, v[2]) else other).append(v)
        for v in other:
            self.ignored[v[2]] = self.ignored.get(v[2], 0) + 1
        if mine:
            byid = {x['id']: x for x in trs}
            v = min(mine, key=lambda v: (v[1], v[0]))
            scn = scn_of(kind, fam, self.seed, v[0])
            self.report(kind, scn, byid[v[0]], v, len(mine))

    def judge(self, mod, trs):
        """several monitors side by side"""
        limit = 300 if self.tier == 'quick' else max(60, self.left() + 60)
        if len(trs) <= 200:
            return tlc.judge(mod, trs, workers=CORES, timeout=limit)
        from concurrent.futures import ThreadPoolExecutor
        k = min(4, max(2, len(trs) // 400))
        parts = [trs[i::k] for i in range(k)]
        tot = {'states': 0, 'distinct': 0, 'unjudged': 0}
        viol = []
        with ThreadPoolExecutor(k) as ex:
            for v, r in ex.map(lambda p: tlc.judge(mod, p, workers=max(1, CORES // k), timeout=limit), parts):
                viol += v
                for key in tot:
                    tot[key] += r[key]
        return viol, tot

    def report(self, kind, scn, tr, v, n):
        p = write_replay(self.prop, kind, scn, tr, v, self.tier, self.seed)
        say(f'  clause {v[2]} violated at event {v[1]} of scenario {v[0]} ({n} violations)')
        e = tr['ev'][v[1] - 1] if 0 < v[1] <= len(tr['ev']) else None
        say('  observed: ' + json.dumps(e)[:600])
        say(f'VIOLATION property={self.prop} replay={p}')
        self.viol = v
        raise Done()

    def replay_all(self, kind, name, scns):
        """histories generated from the specification"""
        global _pool
        SCNS[name] = scns
        if _pool is not None:      # new workers, that know them
            _pool.terminate()
            _pool = None
        self.family(kind, name, len(scns))

    def model(self, name, **opts):
        import models
        res = getattr(models, name)(self, **opts)
        self.states += res.get('states', 0)
        self.distinct += res.get('distinct', 0)
        self.samples += res.get('samples', 0)
        self.traces += res.get('traces', 0)
        say(f"  model {name}: {res.get('note', '')} ({res.get('states', 0)} states, {res.get('distinct', 0)} distinct)")
        self.notes.append(f"{name}: {res.get('note', '')}; {res.get('distinct', 0)} distinct states")

    def known(self):
        """executes the inputs of the listed findings"""
        for e in known_entries(self.prop):
            scn = json.load(open(os.path.join(ROOT, e['scenario'])))
            scn['id'] = 0
            kind = e['kind']
            with mp.get_context('fork').Pool(1) as pl:
                tr = pl.apply(rec_one, (kind, scn))
            viol, r = tlc.judge(KINDS[kind]['monitor'], [tr], workers=1)
            self.traces += 1
            self.states += r['states']
            got = sorted({v[2] for v in viol})
            if not got:
                say(f"  listed finding {e['name']} does not occur any more")
            elif set(got) <= set(e['clauses']):
                say(f"KNOWN-FINDING: property={self.prop} {e['what']}")
            else:
                v = [v for v in viol if v[2] not in e['clauses']][0]
                if plan.concerns(self.prop, kind, e['family'], v[2]):
                    self.report(kind, scn, tr, v, 1)

    def run(self):
        P = self.P
        quick = self.tier == 'quick'
        self.budget = 60 if quick else 700
        say(f'{self.prop} ({self.tier}, seed {self.seed})')
        code = 0
        try:
            self.known()
            for m in P.get('models', []):
                self.model(m, tier=self.tier)
            for kind, fam, nq, nt in P['traces']:
                self.family(kind, fam, nq)
            if not quick:
                # as much more as fits
                off = 0
                rnd = 0
                while self.left() > 90:
                    off += 100000
                    rnd += 1
                    for kind, fam, nq, nt in P['traces']:
                        if self.left() < 60:
                            break
                        self.family(kind, fam, nt, off)
        except Done:
            code = 1
        self.evidence()
        return code

    def evidence(self):
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': self.distinct, 'transitions': self.states,
                'traces_validated_against_impl': self.traces, 'samples': self.samples,
                'explanation': (
                    f'{self.traces} executions of the implementation with {self.events} observed events were accepted '
                    f'or rejected by the specification; event kinds: '
                    + ', '.join(f'{k}={v}' for k, v in sorted(self.cover.items()))
                    + (f'. {self.unjudged} recordings were not judged in time' if self.unjudged else '')
                    + ('. ' + '; '.join(self.notes) if self.notes else '')
                    + (f'. clauses of other properties seen broken: {self.ignored}' if self.ignored else '')),
            },
            'assumptions': self.P.get('assume', plan.ASSUME),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': 1 if self.viol else 0,
        }
        with open(os.path.join(d, f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def replay(path):
    r = json.load(open(path))
    kind = r['kind']
    scn = r['scenario']
    tr = rec_one(kind, scn)
    viol, _ = tlc.judge(KINDS[kind]['monitor'], [tr], workers=1)
    for v in viol:
        say(f'clause {v[2]} at event {v[1]}: {json.dumps(tr["ev"][v[1] - 1])[:800]}')
    mine = [v for v in viol if plan.concerns(r['property'], kind, r['scenario'].get('family', ''), v[2])]
    if mine:
        say(f"VIOLATION property={r['property']} replay={path}")
        return 1
    say('holds')
    return 0


def main(argv):
    if argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return Check(prop, tier, seed).run()
    finally:
        if _pool is not None:
            _pool.terminate()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

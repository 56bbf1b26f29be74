"""Corrupts recordings of the implementation and counts how many of the
corrupted ones the specification rejects, per kind of recording and per field.

    python3 tools/selftest.py [KIND ...]

Says how tightly the specification is bound to what is recorded; a field whose
corruption is never noticed is either redundant or not judged."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'harness'))
PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]],
              dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore'))

import copy
import random

import check
import plan
import tlc

# observations; everything else in an event says what was done
SEEN = {
    'sched': {'r', 'set', 'len', 'clk', 'prv', 'phas', 'smp', 'abs', 'sabs', 'pabs', 'v', 'rz', 'got', 'hist', 'stamps', 'graph', 'q', 'qi'},
    'twin': {'r', 'set', 'len', 'clk', 'prv', 'phas', 'smp', 'abs', 'v', 'hist', 'stamps', 'graph', 'q', 'qi'},
}
DONE = {
    'struct': {'e', 'k', 'at', 'via', 'lvl', 'o', 'how', 'ks', 'c', 'm', 'seq'},
    'gsc': {'e', 'g', 'c', 'cls'},
    'time': {'e', 'k', 'u', 'w', 'idx', 'ts', 'q', 'a'},
    'args': {'e', 'ps', 'A', 'K', 'E', 'X', 'f', 'answer'},
    'alias': {'e', 's', 'n', 'name'},
    'forms': {'e', 'form', 'detail'},
    'utils': {'e', 'd', 'x', 's', 'how', 'fn', 'n'},
}


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        yield path, v
        for k, x in enumerate(v):
            yield from leaves(x, path + (k,))
    else:
        yield path, v


OTHER = {'yield': 'end', 'end': 'yield', 'raise': 'end', 'runerr': 'end', 'ok': 'lib', 'lib': 'ok', 'other': 'ok'}


def corrupt(rng, v):
    if isinstance(v, str):
        return OTHER.get(v)
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 2])
    if isinstance(v, list):
        if v and rng.random() < 0.5:
            w = list(v)
            w.pop(rng.randrange(len(w)))
            return w
        return None
    return None


def main(kinds):
    fams = {}
    for p in plan.PLAN.values():
        for kind, fam, *_ in p['traces']:
            fams.setdefault(kind, []).append(fam)
    for kind in kinds or fams:
        rng = random.Random(kind)
        trs = []
        for fam in sorted(set(fams[kind])):
            trs += [t for t in check.record_many(kind, fam, 7, 0, 60)]
        bad, what = [], {}
        for tr in trs:
            for _ in range(6):
                if not tr['ev']:
                    continue
                i = rng.randrange(len(tr['ev']))
                ev = tr['ev'][i]
                ok = [(p, v) for p, v in leaves(ev) if p and corrupt(random.Random(0), v) is not None or isinstance(v, list)]
                ok = [(p, v) for p, v in ok if p and (p[0] in SEEN[kind] if kind in SEEN else p[0] not in DONE[kind])]
                if not ok:
                    continue
                p, v = rng.choice(ok)
                new = corrupt(rng, v)
                if new is None:
                    continue
                t2 = copy.deepcopy(tr)
                o = t2['ev'][i]
                for k in p[:-1]:
                    o = o[k]
                o[p[-1]] = new
                t2['id'] = len(bad)
                what[t2['id']] = f"{ev.get('e')}.{p[0]}"
                bad.append(t2)
        hit = set()

        def decide(part):
            try:
                viol, r = tlc.judge(plan.KINDS[kind]['monitor'], part, workers=8)
                hit.update(v[0] for v in viol)
            except tlc.TLCError:
                # a recording TLC cannot read counts as rejected
                if len(part) == 1:
                    hit.add(part[0]['id'])
                else:
                    decide(part[:len(part) // 2])
                    decide(part[len(part) // 2:])
        for a in range(0, len(bad), 50):
            decide(bad[a:a + 50])
        tab = {}
        for i, f in what.items():
            a = tab.setdefault(f, [0, 0])
            a[0] += 1
            a[1] += i in hit
        print(f'{kind}: {len(hit)} of {len(bad)} corrupted recordings rejected')
        for f, (n, h) in sorted(tab.items()):
            print(f'   {f:24} {h}/{n}')
    if check._pool:
        check._pool.terminate()


if __name__ == '__main__':
    main(sys.argv[1:])

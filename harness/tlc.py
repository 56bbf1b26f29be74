"""Runs TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TLCError(Exception):
    pass


def run_tlc(module, cfg=None, env=None, workers=4, timeout=800, heap='3g', extra=(), partial=False):
    """returns dict(states, distinct, out) or raises TLCError"""
    meta = tempfile.mkdtemp(prefix='tlc_')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           f'-Djava.io.tmpdir={meta}', '-cp', JAR, 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-nowarning', '-config', cfg or module + '.cfg', *extra, module]
    try:
        with open(os.path.join(meta, 'out'), 'w+') as fh:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=fh, stderr=subprocess.STDOUT)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
            fh.seek(0)
            out = fh.read()
        if rc is None and not partial:
            raise TLCError('timeout\n' + out[-3000:])
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    res = {'out': out, 'rc': rc, 'states': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0}
    return res


def tuples(out, tag):
    """the tuples <<"tag", ...>> printed by TLC, as lists of strings/ints"""
    rows = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('<<"%s"' % tag) and line.endswith('>>'):
            body = line[2:-2]
            rows.append([json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"|-?\d+', body)])
    return rows


def judge(module, traces, workers=4, timeout=800, heap='3g'):
    """runs a trace monitor; returns (violations [(id, event, clause)], stats);
    stats['unjudged']: traces there was no time for"""
    d = tempfile.mkdtemp(prefix='traces_')
    try:
        f = os.path.join(d, 't.json')
        with open(f, 'w') as fh:
            json.dump(traces, fh)
        r = run_tlc(module, env={'TRACE_FILE': f}, workers=workers, timeout=timeout, heap=heap, partial=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r['rc'] not in (0, None):
        raise TLCError(r['out'][-6000:])
    viol = [(v[1], v[2], v[3]) for v in tuples(r['out'], 'VIOL')]
    done = {v[1] for v in tuples(r['out'], 'DONE')}
    missing = {t['id'] for t in traces} - done
    r['unjudged'] = len(missing)
    if r['rc'] is None:
        if not r['states']:
            r['states'] = r['distinct'] = sum(v[2] for v in tuples(r['out'], 'DONE'))
    elif missing:
        raise TLCError(f'no verdict for {sorted(missing)[:5]}\n' + r['out'][-3000:])
    return viol, r

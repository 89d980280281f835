"""Runs the kernel checks of a property: exploration of the model with replay, and trace validation."""
import os
import sys
import json
import time
import subprocess
from concurrent.futures import ThreadPoolExecutor
import engine


def for_tla(fx):
    return engine.world_module(fx).for_tla(fx)

PY = sys.executable
NCPU = int(os.environ.get('VERIF_CPUS', '8'))


class Result:
    def __init__(self):
        self.violations = []
        self.transitions = 0
        self.model_states = 0
        self.traces = 0
        self.lines = 0
        self.skipped = 0
        self.notes = []
        self.samples = []
        self.ops = {}


def run_worker(job, wd, name, timeout=840):
    jf = os.path.join(wd, name + '.job')
    with open(jf, 'w') as f:
        json.dump(job, f)
    env = {**os.environ, 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PFC_REPO': os.environ.get('PFC_REPO', '/repo')}
    with open(os.path.join(wd, name + '.log'), 'w') as lf:
        p = subprocess.run([PY, os.path.join(engine.HERE, 'worker.py'), jf], stdout=subprocess.DEVNULL, stderr=lf,
                           env=env, cwd=wd, timeout=timeout)
    if p.returncode != 0:
        with open(os.path.join(wd, name + '.log')) as f:
            raise engine.MachineryError('worker %s: exit %s\n%s' % (name, p.returncode, f.read()[-3000:]))


def sub(wd, name):
    d = os.path.join(wd, name)
    os.makedirs(d, exist_ok=True)
    return d


def do_model(fx, n, wd, ex, res, opts):
    """TLC on PFCModel, then replay"""
    d = sub(wd, 'm%d' % n)
    ff = os.path.join(d, 'fx.json')
    with open(ff, 'w') as f:
        json.dump([for_tla(fx)], f)
    rc, lines = engine.tlc(fx.get('module', 'PFC') + 'Model', fx.get('cfg', 'PFCModel.cfg'), d, {'PFC_FIXTURES': ff})
    if rc != 0:
        raise engine.MachineryError('TLC on the model of %s: %s' % (fx['name'], '\n'.join(
            x[:1500] for x in lines if 'EDGE' not in x and not x.startswith(('Parsing', 'Semantic')))[-12000:]))
    edges = list(engine.printed(lines, 'EDGE'))
    res.model_states += engine.tlc_stats(lines)[1]
    res.transitions += len(edges)
    for e in edges:
        op = fx['acts'][e['a'] - 1]['op']
        res.ops[op] = res.ops.get(op, 0) + 1
    del lines
    ef = os.path.join(d, 'edges.json')
    # balance the shards: one first-level edge may carry most of the tree
    with open(ef, 'w') as f:
        json.dump(edges, f)
    out, stop = os.path.join(d, 'out'), os.path.join(d, 'stop')
    open(out, 'w').close()
    ns = max(1, min(NCPU, len(edges) // 150 + 1))
    futs = [ex.submit(run_worker, dict(kind='replay', fx=fx, edges=ef, root=os.path.join(d, 'r%d' % k), out=out,
                                       stop=stop, shard=k, nshards=ns), d, 'w%d' % k) for k in range(ns)]

    def finish():
        for f in futs:
            f.result()
        with open(out) as f:
            for line in f:
                b = json.loads(line)
                acts = [fx['acts'][k - 1] for k in b['h']] + ([fx['acts'][b['a'] - 1]] if b['a'] else []) + b['probes']
                res.violations.append(dict(kind='model', fx=fx, acts=acts, wrong=b['wrong']))
        for e in edges[:: max(1, len(edges) // 3)]:
            if len(res.samples) < 6:
                res.samples.append('%s: %s' % (fx['name'], ' ; '.join(brief(fx['acts'][k - 1]) for k in e['h'] + [e['a']])))
    return finish


def brief(a):
    return '%s(%s)' % (a['op'], ', '.join(str(v) for k, v in a.items() if k not in ('op', 'cl', 'obs')))[:160]


def do_traces(fx, n, wd, ex, res, opts):
    d = sub(wd, 't%d' % n)
    out = os.path.join(d, 'tr.ndjson')
    run_worker(dict(kind='record', fx=fx, n=fx['ntr'], length=fx['len'], seed='%s-%s' % (opts['seed'], fx['name']),
                    root=os.path.join(d, 'r'), out=out), d, 'w')
    lines, fails = [], []
    if os.path.exists(out):
        with open(out) as f:
            for x in f:
                if not x.endswith('\n'):
                    break
                j = json.loads(x)
                if j['op'] == 'build':
                    fails.append(j['fail'])
                else:
                    lines.append(j)
    ff = os.path.join(d, 'fx.json')
    with open(ff, 'w') as f:
        json.dump([for_tla(fx)], f)
    with open(out, 'w') as f:
        for x in lines:
            f.write(json.dumps(x) + '\n')
    for x in fails:
        k = max((m for m, y in enumerate(lines) if y['op'] == 'init'), default=0)
        res.violations.append(dict(kind='trace', fx=fx, acts=[strip(y) for y in lines[k + 1:]],
                                   wrong={'crash': dict(exp='', got=x)}))
    if len(lines) <= 1:
        return None
    rc, tl = engine.tlc(fx.get('module', 'PFC') + 'Trace', fx.get('module', 'PFC') + 'Trace.cfg', d, {'PFC_FIXTURES': ff, 'PFC_TRACE': out})
    v = list(engine.printed(tl, 'VERDICT'))
    if rc != 0 or len(v) != 1 or v[0]['lines'] != len(lines):
        raise engine.MachineryError('TLC on the traces of %s: %s' % (fx['name'], '\n'.join(tl)[-3000:]))
    for m in engine.printed(tl, 'MISMATCH'):
        k = max(x for x in range(m['line']) if lines[x]['op'] == 'init')
        res.violations.append(dict(kind='trace', fx=fx, acts=[strip(y) for y in lines[k + 1:m['line']]], wrong=m['wrong']))
    res.traces += sum(1 for x in lines if x['op'] == 'init')
    res.lines += len(lines) - v[0]['skipped']
    res.skipped += v[0]['skipped']
    for x in lines:
        if x['op'] != 'init':
            res.ops[x['op']] = res.ops.get(x['op'], 0) + 1
    if len(res.samples) < 6:
        res.samples.append('%s: %s' % (fx['name'], ' ; '.join(brief(x) for x in lines[1:6])))
    os.remove(out)
    return None


def strip(a):
    return {k: v for k, v in a.items() if k not in ('cl', 'obs')}


def check(fxs, wd, opts, res=None):
    res = res or Result()
    with ThreadPoolExecutor(NCPU) as ex, ThreadPoolExecutor(NCPU) as ex2:
        futs = []
        for n, fx in enumerate(fxs):
            f = do_model if fx['acts'] else do_traces
            futs.append(ex.submit(f, fx, n, wd, ex2, res, opts))
        fin = [f.result() for f in futs]
        for f in fin:
            if f:
                f()
    return res

"""Binds the kernel specification to the real code.

model(fx):  TLC explores PFCModel on the fixture, checks the invariants of the specification and emits every
            transition; the transitions are replayed on the real code (forking at every branching point).
traces(fx): random behaviours of the real code are recorded and validated by TLC with PFCTrace.
"""
import os
import re
import sys
import json
import time
import random
import shutil
import signal
import importlib
import subprocess
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CLASSPATH = ':'.join([JAR, '/opt/veriftools/tla/CommunityModules-deps.jar'])
ALL = ['ret', 'held', 'ev', 'ex', 'xs', 'soft', 'force', 'errs', 'dbg', 'stk', 'wr']
FILE_OPS = {'setfile', 'delkey', 'setbad', 'fixbad', 'setsec', 'setsrc', 'srcbad', 'srcfix', 'adddict', 'deldict',
            'create', 'reload', 'secbad', 'secfix'}
ACTION_TIMEOUT = 120


class MachineryError(Exception):
    pass


def tlc(module, cfg, workdir, env, timeout=840, heap='3g', workers=1, extra=()):
    """runs TLC, yields its output lines; raises MachineryError if it did not finish properly"""
    md = os.path.join(workdir, 'md_%s_%d' % (module, random.randrange(1 << 30)))
    os.makedirs(md, exist_ok=True)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC', '-Djava.io.tmpdir=' + md, '-cp', CLASSPATH,
           'tlc2.TLC', '-metadir', md, '-workers', str(workers), '-noGenerateSpecTE', '-config',
           os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + '.tla')]
    out = os.path.join(md, 'out')
    try:
        with open(out, 'w') as f:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env={**os.environ, **env},
                                timeout=timeout).returncode
        with open(out) as f:
            lines = f.read().split('\n')
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return rc, lines


def printed(lines, tag):
    pre = '"%s ' % tag
    for line in lines:
        if line.startswith(pre):
            yield json.loads(json.loads(line)[len(tag) + 1:])


def tlc_stats(lines):
    for line in lines:
        m = re.match(r'(\d+) states generated, (\d+) distinct', line)
        if m:
            return int(m.group(1)), int(m.group(2))
    return 0, 0


# ------------------------------------------------------------------ comparing
def canon(c, x):
    if c == 'held':
        return dict(x) if x else {}
    if c == 'ev':
        out = {}
        for e in x or []:
            out.setdefault(e['p'], []).append(e['x'])
        return out
    if c in ('ex', 'soft', 'force', 'wr'):
        return sorted(x or [])
    if c in ('xs', 'errs'):
        return list(x or [])
    return x


def clauses(fx, a):
    return fx['cl'] + fx['clop'].get(a['op'], [])


def compare(cl, exp, got):
    bad = {}
    for c in cl:
        e, g = canon(c, exp[c]), canon(c, got[c])
        if e != g:
            bad[c] = dict(exp=e, got=g)
    return bad


# ------------------------------------------------------------------ worker
def _die(*_):
    os._exit(77)


def forked(f):
    """runs f in a forked child, with a time limit; returns the exit status"""
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.signal(signal.SIGALRM, _die)
            f()
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


class Replayer:
    def __init__(self, world, fx, edges, out, stop):
        self.w, self.fx, self.out, self.stop = world, fx, out, stop
        self.tree = {}
        for e in edges:
            self.tree.setdefault(tuple(e['h']), []).append(e)

    def report(self, **k):
        with open(self.out, 'a') as f:
            f.write(json.dumps(k) + '\n')

    def stopped(self):
        return os.path.exists(self.stop)

    def perform(self, a):
        signal.alarm(ACTION_TIMEOUT)
        r = self.w.do(a)
        signal.alarm(0)
        return r

    def probes(self, e, h):
        done = []
        for p, o in zip(self.fx['probes'], e['tail']):
            if o.get('skip'):
                continue
            done.append(p)
            got = self.perform(p)
            bad = compare(clauses(self.fx, p), o, got)
            if bad:
                self.report(kind='bad', h=h, a=e['a'], probes=done, wrong=bad)
                return

    def edge(self, e):
        h = e['h']
        a = self.fx['acts'][e['a'] - 1]
        got = self.perform(a)
        bad = compare(clauses(self.fx, a), e['obs'], got)
        if bad:
            self.report(kind='bad', h=h, a=e['a'], probes=[], wrong=bad)
            return
        node = tuple(h) + (e['a'],)
        if node in self.tree:
            if self.fx['probes']:
                self.guard(lambda: self.probes(e, h), e)
            self.dfs(node)
        else:
            self.probes(e, h)

    def guard(self, f, e):
        snap = self.w.snapshot() if self.files else None
        rc = forked(f)
        if snap is not None:
            self.w.restore(snap)
        if rc != 0:
            self.report(kind='bad', h=e['h'], a=e['a'], probes=[], wrong={'crash': dict(exp='', got='exit %s' % rc)})

    def dfs(self, node=(), shard=0, nshards=1):
        self.files = self.fx.get('world') or any(a['op'] in FILE_OPS for a in self.fx['acts'] + self.fx['probes'])
        for n, e in enumerate(self.tree.get(node, ())):
            if n % nshards != shard:
                continue
            if self.stopped():
                return
            self.guard(lambda: self.edge(e), e)


def world_module(fx):
    return importlib.import_module(fx.get('world', 'world'))


def build_world(fx, root):
    return world_module(fx).World(fx, root).build()


def worker_replay(fx, edges, root, out, stop, shard, nshards):
    try:
        try:
            w = build_world(fx, root)
        except BaseException as e:
            with open(out, 'a') as f:
                f.write(json.dumps(dict(kind='bad', h=[], a=0, probes=[], wrong={
                    'build': dict(exp='loads', got=repr(e)[:500] + traceback.format_exc()[-1500:])})) + '\n')
            return
        Replayer(w, fx, edges, out, stop).dfs(shard=shard, nshards=nshards)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def worker_record(fx, n, length, seed, root, out, fxi):
    """records n random traces of the fixture"""
    try:
        try:
            w = build_world(fx, root)
        except BaseException as e:
            with open(out, 'a') as f:
                f.write(json.dumps(dict(op='init', fx=fxi)) + '\n')
                f.write(json.dumps(dict(op='build', fail=repr(e)[:500] + traceback.format_exc()[-1500:])) + '\n')
            return
        snap = w.snapshot()
        for t in range(n):
            def go():
                rng = random.Random('%s-%s' % (seed, t))
                with open(out, 'a') as f:
                    f.write(json.dumps(dict(op='init', fx=fxi)) + '\n')
                    f.flush()
                    for a in w.choose(rng, length):
                        f.write('')
                        signal.alarm(ACTION_TIMEOUT)
                        o = w.do(a)
                        signal.alarm(0)
                        f.write(json.dumps(dict(a, cl=clauses(fx, a), obs=o)) + '\n')
                        f.flush()
            rc = forked(go)
            w.restore(snap)
            if rc != 0:
                with open(out, 'a') as f:
                    f.write(json.dumps(dict(op='build', fail='trace %s of seed %s ended with exit %s' % (t, seed, rc))) + '\n')
                return
    finally:
        shutil.rmtree(root, ignore_errors=True)

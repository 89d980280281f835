"""The check of every property: fixtures, sizes, results, evidence."""
import os
import json
import random
import subprocess
import kernel
import engine
from suites import *
import optsuites as O
import scafsuites as C
import projsuites as P

VIEW_LITS = LITS
EDIT_OPS = {'setfile', 'delkey', 'setsec', 'setbad', 'updsec', 'reload', 'create'}


class Suite:
    """collects the fixtures of one property"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.fxs = []
        self.thorough = tier == 'thorough'

    def rng(self, name):
        return random.Random('%s/%s/%s' % (self.pid, self.seed if self.thorough else 1, name))

    def name(self, s):
        return '%s-%s' % (self.pid, s)

    def random_traces(self, n, gen, pool, cl, clop=None, ntr=25, length=22, nn=False, label='t'):
        """gen(rng, name) -> fixture; pool(fx, rng) -> weighted actions"""
        k = n * (4 if self.thorough else 1)
        made = tries = 0
        while made < k and tries < 20 * k:
            tries += 1
            rng = self.rng('%s%d' % (label, tries))
            fx = gen(rng, self.name('%s%d' % (label, tries)))
            if fx is None:
                continue
            traces(fx, pool(fx, rng), cl)
            fx['nn'], fx['clop'] = nn, clop or {}
            fx['ntr'], fx['len'] = (ntr * 3 if self.thorough else ntr), length
            self.fxs.append(fx)
            made += 1

    def tracefx(self, fx, pool, cl, ntr, length):
        traces(fx, pool, cl)
        fx['ntr'], fx['len'] = (ntr * 3 if self.thorough else ntr), length
        self.fxs.append(fx)

    def random_models(self, n, gen, pool, cl, nacts=9, depth=3, clop=None, nn=False, probes=None, label='m', hdepth=0,
                      tdepth=None):
        """small random projects, with every sequence of a random selection of actions"""
        k = n * (3 if self.thorough else 1)
        made = tries = 0
        while made < k and tries < 20 * k:
            tries += 1
            rng = self.rng('%s%d' % (label, tries))
            fx = gen(rng, self.name('%s%d' % (label, tries)))
            if fx is None:
                continue
            acts, p = [], [(w, x) for w, x in pool(fx, rng) if x]
            for _ in range(200):
                if len(acts) >= nacts + (2 if self.thorough else 0):
                    break
                a = rng.choice(rng.choices([x for _, x in p], [w for w, _ in p])[0])
                if a not in acts:
                    acts.append(a)
            self.model(fx, acts, (tdepth or depth + 1) if self.thorough else depth, cl,
                       probes(fx, rng) if probes else default_probes(fx), hdepth, clop, nn)
            made += 1

    def model(self, fx, acts, depth, cl, probes=None, hdepth=0, clop=None, nn=False):
        model(fx, acts, depth, cl, default_probes(fx) if probes is None else probes, hdepth)
        if 'world' in fx:
            self.fxs.append(fx)
            return
        fx['nn'], fx['clop'] = nn, clop or {}
        transient = any(a['op'] == 'upd' and not a['persist'] or any(not e.get('persist', True) for e in a.get('q', ())
                                                                     if isinstance(e, dict)) for a in acts)
        fx['cfg'] = 'PFCModelE.cfg' if transient or any(a['op'] in EDIT_OPS or a['op'] == 'nodef' for a in acts) else 'PFCModel.cfg'
        self.fxs.append(fx)


def default_probes(fx):
    """make differences in hidden state visible: refresh, then get"""
    its = items(fx)
    return [get(i) for i in its] + [ref(i) for i in its]


def small(**k):
    return lambda rng, name: randfx(rng, name, **{'nitems': rng.randint(2, 4), **k})


def big(**k):
    return lambda rng, name: randfx(rng, name, **k)


# ---------------------------------------------------------------------------- suites
PARAMS = ['d', 'E', 'config_', 'a', 'items', 'update', 'args', 'kwargs', 'section', 'name_', 'func', 'obj', 'config', 'value', 'refresh', 'type', 'item']


def s_C01(S):
    cl = ['ret', 'held']
    def pool(fx, rng, lits=LITS, views=0.1, **k):
        return [(5, p_upd(fx, rng, lits, views=views)), (3, p_get(fx)), (2, p_read(fx)), (2, p_run(fx, rng)),
                (0.6, p_one(fx, 'copy')), (0.5, [dict(op='getsec', i=x) for x in getsecs(fx)]), (0.5, p_call(fx, rng)),
                (0.4, p_one(fx, 'refresh')), (0.3, p_one(fx, 'reset')), (0.3, [reload(m) for m in fx['ms']])]
    S.random_models(4, small(deps=0.2), lambda fx, rng: pool(fx, rng)[:6], cl)
    S.random_models(2, small(odd=True, views=0, deps=0, managers=1), lambda fx, rng: pool(fx, rng, LITS[:4] + ODD, 0)[:6], cl)
    S.random_traces(4, big(deps=0.3), pool, cl)
    S.random_traces(2, big(odd=True, views=0, deps=0.1, secs=0.2), lambda fx, rng: pool(fx, rng, LITS[:4] + ODD * 2, 0), cl)
    S.random_traces(3, lambda rng, name: randfx(rng, name, params=rng.sample(PARAMS, 4), alias=0.3), pool, cl, label='names')
    S.random_traces(2, big(secs=0.4, managers=2, share=0.8, nitems=9), pool, cl, label='share')


def s_C02(S):
    cl = ['ret', 'held']
    clop = {'refresh': ['ev', 'wr']}
    def pool(fx, rng):
        return [(3, p_upd(fx, rng)), (4, p_one(fx, 'refresh')), (3, p_setfile(fx, rng)), (2, p_get(fx, ['str', 'view'])),
                (0.7, p_one(fx, 'reset')), (0.5, p_batch(fx, rng)), (0.3, [reload(m) for m in fx['ms']]),
                (0.5, p_run(fx, rng)), (0.5, p_read(fx))]
    S.random_models(4, small(deps=0.4), lambda fx, rng: pool(fx, rng)[:5], cl, clop=clop, nn=True)
    S.random_models(2, small(deps=0, managers=1, params=['a', 'b']), lambda fx, rng: pool(fx, rng)[:5], cl, clop=clop, nn=True, label='n')
    S.random_traces(6, big(), pool, cl, clop, nn=True)
    S.random_traces(2, big(secs=0.4), pool, cl, clop, nn=True, label='s')
    S.random_traces(2, big(odd=True, views=0, deps=0.1), pool, cl, clop, nn=True, label='o')


def p_resets(fx, rng, n=8):
    return [dict(op='resets', q=[rng.choice(items(fx)) for _ in range(rng.randint(1, 3))], form=rng.choice(['str', 'view']))
            for _ in range(n)]


def s_C03(S):
    cl = ['ret', 'held']
    def pool(fx, rng):
        return [(3, p_upd(fx, rng)), (3, p_one(fx, 'reset') + p_one(fx, 'reset', form='view')), (1, p_resets(fx, rng)),
                (2, p_one(fx, 'refresh')), (2, p_setfile(fx, rng)), (2, p_get(fx, ['str', 'view'])),
                (0.4, p_batch(fx, rng)), (0.3, [reload(m) for m in fx['ms']]), (0.5, p_run(fx, rng)), (0.5, p_read(fx))]
    S.random_models(4, small(deps=0.4, secs=0.2), lambda fx, rng: pool(fx, rng)[:6], cl)
    S.random_models(2, small(deps=0, managers=1, params=['a', 'b']), lambda fx, rng: pool(fx, rng)[:5], cl, label='n')
    S.random_traces(5, big(), pool, cl)
    S.random_traces(3, big(secs=0.4), pool, cl, label='s')
    S.random_traces(2, big(odd=True, views=0, deps=0.1), pool, cl, label='o')


def p_setsec(fx, rng, n=8):
    out = []
    for _ in range(n):
        s = rng.choice(list(fx['mem']))
        out.append(dict(op='setsec', i=s, u=kvd({k: rng.choice(LITS[:10]) for k in rng.sample(KEYS + ['zz'], rng.randint(0, 2))})))
    return out


def p_secref(fx, rng, n=12):
    out = []
    for _ in range(n):
        sec = rng.choice(list(fx['mem']))
        its = [i for i in items(fx) if fx['it'][i]['m'] != fx['mof'][sec] and pkeys(fx, i)]
        if not its:
            return []
        ks = rng.sample(KEYS, rng.randint(1, 3))
        r = []
        for k in ks[:-1] or ks:
            i = rng.choice(its)
            r.append(dict(k=k, i=i, k2=rng.choice(pkeys(fx, i))))
        out.append(dict(op='setsec', i=sec, u=kvd({k: rng.choice(LITS[:10]) for k in ks[len(r):]}), r=r))
    return out


def with_absent(gen, n=2, p=1.0, newsec=False):
    """a project in which some items (which no file or body uses) are not in the dict files at first"""
    def g(rng, name):
        fx = gen(rng, name)
        if fx is None:
            return None
        used = {e['i'] for f in fx['file'].values() for e in f.values()} | {o['i'] for f in fx['fns'].values() for o in f['ops']}
        secn = lambda i: fx['it'][i]['secs'][-1]
        c = [i for i in items(fx) if i not in used and (len(fx['mem'][secn(i)]) > 1 or newsec and fx['it'][i]['kind'] == 'spec')
             and i.split('.')[-1] not in fx['alias'].get(fx['it'][i]['m'], {})]
        rng.shuffle(c)
        absent, new = [], []
        for i in c:
            left = [x for x in fx['mem'][secn(i)] if x not in absent and x != i]
            up, s = secn(i).rsplit('.', 1)[0], secn(i)
            if not left and not any(x not in new for x in fx['mem'].get(up, []) if x != s):
                continue
            if (left or newsec and fx['it'][i]['kind'] == 'spec') and len(absent) < n:
                absent.append(i)
                if not left:
                    # a new section comes last
                    new.append(s)
                    fx['mem'][up] = [x for x in fx['mem'].get(up, []) if x != s] + [s]
        if not absent and p == 1.0:
            return None
        fx['absent'], fx['newsec'] = absent, new
        fx['has'] = [i for i in fx['has'] if i not in absent]
        fx['mem'] = {s: [x for x in m if x not in absent] for s, m in fx['mem'].items()}
        fx['file'] = {i: ({} if i in absent else f) for i, f in fx['file'].items()}
        # a created item is written after the main dict items of its section
        return fx
    return g


def p_dicts(fx):
    out = []
    for i in items(fx):
        s = fx['it'][i]['secs'][-1]
        out.append(dict(op='adddict', i=i, sec=s))
    for i in fx['absent']:
        out.append(dict(op='deldict', i=i, sec=fx['it'][i]['secs'][-1]))
    return out


def isolated(fx):
    """no manager's files use items of another manager"""
    return not any(e['i'] and fx['it'][e['i']]['m'] != fx['it'][i]['m'] for i, f in fx['file'].items() for e in f.values())


def with_src(fx):
    """managers whose dict files import their source module"""
    return [m for m in fx['ms'] if any(x['m'] == m and x['kind'] != 'spec' for x in fx['it'].values())]


def s_C04(S):
    cl = ['ret', 'held']
    clop = {'reload': ['wr'], 'setsrc': ['wr'], 'srcbad': ['wr']}
    def secs_of(fx):
        return [x for x in fx['mem'] if fx['mem'][x] and not any(x == m + '.' + d or x.startswith(m + '.' + d + '.') for m in fx['ms'] for d in fx['spec'].get(m, {}))]
    def pool(fx, rng):
        ms = fx['ms']
        return [(4, [reload(m, f) for m in ms for f in ('reload', 'load')]), (2, p_upd(fx, rng)), (2, p_get(fx)),
                (2, p_setfile(fx, rng)), (1.5, p_run(fx, rng)), (1, p_setsec(fx, rng)), (0.5, p_one(fx, 'refresh')),
                (1.5, [dict(op='setsrc', m=m, v=v) for m in ms for v in '123']), (1, p_dicts(fx)),
                (0.7, [dict(op='delkey', i=i, k=k) for i in items(fx) for k in pkeys(fx, i)]),
                (0.5, [dict(op='srcbad', m=m) for m in with_src(fx)] if isolated(fx) else []), (1.5, [dict(op='srcfix', m=m) for m in ms]), (0.5, p_read(fx))]
    S.random_models(5, with_absent(small(secs=0.3, deps=0.1, share=0.8), 1, 0.5), pool, cl, clop=clop, nacts=10)
    S.random_traces(5, with_absent(big(deps=0.15, secs=0.3), 2, 0.5), pool, cl, clop)
    S.random_traces(2, with_absent(big(deps=0.1, managers=2, share=0.7, nitems=8)), pool, cl, clop, label='a')
    S.random_traces(2, with_absent(big(deps=0.3, managers=1, share=0.7, nitems=7)), pool, cl, clop, label='o')
    S.random_traces(2, big(secs=0.3, deps=0.0, views=0, managers=2, share=0.8), lambda fx, rng: [(3, p_get(fx)), (2, [reload(m) for m in fx['ms']]), (2, p_secref(fx, rng, 20)),
                    (2, p_upd(fx, rng)), (1, p_run(fx, rng)), (1, [dict(op='setsrc', m=m, v=v) for m in fx['ms'] for v in '123'])], cl, clop, label='r')
    S.random_traces(2, with_absent(big(deps=0, views=0, managers=2, share=0.7, nitems=8)), pool, cl, clop, label='i')
    # dependencies over managers outlive the reload of others
    S.random_traces(3, big(deps=0.8, managers=2, views=0), lambda fx, rng: [(2, [reload(m, f) for m in fx['ms'] for f in ('reload', 'load')]), (4, p_upd(fx, rng, persist=(True,))),
                    (3, p_get(fx)), (1, p_read(fx)), (0.5, p_one(fx, 'refresh')), (0.5, p_run(fx, rng))], cl, clop, label='d')
    # loads which fail
    def secimp(rng, name):
        fx = randfx(rng, name, deps=0, views=0, secs=0.4, share=0.6, nitems=6)
        return fx and dict(fx, secimp=rng.random() < 0.5)
    S.random_traces(4, secimp, lambda fx, rng: [(3, [dict(op='secbad', i=x) for x in secs_of(fx)]),
                    (4, [dict(op='secfix', i=x) for x in secs_of(fx)]), (3, [reload(m, f) for m in fx['ms'] for f in ('reload', 'load')]),
                    (3, [dict(op='setsrc', m=m, v=v) for m in fx['ms'] for v in '123']), (1, [dict(op='srcbad', m=m) for m in with_src(fx)]), (2, [dict(op='srcfix', m=m) for m in fx['ms']]),
                    (3, p_get(fx)), (2, p_run(fx, rng)), (1, p_upd(fx, rng)), (1, p_dicts(fx)), (1, p_setfile(fx, rng)), (0.5, p_setsec(fx, rng))], cl, clop, label='f')
    S.random_traces(2, with_absent(big(deps=0.1, alias=0.5, share=0.4, nitems=8, kinds=('func', 'cls')), 2, 0.5), pool, cl, clop, label='n')
    # every sequence of loads which fail, edits of the source and loads in both forms
    made = tries = 0
    while made < (6 if S.thorough else 2) and tries < 60:
        tries += 1
        rng = S.rng('x%d' % tries)
        fx = randfx(rng, S.name('x%d' % tries), deps=0, views=0, secs=0.4, share=0.6, nitems=3, managers=1, kinds=('func', 'cls'))
        if not fx or not secs_of(fx):
            continue
        fx['secimp'] = made % 2 == 0
        m, i, x = fx['ms'][0], rng.choice(items(fx)), rng.choice(secs_of(fx))
        runi = dict(op='run', m=m, q=[i], lst=False, form='str')
        S.model(fx, [dict(op='secbad', i=x), dict(op='secfix', i=x), dict(op='setsrc', m=m, v='1'), dict(op='setsrc', m=m, v='3'),
                     reload(m, 'load'), reload(m), runi], 5 if S.thorough else 4, cl, clop=clop,
                probes=[reload(m, 'load'), runi, get(i)])
        made += 1


def s_C05(S):
    cl = ['ret', 'held']
    def pool(fx, rng):
        return [(4, p_get(fx)), (0.5, [dict(op='getsec', i=x) for x in getsecs(fx)]), (2, p_read(fx)), (2, p_run(fx, rng)), (1, p_setsec(fx, rng)), (1, [reload(m) for m in fx['ms']]),
                (1, p_upd(fx, rng)), (1, p_one(fx, 'refresh')), (1, p_one(fx, 'reset')), (0.5, p_setfile(fx, rng))]
    S.random_models(6, small(secs=0.7, deps=0.1), pool, cl, nacts=9)
    S.random_traces(6, big(secs=0.6, deps=0.15, mixed=0.5), pool, cl)
    S.random_traces(4, big(secs=0.8, deps=0.0, share=0.8, kinds=('func', 'cls', 'spec')), pool, cl, label='k')
    S.random_traces(2, big(secs=0.6, deps=0.0, managers=2), lambda fx, rng: [(3, p_get(fx)), (1, [reload(m) for m in fx['ms']]), (2, p_setsec(fx, rng, 30))], cl, label='e')
    S.random_traces(2, big(secs=0.3, deps=0.0, views=0, managers=2, share=0.8), lambda fx, rng: [(3, p_get(fx)), (1.5, [reload(m) for m in fx['ms']]), (2, p_secref(fx, rng, 20)),
                    (2, p_upd(fx, rng)), (1, p_run(fx, rng)), (0.5, p_one(fx, 'reset')), (0.5, p_one(fx, 'refresh'))], cl + ['ex', 'force'], label='r')


def s_C06(S):
    cl = ['ret', 'held']
    def pool(fx, rng):
        return [(3, p_get(fx)), (4, p_upd(fx, rng, views=0.05)), (2, p_one(fx, 'reset')), (2, p_one(fx, 'refresh')),
                (1, p_setfile(fx, rng, 8)), (1, p_read(fx)), (1, p_run(fx, rng)), (0.5, p_resets(fx, rng)), (0.5, p_batch(fx, rng)),
                (0.3, [reload(m) for m in fx['ms']])]
    dep = dict(deps=0.9, views=0)
    def ppool(fx, rng):
        return [(4, p_upd(fx, rng, persist=(True,)))] + [x for x in pool(fx, rng)[:4] if x[1][0]['op'] != 'upd']
    S.random_models(4, small(**dep), ppool, cl)
    S.random_models(3, small(**dep), lambda fx, rng: pool(fx, rng)[:4], cl, nn=True, label='n')
    S.random_traces(4, big(**dep), lambda fx, rng: [x for x in pool(fx, rng)], cl)
    S.random_traces(3, big(bodies=0.4, **dep), pool, cl, label='b')
    S.random_traces(2, big(secs=0.3, **dep), pool, cl, label='s')
    S.random_traces(3, big(managers=3, nitems=8, alias=0.5, **dep), lambda fx, rng: pool(fx, rng)[:4] , cl, nn=True, label='n')
    S.random_traces(2, big(odd=True, **dep), lambda fx, rng: [(4, p_upd(fx, rng, LITS[:4] + ODD, persist=(True,)))] + pool(fx, rng)[:4], cl, label='o')


def s_C07(S):
    cl = ['soft', 'force', 'stk', 'xs']
    ops = ('attr', 'get', 'run', 'call', 'try', 'run')
    def pool(fx, rng):
        return [(5, p_run(fx, rng, 30)), (2, p_upd(fx, rng, ['i1', 'i2', 'sx'])), (1, p_get(fx)), (1, p_read(fx)), (0.6, p_call(fx, rng)),
                (0.3, [dict(op='getsec', i=x) for x in getsecs(fx)]),
                (0.5, p_one(fx, 'refresh')), (0.5, p_one(fx, 'reset')), (0.3, [reload(m) for m in fx['ms']]), (0.4, p_miss(fx, rng)),
                (0.3, [dict(op='setbad', i=i) for i in items(fx)]), (0.6, [dict(op='fixbad', i=i) for i in items(fx)])]
    g = dict(bodies=0.8, body_ops=ops, raising=0.4, deps=0.4)
    S.random_models(5, small(**g), lambda fx, rng: pool(fx, rng)[:6], cl)
    S.random_traces(7, big(**g), pool, cl)
    S.random_traces(3, big(managers=2, share=0.8, **g), pool, cl, label='sh')
    S.random_traces(3, big(alias=0.5, quits=0.3, **g), pool, cl, label='q')


def s_C08(S):
    cl = ['ret', 'held']
    def pool(fx, rng):
        return [(5, p_get(fx)), (3, p_upd(fx, rng)), (1.5, p_one(fx, 'refresh')), (1.5, p_one(fx, 'reset')), (2, p_run(fx, rng)),
                (0.7, [dict(op='getsec', i=x) for x in getsecs(fx)]), (0.6, [reload(m) for m in fx['ms']]),
                (0.7, p_call(fx, rng)), (0.5, p_read(fx)), (0.4, p_batch(fx, rng)), (0.5, p_one(fx, 'copy'))]
    g = dict(deps=0.2, share=0.6, kinds=('func', 'cls', 'spec', 'cls'))
    S.random_models(5, small(**g), pool, cl, nn=True)
    S.random_traces(6, big(**g), pool, cl, nn=True)
    S.random_traces(3, big(deps=0.1, share=0.9, nitems=9, managers=2, alias=0.3), pool, cl, nn=True, label='s')
    S.random_traces(2, big(odd=True, deps=0, views=0), pool, cl, nn=True, label='o')


def plugged(gen, prerun=False):
    def g(rng, name):
        fx = gen(rng, name)
        if fx is None:
            return None
        its = items(fx)
        if prerun:
            c = [i for i in its if fx['it'][i]['m'] == fx['ms'][0]]
            if not c:
                return None
            form = fx['prerunform'] = rng.choice(['str', 'view', 'list', 'views', 'inplace'])
            fx['prerun'] = [rng.choice(c) for _ in range(1 if form in ('str', 'view') else rng.randint(1, 3))]
        i = rng.choice(its)
        ks = rng.sample(pkeys(fx, i), min(2, len(pkeys(fx, i))))
        fx['preupd'] = dict(i=i, u=kvd({ks[0]: rng.choice(LITS)}))
        # a second plugin, which adds values of the same item, or of another one
        j = i if len(ks) > 1 and rng.random() < 0.7 else rng.choice([x for x in its if x != i] or [''])
        fx['preupd2'] = dict(i=j, u=kvd({ks[1] if j == i else rng.choice(pkeys(fx, j)): rng.choice(LITS)} if j else {}))
        q = []
        for _ in range(2):
            i = rng.choice(its)
            q.append(dict(i=i, u=kvd({rng.choice(pkeys(fx, i)): rng.choice(LITS)}), persist=True))
        m = rng.choice(fx['ms'])
        q = [e for e in q if e['i'].startswith(m + '.')] or q[:1]
        fx['batch'] = q
        return fx
    return g


def s_C09(S):
    cl = ['ret', 'xs']
    def pool(fx, rng):
        return [(6, p_run(fx, rng, 40)), (1, p_upd(fx, rng)), (1, p_get(fx)), (0.4, [reload(m) for m in fx['ms']]),
                (0.4, p_one(fx, 'reset'))]
    def ppool(fx, rng):
        m = fx['ms'][0]
        pr = [dict(op='plug', p=p) for p in ('prerun', 'postrun')] + [dict(op='unplug', p=p) for p in ('prerun', 'postrun')]
        return pool(fx, rng) + [(1.5, pr)]
    g = dict(deps=0.1, share=0.5)
    S.random_models(4, small(**g), pool, cl)
    S.random_models(3, plugged(small(managers=1, **g), True), ppool, cl, label='p')
    S.random_traces(5, big(nitems=8, rts=0.3, mixed=0.5, **g), pool, cl)
    S.random_traces(3, big(bodies=0.5, rts=0.3, **g), pool, cl, label='b')
    S.random_traces(3, plugged(big(managers=1, **g), True), ppool, cl, label='p')
    S.random_traces(4, big(nitems=9, alias=0.6, kinds=('func', 'func', 'cls'), deps=0.1, share=0.3), pool, cl, label='a')


def failing(fx, rng, p=0.4):
    """many of the items fail with the values of their files"""
    for i in items(fx) if fx else ():
        for o in fx['it'][i]['ops']:
            if o['op'] == 'raiseif' and rng.random() < p and fx['file'][i][o['k']]['t'] == 'lit':
                fx['file'][i][o['k']] = dict(fx['file'][i][o['k']], v=o['v'])
    return fx


def s_C10(S):
    cl = ['ret', 'errs', 'dbg', 'xs', 'held']
    def pool(fx, rng):
        return [(6, p_run(fx, rng, 40, secs=True)), (2, p_upd(fx, rng, ['i1', 'i2', 'i2', 'i3'])), (1, p_get(fx)), (0.5, p_one(fx, 'reset')),
                (0.4, p_one(fx, 'refresh')), (0.3, [reload(m) for m in fx['ms']])]
    def g(mode, **k):
        def f(rng, name):
            return failing(randfx(rng, name, raising=0.8, deps=0.1, rts=0.25, quits=0.2, excs=(0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13),
                                  mode={m: mode for m in 'pqr'}, **k), rng)
        return f
    for mode in ('fc', 'pdb', 'plain'):
        S.random_models(2, g(mode, nitems=3), pool, cl, label='m' + mode)
        S.random_traces(3, g(mode), pool, cl, label='t' + mode)
    def mixed(rng, name):
        return randfx(rng, name, raising=0.6, deps=0.1, rts=0.2, quits=0.2, bodies=0.5, body_ops=('run', 'try', 'attr'), managers=2,
                      mode={'p': rng.choice(['plain', 'pdb']), 'q': rng.choice(['pdb', 'plain'])})
    S.random_traces(3, mixed, pool, cl, label='x')


def s_C11(S):
    cl = ['ret', 'held', 'xs']
    clop = {o: ['ev'] for o in ('prod', 'pcase', 'pall', 'pstart')}
    PL = [dict(op=o, p=p) for o in ('plug', 'unplug') for p in ('cases', 'modcases', 'onecase', 'nocases')]
    def pool(fx, rng):
        return [(2, p_prod(fx, rng, 16)), (4, P_STEPS), (1, P_ALL), (1.5, p_upd(fx, rng)), (0.7, p_one(fx, 'refresh')),
                (0.7, p_setfile(fx, rng)), (0.5, p_run(fx, rng)), (0.5, p_get(fx)), (0.4, p_one(fx, 'reset'))]
    def ppool(fx, rng):
        return pool(fx, rng) + [(1.2, PL)]
    S.random_models(4, small(deps=0.4, views=0), lambda fx, rng: pool(fx, rng)[:5] , cl, clop=clop, nacts=9)
    S.random_models(2, small(deps=0.3, views=0), lambda fx, rng: [(5, [a for a in p_prod(fx, rng, 40) if a['op'] == 'prod']), (2, PL), (1, p_upd(fx, rng))], cl, clop=clop, label='p')
    S.random_traces(5, big(deps=0.4, views=0), pool, cl, clop)
    S.random_traces(3, big(deps=0.2, views=0, managers=2, rts=0.4, alias=0.3), ppool, cl, clop, label='m')
    S.random_traces(2, big(deps=0.2, views=0, bodies=0.4), pool, cl, clop, label='b')
    S.random_traces(2, big(deps=0.3, views=0), lambda fx, rng: ppool(fx, rng)[:1] * 3 + ppool(fx, rng)[1:], cl, clop, label='pl')
    S.random_traces(2, big(deps=0.0, views=0, odd=True, secs=0.3), lambda fx, rng: [(2, p_prod(fx, rng, 16, LITS[:3] + ODD))] + pool(fx, rng)[1:], cl, clop, label='o')
    # items which modify the lists they are given: neither the passed entries nor other cases change
    def mutate(rng, name):
        fx = randfx(rng, name, deps=0, views=0, share=0, own=0)
        for i in fx['it'] if fx else ():
            for f in (fx['file'][i], fx['it'][i]['dflt']):
                for k, e in f.items():
                    if e['v'].startswith('['):
                        f[k] = L('i5')
        if fx:
            fx['mutate'] = True
        return fx
    def mpool(fx, rng):
        out = []
        for i in items(fx):
            for _ in range(3):
                q = [dict(i=i, u=kvd({pkeys(fx, i)[0]: rng.choice(['[i1;i2]', '[]', 'i3'])}), persist=True) for _ in range(rng.randint(1, 3))]
                out.append(dict(op='prod', items=[i], lst=rng.random() < 0.5, q=q, form=rng.choice(['pm', 'ir'])))
        return [(3, out), (0.3, p_get(fx))]
    S.random_traces(3, mutate, mpool, cl, label='mut')


def s_C12(S):
    cl = ['ret', 'held']
    clop = {'batch': ['ev']}
    def pool(fx, rng):
        return [(5, p_batch(fx, rng, 25)), (2, p_upd(fx, rng)), (1.5, p_one(fx, 'refresh')), (1.5, p_get(fx)),
                (0.7, p_one(fx, 'reset')), (0.4, p_read(fx)), (0.3, [reload(m) for m in fx['ms']])]
    def ppool(fx, rng):
        return pool(fx, rng) + [(1.5, [dict(op='plug', p='batch'), dict(op='unplug', p='batch')])]
    S.random_models(4, small(deps=0.4), lambda fx, rng: pool(fx, rng)[:5], cl, clop=clop)
    S.random_models(2, plugged(small(deps=0.2)), ppool, cl, clop=clop, label='p')
    S.random_traces(6, big(alias=0.2), pool, cl, clop)
    S.random_traces(3, plugged(big(deps=0.2)), ppool, cl, clop, label='p')
    S.random_traces(2, big(odd=True, deps=0, views=0), lambda fx, rng: [(5, p_batch(fx, rng, 25, LITS[:3] + ODD))] + pool(fx, rng)[1:], cl, clop, label='o')


def s_C13(S):
    cl = ['ev']
    def pool(fx, rng):
        return [(3, p_upd(fx, rng)), (2, p_one(fx, 'refresh')), (2, p_one(fx, 'reset')), (2, p_get(fx, ['str', 'view'])), (1, p_setfile(fx, rng)),
                (0.7, p_batch(fx, rng)), (0.4, p_resets(fx, rng)), (0.3, [reload(m) for m in fx['ms']]), (0.3, p_run(fx, rng)),
                (1.2, [dict(op=o, p=p) for o in ('plug', 'unplug') for p in ('preupd', 'preupd2', 'batch', 'rec')])]
    def pool2(fx, rng):
        return [(w, x) for w, x in pool(fx, rng) if x[0]['op'] != 'setfile']
    S.random_models(4, plugged(small(deps=0.6, views=0)), pool, cl, clop={'get': ['ret', 'held'], 'upd': ['ret']})
    S.random_models(2, plugged(small(deps=0.9, views=0)), lambda fx, rng: pool(fx, rng)[:4], cl, label='d')
    S.random_traces(6, plugged(big(deps=0.4)), pool, cl, {'get': ['ret', 'held'], 'upd': ['ret']})
    S.random_traces(3, plugged(big(secs=0.4)), pool, cl, {'get': ['ret', 'held'], 'upd': ['ret']}, label='s')
    S.random_traces(3, plugged(big(odd=True, deps=0.8, views=0)), lambda fx, rng: [(3, p_upd(fx, rng, LITS[:4] + ODD))] + pool(fx, rng), cl, label='o')
    S.random_traces(2, plugged(big(deps=0, managers=1, nitems=3, params=['a', 'b', 'c'])), lambda fx, rng: [(5, [a for a in p_upd(fx, rng, n=80) if a['i'] == fx['preupd']['i']]),
                    (1.5, [dict(op=o, p=p) for o in ('plug', 'plug', 'unplug') for p in ('preupd', 'preupd2')]), (1, p_get(fx))], cl, {'get': ['ret', 'held'], 'upd': ['ret']}, label='p')


def s_C14(S):
    cl = ['ret']
    clop = {op: ['file', 'val', 'got', 'sec', 'idem', 'dict', 'stray'] for op in ('load', 'create')}
    def pool(fx, rng, sigs, form):
        return [(5, [C.load(form)]), (4, C.a_ins(rng, fx, 30)), (2, C.a_write(rng, fx, 15)), (2, C.a_subs(rng, fx, 20)), (2, C.a_subs(rng, fx, 10, 'del')),
                (1, C.a_delb(rng, fx, 20)), (0.5, C.a_each(rng, fx, 'rm')), (1.5, C.a_form(rng, fx, 10, not sigs)), (1.5, C.a_sig(fx)),
                (0.5, C.a_each(rng, fx, 'drop') if sigs else []), (0.8, C.a_each(rng, fx, 'add') if sigs else []), (4, C.a_each(rng, fx, 'create') if len(fx['initial']) < len(fx['ids']) else []), (0.7, C.a_sec(rng, fx, 5))]
    def traced(label, n, ntr, length, form='fresh', **k):
        for m in range(n * (4 if S.thorough else 1)):
            rng = S.rng('%s%d' % (label, m))
            sigs = k.get('nsigs', 1) > 1
            fx = C.project(rng, S.name('%s%d' % (label, m)), **k)
            fx['clop'] = clop
            S.tracefx(fx, [x for x in pool(fx, rng, sigs, form) if x[1]], cl, ntr, length)
    # every kind of signature, as scaffolded
    traced('g', 10, 1, 4, nitems=9, nblocks=4, nparams=(2, 6), anns=0.6, nmods=3)
    # what users write
    traced('t', 8, 10, 16, nblocks=24)
    traced('s', 4, 10, 16, nsigs=3, nblocks=16)
    traced('r', 4, 8, 16, form='reload', nsigs=2, nblocks=16)
    traced('l', 4, 10, 14, forms=C.LEADS + ['plain', 'comment', 'copy', 'readsel', 'text'], nblocks=16, kinds=('func',))
    traced('a', 3, 8, 14, kinds=('spec',), nblocks=10, nitems=2)
    traced('c', 3, 8, 10, nsigs=2, nblocks=8, nitems=4, later=True, kinds=('func', 'cls', 'spec', 'spec'))
    for n, form in enumerate(['both', 'noass', 'both', 'lits', 'both', 'imp', 'noimp', 'onlyimp', 'none', 'both'][:10 if S.thorough else 5]):
        traced('d%d' % n, 1, 5, 8, nblocks=4, nitems=5, later=True, kinds=('spec',), aforms=[form])
    for n in range(12 if S.thorough else 5):
        rng = S.rng('m%d' % n)
        fx = C.project(rng, S.name('m%d' % n), nitems=2, nblocks=6, nsigs=rng.choice([1, 2]), nparams=(1, 3))
        fx['clop'] = clop
        p = [(w, x) for w, x in pool(fx, rng, fx['items'][fx['ids'][0]]['sigs'][1:], 'fresh') if x]
        acts = [C.load()]
        while len(acts) < (9 if S.thorough else 8):
            a = rng.choice(rng.choices([x for _, x in p], [w for w, _ in p])[0])
            if a not in acts:
                acts.append(a)
        S.model(fx, acts, 4 if S.thorough else 3, cl, [C.load()])


def s_C15(S):
    cl = ['ret', 'held']
    clop = {'create': ['wr'], 'reload': ['wr']}
    def pool(fx, rng):
        cr = [dict(op='create', i=i) for i in fx['absent']]
        near = [x for x in p_get(fx) + p_upd(fx, rng) + p_read(fx) if x['i'] in fx['absent']]
        return [(3, cr), (3, near), (2, p_get(fx)), (1.5, p_upd(fx, rng)), (1.5, p_run(fx, rng)), (1, [reload(m) for m in fx['ms']]),
                (0.6, p_one(fx, 'refresh')), (0.6, p_one(fx, 'reset')), (0.7, p_setfile(fx, rng)), (0.6, [dict(op='in', i=i, old=False) for i in items(fx)])]
    g = dict(deps=0.3, views=0, nested=True)
    S.random_models(5, with_absent(small(secs=0.2, **g), 2), pool, cl, clop=clop)
    S.random_traces(6, with_absent(big(**g), 3), pool, cl, clop)
    S.random_traces(4, with_absent(big(secs=0.3, kinds=('func', 'cls', 'spec', 'spec'), **g), 3), pool, cl, clop, label='s')
    S.random_traces(8, with_absent(big(kinds=('func', 'spec', 'spec', 'spec'), keyattr=0.7, **g), 4, newsec=True), pool, cl, clop, label='n', ntr=12)


def alike(rng, name):
    """two managers with items of which the paths are alike"""
    a, b = rng.choice([('p', 'xp'), ('p', 'pp'), ('q', 'p'), ('s', 'ss')])
    fns = {x: dict(kind=rng.choice(['func', 'cls']), ps=['a'], m=m, dflt={'a': rng.choice(LITS[:5])}) for m, x in ((a, 'f'), (a, 'g'), (b, 'h'), (b, 'k'))}
    t1 = {'s': ['f', {'p': ['g']}] if rng.random() < 0.5 else ['f', 'g'], 't': {'s': ['f']}}
    t2 = {'s': ['f', 'g'], 't': {'s': ['f']}, a: {'s': ['f']}}
    return fixture(name, {a: t1, b: t2}, fns, alias={a: {}, b: {'f': 'h', 'g': 'k'}})


def s_C16(S):
    cl = ['ret', 'held', 'ex']
    def pool(fx, rng):
        look = p_look(fx, rng)
        return [(4, look), (1, [a for a in look if a.get('w') == 'list']), (2, p_read(fx)), (1.5, p_one(fx, 'copy')), (1.5, p_call(fx, rng)),
                (1.5, p_upd(fx, rng, views=0.1)), (1, p_get(fx, ['view', 'selview', 'item'])), (0.5, [reload(m) for m in fx['ms']]),
                (0.5, p_one(fx, 'refresh')), (0.4, p_run(fx, rng)), (0.5, p_setfile(fx, rng))]
    S.random_models(4, small(deps=0.3), pool, cl)
    S.random_traces(2, alike, pool, cl, label='alike')
    S.random_traces(5, big(deps=0.3, views=0.3), pool, cl)
    S.random_traces(2, big(deps=0.1, views=0.2, mixed=1.0, managers=1, nitems=9, kinds=('func', 'cls')), pool, cl, label='x')
    S.random_traces(2, big(deps=0.1, managers=3, share=0.4, mixed=0.3), pool, cl, label='y')
    S.random_traces(3, big(deps=0.1, views=0.5, managers=2, share=0.8), pool, cl, label='s')
    S.random_traces(2, big(bodies=0.4, deps=0.2, alias=0.4, rts=0.3), pool, cl, label='b')


def s_C17(S):
    cl = ['ret', 'opt', 'h', 'hp', 'rec', 'files']
    probes = [dict(op='log', v='t9001;'), dict(op='exit', exc=True), dict(op='resetall'), dict(op='log', v='t9002;')]
    for n in range(12 if S.thorough else 5):
        rng, tok = S.rng('m%d' % n), O.Tok()
        fx = O.base(S.name('m%d' % n))
        acts = O.sets(rng, 3) + O.sets(rng, 3, ['lf'], 0.2) + O.multi(rng, 'sets', 1) + O.resets(rng, 2) + O.multi(rng, 'enter', 2) + \
            [rng.choice(O.EXITS)] + O.RESETALL + O.talk(rng, tok, 1)
        acts = [a for k, a in enumerate(acts) if a not in acts[:k]]
        S.model(fx, acts, 4 if S.thorough else 3, cl, probes)
    for n in range(24 if S.thorough else 8):
        rng, tok = S.rng('t%d' % n), O.Tok()
        fx = O.base(S.name('t%d' % n))
        bad = rng.choice([0, 0.1, 0.3])
        pool = [(4, O.sets(rng, 20, bad=bad)), (2, O.sets(rng, 10, ['lf'], bad)), (2, O.multi(rng, 'sets', 8, bad)), (2, O.resets(rng)),
                (2, O.multi(rng, 'enter', 8, bad)), (1.5, O.EXITS), (0.7, O.RESETALL), (2, O.talk(rng, tok))]
        S.tracefx(fx, pool, cl, ntr=25, length=40)


def s_C18(S):
    cl = ['ret', 'rec', 'out', 'same', 'files', 'dbg', 'opt']
    modes = [{'p': 'plain'}, {'p': 'fc'}, {'p': 'pdb'}, {'p': 'plain', 'q': 'fc'}, {'p': 'pdb', 'q': 'plain'}, {'p': 'fc', 'q': 'pdb'}]
    def gen(rng, name, tok, n, **k):
        mode = rng.choice(modes)
        return O.base(name, mode, O.programs(rng, n, mode, tok, **k))
    on = [dict(op='set', q=[dict(o='so', v=v)], form=f) for v, f in (('T', 'value'), ('F', 'one'), ('T', 'many'))]
    def extra(rng, tok):
        return O.sets(rng, 2, ['lf'], 0) + O.says(rng, tok, 1) + O.multi(rng, 'enter', 1) + [rng.choice(O.EXITS), rng.choice(O.REDIRECT)]
    probes = [dict(op='print', v='t9001;', form='print'), dict(op='log', v='t9002;')]
    for n in range(18 if S.thorough else 7):
        rng, tok = S.rng('m%d' % n), O.Tok()
        fx = gen(rng, S.name('m%d' % n), tok, 4)
        acts = on[:2] + O.runs(rng, fx, 5) + extra(rng, tok)
        acts = [a for k, a in enumerate(acts) if a not in acts[:k]]
        S.model(fx, acts, 4 if S.thorough else 3, cl, probes)
    for n in range(40 if S.thorough else 12):
        rng, tok = S.rng('t%d' % n), O.Tok()
        fx = gen(rng, S.name('t%d' % n), tok, rng.randint(3, 7), setting=rng.choice([0, 0.2, 0.35]), raising=rng.choice([0, 0.3, 0.6]))
        pool = [(3, on), (6, O.runs(rng, fx, 20)), (1, O.calls(fx)), (1, extra(rng, tok)), (0.5, O.RESETALL), (1, O.talk(rng, tok) + O.says(rng, tok)), (0.5, O.REDIRECT)]
        S.tracefx(fx, pool, cl, ntr=20, length=25)


def s_C19(S):
    cl = ['ret', 'held']
    clop = {k: ['ex', 'ev', 'soft', 'force', 'stk', 'wr'] for k in ('miss', 'noop')}
    def pool(fx, rng):
        return [(5, p_miss(fx, rng)), (4, p_get(fx)), (1, p_read(fx)), (0.5, [dict(op='noattr', i=i) for i in items(fx)]), (1.5, p_upd(fx, rng)), (1.5, p_run(fx, rng)), (0.5, p_one(fx, 'refresh')),
                (0.5, p_one(fx, 'reset')), (0.4, [reload(m) for m in fx['ms']]), (0.5, p_look(fx, rng))]
    S.random_models(5, small(deps=0.1, share=0.7), pool, cl, clop=clop)
    S.random_traces(6, big(deps=0.1, share=0.7), pool, cl, clop)
    S.random_traces(4, big(deps=0.1, share=0.9, managers=2, nitems=9), pool, cl, clop, label='s')
    S.random_traces(3, big(deps=0.1, share=0.4, alias=0.6, nitems=8, kinds=('func', 'cls', 'cls')), pool, cl, clop, label='a')


def s_C20(S):
    cl = ['ret', 'ex']
    def pool(fx, rng):
        return [(3, p_get(fx)), (1, p_read(fx)), (1.5, p_upd(fx, rng)), (1.5, p_run(fx, rng)), (1, p_call(fx, rng)), (1, p_one(fx, 'refresh')), (0.8, p_one(fx, 'reset')),
                (1, [reload(m, f) for m in fx['ms'] for f in ('reload', 'load')]), (1, p_look(fx, rng)),
                (1, p_setfile(fx, rng)), (1.2, [dict(op='setbad', i=i) for i in items(fx)]), (1.5, [dict(op='fixbad', i=i) for i in items(fx)])]
    S.random_models(5, small(deps=0.0, views=0.4), pool, cl, clop={'get': ['held']})
    S.random_traces(6, big(deps=0.0, views=0.4), pool, cl, {'get': ['held']})
    S.random_traces(4, big(deps=0.5, views=0.2), lambda fx, rng: pool(fx, rng)[:-3], cl, label='d')


def s_C21(S):
    cl = ['ret', 'warn', 'fs', 'act']
    for n in range(12 if S.thorough else 4):
        rng = S.rng('m%d' % n)
        fx = P.base(S.name('m%d' % n), rng)
        acts = P.new(rng, fx, 5) + P.user(rng, fx, 4) + P.log(rng, fx, 2) + [rng.choice(P.loads(fx))] + [rng.choice(P.REST)]
        acts = [a for k, a in enumerate(acts) if a not in acts[:k]]
        S.model(fx, acts, 4 if S.thorough else 3, cl, P.find(rng, fx, 2) + [a for a in P.loads(fx) if a['op'] == 'vals'][::2] + [dict(op='drop')])
    for n in range(30 if S.thorough else 10):
        rng = S.rng('t%d' % n)
        fx = P.base(S.name('t%d' % n), rng, projs=rng.choice([2, 3]), names=rng.choice([2, 3]))
        pool = [(3, P.new(rng, fx, 20)), (3, P.user(rng, fx, 30)), (1, P.log(rng, fx, 6)), (2, P.find(rng, fx, 20)), (3, P.loads(fx)), (0.7, P.REST)]
        S.tracefx(fx, pool, cl, ntr=20, length=30)


def s_C22(S):
    cl = ['ret', 'held', 'ev', 'xs']
    PL = ('preupd', 'preupd2', 'batch', 'rec', 'prerun', 'postrun', 'cases', 'onecase', 'modcases', 'nocases')
    def ctl(fx, ps=PL):
        return [dict(op=o, p=p) for o in ('plug', 'unplug') for p in ps if p not in ('prerun', 'postrun') or len(fx['ms']) == 1]
    DEF = [dict(op='nodef'), dict(op='resetpl'), dict(op='resetpl')]
    def pool(fx, rng):
        return [(3, p_upd(fx, rng)), (2, p_batch(fx, rng)), (1.5, p_one(fx, 'refresh')), (0.7, p_one(fx, 'reset')), (2, p_get(fx)), (1, p_setfile(fx, rng)),
                (1, p_run(fx, rng)), (2, [a for a in p_prod(fx, rng, 16) if a['op'] == 'prod']), (0.3, [reload(m) for m in fx['ms']]), (3, ctl(fx)), (1.5, DEF), (0.3, p_read(fx))]
    def mpool(fx, rng):
        p = pool(fx, rng)
        some = rng.sample(PL, 3)
        return [p[0], p[1], p[2], p[7], (3, ctl(fx, some)), (5, DEF)]
    S.random_models(4, plugged(small(deps=0.7, views=0), True), mpool, cl, nacts=9)
    S.random_models(2, plugged(small(deps=0.5, managers=1, views=0), True), mpool, cl, nacts=9, label='s')
    S.random_traces(5, plugged(big(deps=0.6), True), pool, cl)
    S.random_traces(3, plugged(big(deps=0.4, managers=1), True), pool, cl, label='s')
    S.random_traces(2, plugged(big(deps=0.7, views=0, secs=0.4), True), pool, cl, label='d')
    # runners constructed before the plugins change
    S.random_traces(3, plugged(big(deps=0.4), True), lambda fx, rng: [(4, p_prod(fx, rng, 16)), (4, P_STEPS), (0.5, P_ALL), (2, DEF), (3, ctl(fx)), (1, p_upd(fx, rng)), (0.5, p_run(fx, rng)), (0.5, p_get(fx))], cl, label='g')


KERNEL = {k[2:]: v for k, v in list(globals().items()) if k.startswith('s_C')}


class Result(kernel.Result):
    def __init__(self):
        super().__init__()
        self.known = []
        self.extra = {}

    def summary(self):
        return '%d violations; model: %d states, %d transitions replayed; %d traces, %d steps validated; %s' % (
            len(self.violations), self.model_states, self.transitions, self.traces, self.lines, json.dumps(self.extra))


def run(pid, tier, seed, wd):
    res = Result()
    if pid in KERNEL:
        S = Suite(pid, tier, seed)
        KERNEL[pid](S)
        kernel.check(S.fxs, wd, dict(seed=seed), res)
        res.nfx = len(S.fxs)
    return res


ASSUME = [
    'exploration is bounded: the fixtures, action sets, depths and trace lengths of this run (counts in coverage)',
    'values are compared through an injective encoding made by the harness; one process, no concurrency',
    'TLC, the CommunityModules and the harness (world.py, engine.py, kernel.py) are trusted',
]


def evidence(pid, tier, seed, res, dt):
    try:
        sd = int(seed)
    except ValueError:
        sd = 0
    d = os.path.join(engine.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    cov = dict(states=res.model_states, transitions=res.transitions, traces_validated_against_impl=res.traces,
               trace_steps_validated=res.lines, trace_steps_skipped=res.skipped, fixtures=getattr(res, 'nfx', 0),
               actions=dict(sorted(res.ops.items())), samples=res.samples or ['none'], known_findings=len(res.known), **res.extra)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(dict(property=pid, tier=tier, seed=sd, level='model_checking', coverage=cov, assumptions=ASSUME,
                       wall_s=round(dt, 1), violations=len(res.violations)), f, indent=1)
        f.write('\n')

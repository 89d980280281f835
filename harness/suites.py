"""Fixtures, action sets and sizes of the kernel checks, per property."""
import random
from world import fixture, L, V, A, C

def kv(**u):
    return [dict(k=k, v=v) for k, v in u.items()]


def kvd(u):
    return [dict(k=k, v=v) for k, v in u.items()]


def get(i, route='str'):
    return dict(op='get', i=i, route=route)


def upd(i, persist=True, form='kw', **u):
    return dict(op='upd', i=i, u=kv(**u), persist=persist, form=form)


def run(m, *q, lst=None, form='str'):
    return dict(op='run', m=m, q=list(q), lst=(len(q) > 1) if lst is None else lst, form=form)


def ref(i):
    return dict(op='refresh', i=i)


def reset(i, form='str'):
    return dict(op='reset', i=i, form=form)


def reload(m, form='reload'):
    return dict(op='reload', m=m, form=form)


def setf(i, k, e):
    return dict(op='setfile', i=i, k=k, e=e)


def read(i, k='a', old=False):
    return dict(op='read', i=i, k=k, old=old)


def ent(i, persist=True, **u):
    return dict(i=i, u=kv(**u), persist=persist)


ROUTES = ['str', 'view', 'selview', 'attr', 'item']


def model(fx, acts, depth, cl, probes=(), hdepth=0):
    fx['acts'], fx['depth'], fx['probes'], fx['hdepth'], fx['cl'] = list(acts), depth, list(probes), hdepth, list(cl)
    fx['pool'] = []
    return fx


def traces(fx, pool, cl):
    fx['acts'], fx['depth'], fx['probes'], fx['hdepth'], fx['cl'] = [], 0, [], 0, list(cl)
    fx['pool'] = [(w, list(x)) for w, x in pool if x]
    return fx


# ---------------------------------------------------------------------------- random project layouts
LITS = ['i1', 'i2', 'i3', 'sx', 'sy', 'N', '[i1;i2]', '{sk:i1}', 'f1.5', '[]', 'i0', 's']
ODD = ['arr[1;2]', 'arr[3;4]', 'nan', 'df{1;2}', 'len', 'big1', 'big2', 'bdf1', 'bdf2', 'df{1.0;2.0}', 'dfd{1;2}', 'ser{1;2}', 'arr[1;1]', 'uneq']
KEYS = ['a', 'b', 'c']
RTS = ['list', 'tuple', 'none', 'zero', 'empty', 'false', 'exc', 'str', 'dict']
HIDDEN = ('type', 'item')       # parameters which views do not show, because views have attributes of these names


def randfx(rng, name, managers=None, nitems=None, kinds=('func', 'func', 'cls', 'spec'), deps=0.45, views=0.15, secs=0.0,
           bodies=0.0, body_ops=('attr', 'get', 'run', 'call'), odd=False, share=0.4, raising=0.0, mode=None,
           keys=KEYS, own=0.5, nested=True, params=None, alias=0.0, rts=0.0, excs=True, keyattr=0.3, mixed=0.0, quits=0.0,
           specnest=None):
    specnest = rng.random() < 0.3 if specnest is None else specnest
    nm = managers or rng.choice([1, 2, 2])
    ms = rng.choice([['p', 'q', 'r'], ['p', 'pa', 'pab'], ['pa', 'p', 'q'], ['p', 'xp', 'q'], ['xp', 'p', 's'], ['s', 'p', 'u']])[:nm]
    mode = {m: (mode or {}).get(k, 'plain') for m, k in zip(ms, 'pqr')}
    lits = LITS + (ODD if odd else [])
    n = nitems or rng.randint(4, 7)
    names = ['f', 'g', 'h', 'K', 'M', 'u', 'v']
    fns, trees, spec, files, order = {}, {m: {} for m in ms}, {}, {}, []
    names_ = {m: {} for m in ms}       # name in the pipeline dict -> function or class
    dspec = {}
    seccount = {}

    def exc():
        return rng.choice(range(14) if excs is True else excs or (0,))

    def put(node, sec, leaf):
        parts = sec.split('.')
        for part in parts[:-1]:
            nxt = node.setdefault(part, {})
            if isinstance(nxt, list):
                # a section in a list of items
                if not mixed or rng.random() > mixed or part in nxt:
                    return False
                d = [x for x in nxt if isinstance(x, dict)]
                if not d:
                    d = [{}]
                    nxt.insert(rng.randint(0, len(nxt)), d[0])
                nxt = d[0]
            node = nxt
        last = node.setdefault(parts[-1], [])
        if isinstance(last, dict):
            return False
        if any(leaf == x or isinstance(x, dict) and leaf in x for x in last):
            return False
        last.append(leaf)
        return True

    secpool = (['s', 't', 'u.v', 'u.s', 'w.s.x'] + rng.sample(['p.s', 's.s', 'w.w.x', 'u.v.u', 't.s.s', 's.p'], 2) + (['s.m', 't.m', 's.n'] if mixed else [])) if nested else ['s', 't']
    dnames = {m: ['d', 'e'] if m == ms[0] else ['d'] for m in ms}
    cnt = 0
    while len(order) < n:
        cnt += 1
        m = rng.choice(ms)
        kind = rng.choice(kinds)
        ps = params or rng.sample(keys, rng.randint(1, len(keys)))
        if 'a' not in ps and not params:
            ps = ['a'] + ps
        if kind == 'spec':
            dn = rng.choice(dnames[m])
            d = dspec.setdefault((m, dn), None)
            if d is None:
                cls = 'D%s%s' % (m, dn)
                dspec[(m, dn)] = cls
                key = 'ident' if rng.random() < keyattr else 'name'
                execs = ['__call__', 'go', 'go2']
                if spec.get(m) and rng.random() < 0.6:
                    # two dicts of one class, which is executed in different ways
                    o = list(spec[m].values())[0]
                    cls, key = o['cls'], o['key']
                    execs.remove(o['exec'])
                else:
                    fns[cls] = dict(kind='spec', ps=[key] + ps, m=m, upd=rng.random() < 0.4, exc=exc(), own=rng.random() < own,
                                    rt=rng.choice(RTS) if rts and rng.random() < rts else 'res')
                spec.setdefault(m, {})[dn] = dict(cls=cls, exec=rng.choice(execs), tree={}, key=key)
            tree = spec[m][dn]['tree']
            sec = rng.choice(['s', 'x', 'y'] if not specnest else ['s', 'x.s', 'x.y', 'y.d.x', 'x.x', 's.d' if rng.random() < 0.2 else 'x.x.y'])
            leaf = rng.choice(['one', 'two', 'f', 'my'])
            if not put(tree, sec, leaf):
                continue
            order.append('%s.%s.%s.%s' % (m, dn, sec, leaf))
        else:
            fn = None
            if fns and rng.random() < share:
                c = [x for x, d in fns.items() if d['m'] == m and d['kind'] == kind]
                fn = rng.choice(c) if c else None
            if fn is None:
                c = [x for x in (['K', 'M', 'P', 'Q', 'R'] if kind == 'cls' else ['f', 'g', 'tally', 'h', 'copy_p', 'j', 'k', 'l2'][rng.choice([0, 0, 2]):])]
                c = [x for x in c if x not in fns]
                if not c:
                    continue
                fn = rng.choice(c)
                fns[fn] = dict(kind=kind, ps=list(ps), m=m, upd=kind == 'cls' and rng.random() < 0.4,
                               dflt={k: rng.choice(lits[:8]) for k in ps}, exc=exc(), own=rng.random() < own,
                               rt=rng.choice(RTS) if rts and rng.random() < rts else 'res')
            sec = rng.choice(secpool)
            leaf = fn
            if alias and rng.random() < alias:
                leaf = rng.choice([x for x in fns if fns[x]['m'] == m and x != fn] * 2 + ['f', 'K', 'fa', 's', 't', 'x'])
            if names_[m].setdefault(leaf, fn) != fn or not put(trees[m], sec, leaf):
                continue
            order.append('%s.%s.%s' % (m, sec, leaf))
        if cnt > 400:
            break
    if not order:
        return None
    for m in ms:
        if not trees[m]:
            trees[m] = {'z': []}
    rng.shuffle(order)
    names_ = {m: {x: f for x, f in d.items() if x != f} for m, d in names_.items()}
    base = fixture(name, trees, fns, spec, {}, {}, mode, alias=names_)
    # forest of dependencies: every item uses at most one later item
    uses = {}
    viewk = {}
    for n_, i in enumerate(order):
        f = {}
        it = base['it'][i]
        ps = pkeys(base, i)
        later = order[n_ + 1:]
        for k in ps:
            if rng.random() < 0.3:
                f[k] = L(rng.choice(lits))
        if later and rng.random() < deps:
            j = rng.choice(later)
            jk = shown(base, j)
            if not jk:
                continue
            k = rng.choice(ps)
            f[k] = A(j, rng.choice(jk))
            uses[i] = j
            if len(ps) > 1 and rng.random() < 0.3:
                k2 = rng.choice([x for x in ps if x != k])
                f[k2] = A(j, rng.choice(jk))
        elif later and rng.random() < views:
            j = rng.choice(later)
            f[rng.choice(ps)] = V(j)
            uses[i] = j
        files[i] = f
    secd = {}
    if secs:
        for s in base['mem']:
            if rng.random() < secs:
                ks = rng.sample(keys + ['zz'], rng.randint(1, 2))
                secd[s] = {k: rng.choice(lits[:10]) for k in ks}
    if bodies or raising or quits:
        done = set()
        for n_, i in enumerate(order):
            fn = base['it'][i]['fn']
            if fn in done:
                continue
            done.add(fn)
            # a body is shared by all items of the function: it may only use items after all of them
            last = max(x for x, y in enumerate(order) if base['it'][y]['fn'] == fn)
            later = order[last + 1:]
            ops = []
            if later and rng.random() < bodies:
                for _ in range(rng.randint(1, 3)):
                    j = rng.choice(later)
                    jk = rng.choice(shown(base, j) or ['a'])
                    op = rng.choice(body_ops)
                    if op == 'call' and base['it'][j]['kind'] == 'cls' and rng.random() < 0.5:
                        op = 'attr'
                    ops.append(dict(op=op, i=j, k=jk, v='', m=base['it'][j]['m'], k2=''))
            if raising and rng.random() < raising:
                ops.append(dict(op='raiseif', i='', k=pkeys(base, i)[0], v='i2', m='', k2=''))
            if quits and rng.random() < quits:
                ops.append(dict(op='quitif', i='', k=pkeys(base, i)[0], v='i3', m='', k2=rng.choice(['k', 's'])))
            fns.setdefault(fn, dict(fns.get(fn.split('.')[0], {})))['ops'] = ops
    fx = fixture(name, trees, fns, spec, files, secd, mode, alias=names_)
    fx['order'] = order
    return fx


def items(fx, kind=None):
    return [i for i in fx['it'] if kind is None or fx['it'][i]['kind'] == kind]


def pkeys(fx, i):
    return [k for k in fx['it'][i]['ps'] if k not in ('name', 'ident')]


def shown(fx, i):
    return [k for k in pkeys(fx, i) if k not in HIDDEN]


def p_get(fx, routes=ROUTES):
    return [get(i, r) for i in items(fx) for r in routes]


def p_read(fx):
    return [read(i, k, old) for i in items(fx) for k in shown(fx, i) for old in (False, True, 'keep')]


def p_upd(fx, rng, lits=None, n=40, persist=(True, True, False), forms=('kw', 'dict', 'both', 'conf', 'view'), views=0.0):
    out = []
    lits = lits or LITS
    order = fx.get('order', [])
    for _ in range(n):
        i = rng.choice(items(fx))
        ks = rng.sample(pkeys(fx, i), rng.randint(1, min(2, len(pkeys(fx, i)))))
        form = rng.choice(forms)
        if form == 'view':
            ks = ks[:1]
        u = {k: rng.choice(lits) for k in ks}
        if views and rng.random() < views and order:
            later = [j for j in order[order.index(i) + 1:]] if i in order else []
            if later:
                u[ks[0]] = 'view:' + rng.choice(later)
        out.append(dict(op='upd', i=i, u=kvd(u), persist=True if form == 'view' else rng.choice(persist), form=form))
    return out


def p_run(fx, rng, n=20, secs=True, forms=('str', 'view')):
    out = []
    for _ in range(n):
        m = rng.choice(fx['ms'])
        mi = [i for i in items(fx) if fx['it'][i]['m'] == m]
        ms = [s for s in fx['mem'] if s != m and fx['mof'][s] == m and fx['mem'][s]
              and not any(s == m + '.' + dn or s.startswith(m + '.' + dn + '.') for dn in fx['spec'].get(m, {}))]
        c = mi + (ms if secs else [])
        if not c:
            continue
        k = rng.choice([1, 1, 1, 2, 3])
        q = [rng.choice(c) for _ in range(k)]
        out.append(dict(op='run', m=m, q=q, lst=len(q) > 1 or rng.random() < 0.3, form=rng.choice(forms)))
    return out


def p_setfile(fx, rng, n=15, lits=None):
    out = []
    order = fx.get('order', list(fx['it']))
    for _ in range(n):
        i = rng.choice(items(fx))
        k = rng.choice(pkeys(fx, i))
        out.append(setf(i, k, L(rng.choice(lits or LITS))))
    return out


def p_call(fx, rng, n=12, olds=(False, True, 'keep'), lits=None):
    """views are called, those of functions also with arguments"""
    out = [dict(op='call', i=i, old=o) for i in items(fx) for o in olds]
    fs = items(fx, 'func')
    for _ in range(n if fs else 0):
        i = rng.choice(fs)
        ks = rng.sample(pkeys(fx, i), rng.randint(1, min(2, len(pkeys(fx, i)))))
        out.append(dict(op='call', i=i, old=rng.choice(olds), u=kvd({k: rng.choice(lits or LITS) for k in ks})))
    return out


def p_one(fx, op, **k):
    return [dict(op=op, i=i, **k) for i in items(fx)]


def getsecs(fx):
    """sections which consist of items or of sections"""
    def ok(s):
        subs = [x for x in fx['mem'][s] if x in fx['mem']]
        return len(fx['mem'][s]) > 0 and len(subs) in (0, len(fx['mem'][s])) and all(ok(x) for x in subs)
    return [s for s in fx['mem'] if s not in fx['ms'] and fx['mem'][s] and ok(s)]


def p_batch(fx, rng, n=12, lits=None):
    out = []
    for _ in range(n):
        form = rng.choice(['full', 'pm', 'pmview', 'base', 'view', 'gen'])
        m = rng.choice(fx['ms'])
        c = [i for i in items(fx) if form in ('full', 'view', 'gen') or fx['it'][i]['m'] == m]
        if not c:
            continue
        q = []
        for _ in range(rng.randint(1, 4)):
            i = rng.choice(c)
            ks = rng.sample(pkeys(fx, i), rng.randint(1, min(2, len(pkeys(fx, i)))))
            q.append(dict(i=i, u=kvd({k: rng.choice(lits or LITS) for k in ks}), persist=rng.random() < 0.7))
        out.append(dict(op='batch', q=q, form=form))
    return out


def p_prod(fx, rng, n=12, lits=None, steps=True):
    """products; with steps also generators whose cases are taken one at a time"""
    out = []
    lits = lits or LITS
    for _ in range(n):
        form = rng.choice(['pm', 'ir', 'gen', 'pm', 'ir', 'gen', 'nc', 'pmv', 'pmgen', 'irv', 'irgen', 'sub', 'subgen', 'twice'])
        m = rng.choice(fx['ms'])
        c = [i for i in items(fx) if form in ('ir', 'irv', 'irgen', 'sub', 'subgen', 'twice') or fx['it'][i]['m'] == m]
        if not c:
            continue
        vary = rng.sample(c, min(len(c), rng.randint(1, 2)))
        q = []
        for i in vary:
            ks = pkeys(fx, i)
            for _ in range(rng.randint(1, 2)):
                u = {k: rng.choice(lits) for k in rng.sample(ks, rng.randint(1, min(2, len(ks))))}
                q.append(dict(i=i, u=kvd(u), persist=True))
        if rng.random() < 0.3:
            rng.shuffle(q)
        its = [rng.choice(vary + c) for _ in range(rng.choice([1, 1, 2]))]
        lst = len(its) > 1 or rng.random() < 0.3
        if form not in ('ir', 'gen'):
            out.append(dict(op='prod', items=its, lst=lst, q=q, form=form))
        elif form == 'ir' and rng.random() < 0.4:
            out.append(dict(op='prod', items=its, lst=lst, q=q, form='ir'))
        else:
            out.append(dict(op='pstart', items=its, lst=lst, q=q, form=form))
    return out


P_STEPS = [dict(op='pcase', n=n) for n in range(1, 9)]
P_ALL = [dict(op='pall')]


def p_miss(fx, rng):
    """look ups which must fail, and partial look ups"""
    out = []
    its, secs = items(fx), [s for s in fx['mem'] if s not in fx['ms']]
    bad = []
    for i in its:
        m, rel = i.split('.', 1)
        parts = rel.split('.')
        bad += ['%s.%s' % (m, '.'.join(parts[:-1] + ['nope'])), '%s.nope.%s' % (m, parts[-1]), '%s.%s' % (m, parts[-1])]
        for m2 in fx['ms']:
            bad.append('%s.%s' % (m2, rel))
    for s in secs:
        bad.append(s + '.zz')
    # section.<name of the section> names the config of the section
    bad = [b for b in dict.fromkeys(bad) if b not in fx['it'] and b not in fx['mem'] and b.split('.')[-1] != b.split('.')[-2]]
    rng.shuffle(bad)
    for b in bad[:14]:
        for w in ('get', 'attr', 'run', 'upd', 'refresh', 'reset', 'sel', 'updkw', 'updview', 'batch', 'batchfull', 'batchreset',
                  'viewset', 'prod'):
            out.append(dict(op='miss', i=b, w=w, j=rng.choice(its), m=b.split('.')[0]))
    for s in secs:
        out.append(dict(op='noop', i=s, w='attrsec', exp='sec', j=''))
        out.append(dict(op='noop', i=s, w='viewsec', exp='view:' + s, j=''))
    return out


def p_look(fx, rng):
    out = []
    its, secs = items(fx), [s for s in fx['mem'] if s in fx['ms'] or fx['mem'][s]]
    for i in its:
        kind = fx['it'][i]['kind']
        t = {'func': 'function', 'cls': fx['it'][i]['fn'], 'spec': fx['it'][i]['fn'].split('.')[0]}[kind]
        out.append(dict(op='noop', i=i, w='type', exp=t, j=''))
        out.append(dict(op='noop', i=i, w='isinst', exp=str(kind == 'func'), j=''))
        out.append(dict(op='noop', i=i, w='viewsec', exp='view:' + i, j=''))
        out.append(dict(op='noop', i=i, w='hash', exp='eq', j=i))
        j = rng.choice(its + [s for s in secs if s not in fx['ms']])
        out.append(dict(op='noop', i=i, w='eq', exp='eq' if i == j else 'ne', j=j))
        out.append(dict(op='noop', i=i, w='eq', exp='eq', j=i))
        out.append(dict(op='in', i=i, old=True))
        out.append(dict(op='noop', i=i, w='dirs', exp='ok', j='item'))
        out.append(dict(op='in', i=i, old=False))
        s = fx['it'][i]['secs'][-1]
        if s not in fx['ms']:
            out.append(dict(op='noop', i=s, w='dir', exp='T', j=i))
    for i in its:
        # paths which are alike
        for j in its + secs:
            if i != j and j not in fx['ms'] and (j.endswith(i) or i.endswith(j) or j.startswith(i) or i.split('.')[1:] == j.split('.')[1:]):
                out += [dict(op='noop', i=x, w='eq', exp='ne', j=y) for x, y in ((i, j), (j, i))]
    for s in secs:
        out.append(dict(op='in', i=s, old=False))
    bad = ['%s.nope' % s for s in secs] + ['nope'] + [i + '.nope' for i in its[:2]]
    for b in bad:
        out.append(dict(op='in', i=b, old=False))
    for s in secs:
        out.append(dict(op='noop', i=s, w='dirs', exp='ok', j='sec' if s not in fx['ms'] else 'man'))
        # exactly the members are listed
        out.append(dict(op='noop', i=s, w='list', exp=','.join(sorted({x.split('.')[-1] for x in fx['mem'][s]} | set(fx['spec'].get(s, {})))), j=''))
    out.append(dict(op='noop', i=its[0], w='sel', exp='T', j=''))
    return out

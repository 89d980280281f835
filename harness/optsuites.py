"""Fixtures of the options and stdout properties (C17, C18)."""
FOLDERS = ['A', 'B', 'A/sub', 'bad/x']
FREQS = ['D', 'W0', 'MIDNIGHT']
ONAMES = ['so', 'lf', 'fr', 'nk']
PFORMS = ['print', 'write', 'end', 'pair', 'flush', 'lines', 'blank']
REDIRECT = [dict(op='redirect', n=n) for n in (1, 2)]


class Tok:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return 't%d;' % self.n


def value(rng, o, bad=0.1):
    if o == 'so':
        return rng.choice('TF')
    if o == 'lf':
        return 'bad/x' if rng.random() < bad else rng.choice(['', 'A', 'B', 'A/sub'])
    if o == 'fr':
        return 'bogus' if rng.random() < bad else rng.choice(FREQS)
    return rng.choice('035')


def base(name, mode=None, items=None, world='optsworld'):
    return dict(name=name, world='optsworld', module='Opts', cfg='OptsModel.cfg', folders=FOLDERS, badfolders=['bad/x'],
                badfreqs=['bogus'], mode=mode or {'p': 'plain'}, items=items or {}, acts=[], depth=0, probes=[], hdepth=0,
                clop={}, cl=[], pool=[])


def sets(rng, n=14, only=ONAMES, bad=0.1):
    out = []
    for _ in range(n):
        o = rng.choice(only)
        out.append(dict(op='set', q=[dict(o=o, v=value(rng, o, bad))], form=rng.choice(['value', 'one', 'many', 'gen'])))
    return out


def multi(rng, op, n=6, bad=0.1):
    out = []
    for _ in range(n):
        k = rng.choice([0, 1, 2, 3]) if op == 'enter' else rng.choice([2, 3])
        q = []
        for _ in range(k):
            o = rng.choice(ONAMES)
            q.append(dict(o=o, v=value(rng, o, bad)))
        out.append(dict(op=op, q=q, form=rng.choice(['one', 'many', 'gen', 'value'])))
    return out


def resets(rng, n=8):
    return [dict(op='reset', q=rng.sample(ONAMES, rng.choice([1, 1, 2])), form=rng.choice(['opt', 'one', 'many'])) for _ in range(n)]


EXITS = [dict(op='exit', exc=False), dict(op='exit', exc=True)]
RESETALL = [dict(op='resetall')]


def programs(rng, n, mode, tok, setting=0.15, raising=0.25, sleepers=False):
    """n items; an item may only run later ones"""
    names = ['f%d' % k for k in range(n)]
    items = {}
    for k, i in enumerate(names):
        later = names[k + 1:]
        ops = []
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            o = dict(op='print', v=tok(), form=rng.choice(PFORMS), o='', i='')
            if later and x < 0.3:
                o.update(op=rng.choice(['run', 'run', 'call', 'try']), i=rng.choice(later), v='')
            elif x < 0.3 + setting:
                op = rng.choice(['set', 'set', 'reset', 'with'] if later else ['set', 'set', 'reset'])
                on = rng.choice(['so', 'so', 'lf'])
                o.update(op=op, o=on, v=value(rng, on, 0.05), i=rng.choice(later) if op == 'with' else '', form=rng.choice(['value', 'one', 'many']))
            elif x < 0.4 + setting:
                o.update(op='log', v=tok())
            ops.append(o)
        if rng.random() < raising:
            ops.insert(rng.randint(1, len(ops)), dict(op='raise', v=rng.choice(['!e1', '!e2', '!int']), form='', o='', i=''))
        items[i] = dict(m=rng.choice(sorted(mode)), ops=ops)
    return items


def runs(rng, fx, n=10):
    out = []
    for _ in range(n):
        m = rng.choice(sorted(fx['mode']))
        c = [i for i, d in fx['items'].items() if d['m'] == m]
        if not c:
            continue
        q = [rng.choice(c) for _ in range(rng.choice([1, 1, 2, 3]))]
        out.append(dict(op='run', m=m, q=q, lst=len(q) > 1 or rng.random() < 0.3))
        if rng.random() < 0.3:
            out.append(dict(op='prod', m=m, q=q, lst=True))
    return out


def calls(fx):
    return [dict(op='call', i=i) for i in fx['items']]


def talk(rng, tok, n=3):
    return [dict(op='log', v=tok()) for _ in range(n)]


def says(rng, tok, n=3):
    return [dict(op='print', v=tok(), form=rng.choice(PFORMS)) for _ in range(n)]

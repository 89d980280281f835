"""Fixtures of the property of projects and of finding managers (C21)."""
PROJS = ['a', 'ab', 'n/d']
CFGS = ['defaults', 'conf']
DICTS = ['d1', 'a_d']
LOGS = ['lg', 'lg/x', 'a/lg']
NAMES = ['p', 'pq', 'r']
# the texts of dict files, and the config files of their items
MAIN = {'m0': [], 'm1': ['s/f1'], 'm2': ['s/f1', 's/u/f2'], 'm3': ['s/u/f2']}
SPEC = {'k0': [], 'k1': ['s/k1'], 'k2': ['s/k1', 's/k2']}
VALUES = ['v5', 'v6']


def paths(projs):
    out = []

    def add(p):
        parts = p.split('/')
        for n in range(1, len(parts) + 1):
            x = '/'.join(parts[:n])
            if x not in out:
                out.append(x)
    for p in projs:
        add(p)
        add(p + '/pipeline_dict.py')
        add(p + '/notes.txt')
        add(p + '/lib/pipeline_dict.py')
        for d in DICTS:
            add('%s/%s_dict.py' % (p, d))
        for c in CFGS:
            add('%s/%s' % (p, c))
            for i in sorted({i for q in MAIN.values() for i in q}):
                add('%s/%s/%s.py' % (p, c, i))
            for d in DICTS:
                for i in sorted({i for q in SPEC.values() for i in q}):
                    add('%s/%s/%s/%s.py' % (p, c, d, i))
    for x in LOGS:
        add(x)
    return out


def base(name, rng, projs=2, names=2):
    projs = rng.sample(PROJS, projs)
    if rng.random() < 0.5:
        projs = (['a', 'ab'] + projs)[:len(projs)]
    ps = paths(projs)
    fx = dict(name=name, world='projworld', module='Project', cfg='ProjectModel.cfg', projs=projs, names=rng.sample(NAMES, names), paths=ps,
              anc={p: [x for x in ps if p.startswith(x + '/')] for p in ps},
              under={p: [x for x in ps if x.startswith(p + '/')] for p in ps},
              tok={k: [x + '.py' for x in v] for k, v in {**MAIN, **SPEC}.items()},
              fs={p: '' for p in ps}, acts=[], depth=0, probes=[], hdepth=0, clop={}, cl=[], pool=[])
    for p in projs:
        if rng.random() < 0.4:
            part(rng, fx, p)
    return fx


def put(fx, p, v):
    for x in fx['anc'][p]:
        fx['fs'][x] = 'dir'
    fx['fs'][p] = v


def part(rng, fx, p):
    """the user has a part of a project"""
    if rng.random() < 0.7:
        put(fx, p + '/pipeline_dict.py', rng.choice(sorted(MAIN)))
    if rng.random() < 0.5:
        put(fx, '%s/%s_dict.py' % (p, rng.choice(DICTS)), rng.choice(sorted(SPEC)))
    if rng.random() < 0.5:
        put(fx, '%s/%s' % (p, rng.choice(CFGS)), 'dir')
    if rng.random() < 0.5:
        put(fx, '%s/notes.txt' % p, 'v5')


def new(rng, fx, n):
    return [dict(op='new', m=rng.choice(fx['names']), proj=rng.choice(fx['projs']), cfg=rng.choice(CFGS), dicts=rng.sample(DICTS, rng.choice([0, 1, 1, 2])),
                 mode=rng.choice(['', '', '', 'fc', 'pdb', 'both']), form=rng.choice(['abs', 'rel', 'slash', 'dots']))
            for _ in range(n)]


def user(rng, fx, n):
    out = []
    for _ in range(n):
        p = rng.choice(fx['projs'])
        x = rng.random()
        if x < 0.3:
            out.append(dict(op='put', p=p + '/pipeline_dict.py', v=rng.choice(sorted(MAIN))))
        elif x < 0.5:
            out.append(dict(op='put', p='%s/%s_dict.py' % (p, rng.choice(DICTS)), v=rng.choice(sorted(SPEC))))
        elif x < 0.6:
            out.append(dict(op='put', p=rng.choice([p + '/notes.txt', p + '/lib/pipeline_dict.py']), v=rng.choice(VALUES)))
        elif x < 0.75:
            c = [q for q in fx['paths'] if q.startswith(p + '/') and q.split('/')[-1][:2] in ('f1', 'f2', 'k1', 'k2')]
            out.append(dict(op='put', p=rng.choice(c), v=rng.choice(VALUES)))
        elif x < 0.8:
            out.append(dict(op='mkdir', p='%s/%s' % (p, rng.choice(CFGS))))
        else:
            out.append(dict(op='rm', p=rng.choice([p, p + '/pipeline_dict.py', '%s/%s_dict.py' % (p, rng.choice(DICTS)), '%s/%s' % (p, rng.choice(CFGS)), p + '/lib'] +
                                                  [x for x in LOGS if x in fx['paths']])))
    return out


def log(rng, fx, n):
    return [dict(op='log', p=rng.choice([''] + [x for x in LOGS if x.split('/')[0] not in PROJS or x.split('/')[0] in fx['projs']])) for _ in range(n)]


def find(rng, fx, n):
    out = []
    rests = ['pipeline_dict.py', 'defaults/s/f1.py', 'x/y/z.py', 'notes.txt', 'conf', 'lib/../pipeline_dict.py', './s.py']
    for _ in range(n):
        if rng.random() < 0.5:
            out.append(dict(op='path', m=rng.choice(fx['names']), rest=rng.choice(['', '.s', '.s.f1', '.%s.s' % rng.choice(NAMES)])))
        else:
            p = rng.choice(fx['projs'])
            x = rng.random()
            if x < 0.6:
                out.append(dict(op='file', proj=p, file='%s/%s' % (p, rng.choice(rests)), form=rng.choice(['abs', 'rel', 'dots'])))
            elif x < 0.8:
                # alike, but not in any project
                out.append(dict(op='file', proj='', file='%s/%s' % (rng.choice([p + 'x', p + '.py', 'x/' + p, 'other/' + p, p[:-1] + '_']), rng.choice(rests)),
                                form=rng.choice(['abs', 'rel', 'dots'])))
            else:
                # leaves one project for another place
                q = rng.choice(fx['projs'])
                up = '../' * (p.count('/') + 1)
                out.append(dict(op='file', proj=q, file='%s/%s%s/%s' % (p, up, q, rng.choice(rests)), form=rng.choice(['abs', 'rel'])))
    return out


def loads(fx):
    return [dict(op=op, m=m) for m in fx['names'] for op in ('load', 'vals', 'vals')]


REST = [dict(op='sel'), dict(op='drop'), dict(op='forget')]

"""Fixtures of the scaffolding property (C14): signatures, source modules, and what users write into config files."""
import random
import ast

# default expression, token of its value, what the source module needs for it
EXPRS = [
    ('1', 'int:1', ''), ("'x'", "str:'x'", ''), ('-1', 'int:-1', ''), ('None', 'NoneType:None', ''), ('True', 'bool:True', ''),
    ('1.5', 'float:1.5', ''), ('1e300', 'float:1e+300', ''), ('(1, 2)', 'tuple(int:1, int:2)', ''), ('(1,)', 'tuple(int:1)', ''),
    ('[1, 2]', 'list(int:1, int:2)', ''), ('[]', 'list()', ''), ('{}', 'dict()', ''), ("{'k': 1}", "dict(str:'k'=int:1)", ''),
    ('{1, 2}', 'set(int:1, int:2)', ''), ('...', 'ellipsis:Ellipsis', ''), ("b'x'", "bytes:b'x'", ''), ('2j', 'complex:2j', ''),
    ("'it\\'s \"q\" \\\\ \\n'", "str:'it\\'s \"q\" \\\\ \\n'", ''), ("'a = 5'", "str:'a = 5'", ''), ("'import os'", "str:'import os'", ''),
    ("'é'", "str:'é'", ''), ("'''two\n  lines'''", "str:'two\\n  lines'", ''),
    ('1_000', 'int:1000', ''), ('0x10', 'int:16', ''), ('2 ** 3 + 1', 'int:9', ''), ('not True', 'bool:False', ''), ('1 if True else 2', 'int:1', ''),
    ('1 < 2 < 3', 'bool:True', ''), ('[1, 2, 3][1:]', 'list(int:2, int:3)', ''), ('[*(1, 2), 3]', 'list(int:1, int:2, int:3)', ''),
    ('[n for n in range(2)]', 'list(int:0, int:1)', ''), ('{n: 1 for n in range(1)}', 'dict(int:0=int:1)', ''),
    ('lambda x: x + 1', 'fn:int:4', ''), ('lambda x, *y, z=2: x + z', 'fn:int:5', ''), ('len', 'def:len', ''), ('int', 'cls:int', ''), ('ValueError', 'cls:ValueError', ''),
    ('dict(a=1)', "dict(str:'a'=int:1)", ''), ('sorted([2, 1])', 'list(int:1, int:2)', ''), ("f'{1 + 1}x'", "str:'2x'", ''),
    ('CONST', 'int:5', 'CONST = 5'), ('CONST + 1', 'int:6', 'CONST = 5'), ("f'{CONST}'", "str:'5'", 'CONST = 5'), ('[CONST, g]', 'list(int:5, def:{m}.g)', 'CONST = 5|def g(): pass'),
    ('ANN', 'int:6', 'ANN: int = 6'), ('lambda x: x + CONST', 'fn:int:8', 'CONST = 5'), ('[n for n in (CONST,)]', 'list(int:5)', 'CONST = 5'),
    ('A1', "str:'ab'", "A1 = B1 = 'ab'"), ('T2', 'int:8', 'T1, T2 = 7, 8'), ('g', 'def:{m}.g', 'def g(): pass'), ('T', 'cls:{m}.T', 'class T:\n    v = 4'),
    ('T()', 'inst:{m}.T', 'class T:\n    v = 4'), ('T.v', 'int:4', 'class T:\n    v = 4'), ('[T, T]', 'list(cls:{m}.T, cls:{m}.T)', 'class T:\n    v = 4'),
    ('LOOP', 'int:2', 'for LOOP in range(3): pass'), ('COND', 'int:3', 'if len:\n    COND = 3\nelse:\n    COND = 4'), ('TRY', 'NoneType:None', 'try:\n    import nosuch as TRY\nexcept ImportError:\n    TRY = None'),
    ('TI', "str:'/'", 'try:\n    from os import sep as TI\nexcept ImportError:\n    TI = 3'),
    ('os.sep', "str:'/'", 'import os'), ('o.sep', "str:'/'", 'import os as o'), ('S', "str:'/'", 'from os import sep as S'), ('os.path.sep', "str:'/'", 'import os.path'),
    ('op.sep', "str:'/'", 'import os.path as op'), ('path.sep', "str:'/'", 'from os import path'), ('sep', "str:'/'", 'from os import (\n    curdir,  # c\n    sep,\n)'),
    ('math.floor(2.5)', 'int:2', 'import math'), ('decimal.Decimal', 'cls:decimal.Decimal', 'import decimal'), ('OrderedDict', 'cls:collections.OrderedDict', 'from collections import OrderedDict'),
    ('helper', 'def:scpkg.rel.helper', 'from .rel import helper'), ('K', 'cls:scpkg.rel.Klass', 'from .rel import Klass as K'), ('thing', 'int:17', 'from scpkg.rel import thing'),
    ('lk', 'int:19', 'from scpkg.rel import long_thing_name as lk'), ('th2', 'int:17', 'from .rel import thing as th1, thing as th2'), ('[th3, long_thing_name]', 'list(int:17, int:19)', 'from scpkg.rel import long_thing_name, thing as th3'),
    ('rel.thing', 'int:17', 'from . import rel'), ('scpkg.rel.thing', 'int:17', 'import scpkg.rel'), ('rr.thing', 'int:17', 'from scpkg import rel as rr'),
]
# annotation, token of its value when evaluated, what the source module needs
ANNS = [
    ('int', 'cls:int', ''), ('str', 'cls:str', ''), ('None', 'NoneType:None', ''), ('dict', 'cls:dict', ''), ('List[int]', 'obj:List[int]', 'from typing import List'),
    ('Optional[str]', 'obj:Optional[str]', 'from typing import Optional'), ("'List[int]'", "obj:List[int]", 'from typing import List'),
    ('Callable[..., int]', 'obj:Callable[..., int]', 'from typing import Callable'), ('Callable[[int, str], List[int]]', 'obj:Callable[[int, str], typing.List[int]]', 'from typing import Callable, List'),
    ('int | None', 'obj:int | None', ''), ('T', 'cls:{m}.T', 'class T:\n    v = 4'), ("'T'", "cls:{m}.T", 'class T:\n    v = 4'), ('typing.Any', 'cls:typing.Any', 'import typing'),
    ('Dict[str, Dict[str, int]]', 'obj:Dict[str, typing.Dict[str, int]]', 'from typing import Dict'), ("Literal['x', 'y']", "obj:Literal['x', 'y']", 'from typing import Literal'),
    ('K', 'cls:scpkg.rel.Klass', 'from .rel import Klass as K'), ('Ot', 'cls:scpkg.rel.Other', 'from scpkg.rel import Other as Ot'), ('rel.Klass', 'cls:scpkg.rel.Klass', 'from . import rel'),
    ('list[int]', 'obj:list[int]', ''), ('t.Union[int, str]', 'obj:Union[int, str]', 'import typing as t'), ('Alias', 'obj:List[int]', 'from typing import List|Alias = List[int]'),
    ("'TC'", "cls:scpkg.rel.TC", 'from typing import TYPE_CHECKING|if TYPE_CHECKING:\n    from scpkg.rel import TC'), ('decimal.Decimal', 'cls:decimal.Decimal', 'import decimal'),
]
HEADS = ['"""Module docstring\nimport nothing\n"""', 'import sys', 'import json as js, re', 'from typing import Tuple', '# a comment which says import this = that',
         'd = {}\nd["x"] = 1', 'class Noise:\n    attr = 3\n    def m(self): self.q = self.r = 2', 'x.y = 3', 'p = q = r = 3', '(u, v), w = (1, 2), 3', 'first, *rest = 1, 2, 3',
         'def noise(a, /, b=1, *, c=2): return a', 'if True:\n    cond = 3', 'with open(__file__) as fh:\n    text = "import x"', 'lst: list', 'async def co(): pass',
         'try:\n    import nosuchmodule\nexcept ImportError:\n    nosuchmodule = None', 'print = print', 'assert True', 'val = (\n    1 +\n    2\n)', 'wal = [w2 := 1]', 'del p']
TAILS = ['', 'after = 3', 'if __name__ == "__main__":\n    print(3)', 'def later(): return 1\n', 'class Later: pass']
SECTIONS = ['# user %d\nzz1 = 3\n', '# user %d', 'import os\n# user %d\n', '"""user %d"""\n', '\n# user %d\n\n', 'zz%d = 3', 'pass  # user %d\n', 'if False:\n    zz%d = 3\n']
DECOS = ['', '', '', 'def _deco(f): return f\n@_deco\n']
# other things with the name of an item
SAMENAME = ['class Other1:\n    def NAME(self, other=8): pass', 'def other2():\n    def NAME(other=8): pass', 'class Other3:\n    class NAME:\n        def __init__(self, other=8): pass',
            'def other4(NAME=3):\n    NAME = 4', 'class Other5:\n    NAME = 3']
NOISE = ['', '', '    """Docstring with import os\n    a = 3\n    """\n', '    import os as inner\n', '    z1 = z2 = 3\n', '    def inner2(b=3):\n        c = 4\n        return c\n', '    # a comment\n']
NAMES = ['a', 'b', 'c', 'd', 'e', 'items', 'name2', 'config', 'x_1', 'Selector_', 'value', 'update', 'E', '_private', 'path_', 'ab']


class Gen:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def num(self):
        self.n += 1
        return 100 + self.n


def order_head(heads):
    doc = [h for h in heads if h.startswith('"""')]
    fut = [h for h in heads if '__future__' in h]
    return '\n'.join(doc[:1] + fut + [h for h in heads if h not in doc and h not in fut])


def make_sig(rng, names, m, need, kind='func', anns=0.4):
    """a signature, adding to need what the module must have"""
    sig = []
    for n in names:
        e = None if rng.random() < 0.2 else rng.choice(EXPRS)
        a = rng.choice(ANNS) if rng.random() < anns else None
        p = dict(n=n, d=e[0] if e else '', v=(e[1] if e else 'NoneType:None').format(m='scpkg.' + m) if not e or '{m}' in e[1] else e[1])
        p['as'] = a[0] if a else ''
        p['a'] = ast.unparse(ast.parse(a[0].strip("'"), mode='eval').body) if a else ''
        p['t'] = a[1].replace('{m}', 'scpkg.' + m) if a else ''
        for x in (e, a):
            if x:
                need += [y for y in x[2].split('|') if y and y not in need]
        sig.append(p)
    if kind == 'spec':
        for p in sig:
            p['kind'] = 'pk'
            if not p['d']:
                p['d'], p['v'] = 'None', 'NoneType:None'
        return sig
    npo = rng.choice([0, 0, 0, 1, 2]) if kind == 'func' else 0
    seen = False
    for k, p in enumerate(sig):
        if seen and not p['d']:
            p['kind'] = 'kw'
        else:
            p['kind'] = 'po' if k < npo and (p['d'] or kind == 'func') else rng.choice(['pk', 'pk', 'pk', 'kw'])
            if p['kind'] != 'kw' and p['d']:
                seen = True
    if sig:
        kw = any(p['kind'] == 'kw' for p in sig)
        sig[0]['args'] = rng.choice(['', '', 'args_'])
        sig[0]['kws'] = rng.choice(['', '', 'kws_'])
        sig[0]['ml'] = rng.random() < 0.15
        # the order in the source: positional-only, ordinary, keyword-only
        sig.sort(key=lambda p: 'po pk kw'.split().index(p['kind']))
        x = {k: v for p in sig for k, v in p.items() if k in ('args', 'kws', 'ml')}
        for p in sig:
            for k in x:
                p.pop(k, None)
        sig[0].update(x)
    return sig


def lit(rng, n):
    """source and token of a literal which nothing else has"""
    return rng.choice([(str(n), 'int:%d' % n), ("'v%d'" % n, "str:'v%d'" % n), ('[%d]' % n, 'list(int:%d)' % n), ("{'k': %d}" % n, "dict(str:'k'=int:%d)" % n),
                       ('%d.5' % n, 'float:%d.5' % n), ('(%d, None)' % n, 'tuple(int:%d, NoneType:None)' % n)])


def b(k, v='', c=''):
    return dict(k=k, v=v, c=c)


FORMS = ['plain', 'plain', 'note', 'spaces', 'ann', 'annonly', 'tuple', 'star', 'chain', 'semi', 'for', 'with', 'def', 'class', 'if', 'try', 'while', 'multi', 'text', 'comment',
         'importas', 'fromas', 'paren', 'bslash', 'walrus', 'aug', 'attr', 'item', 'local', 'clsattr', 'lambda', 'comp', 'kwarg', 'eq', 'mention', 'mentioni', 'copy', 'copy',
         'readsel', 'lineimp', 'needimp', 'bimport', 'condimp', 'contin', 'nestdef', 'match', 'unicode', 'strcont', 'deco', 'async', 'starimp', 'blankin', 'exprs', 'tabs', 'delown', 'doc', 'future']
LEADS = ['doc', 'future', 'lineimp', 'needimp', 'paren', 'bslash', 'fromas', 'importas']


def block(rng, g, params, form, others=()):
    """a user block about the names of params"""
    a, b2 = (rng.sample(params, 2) if len(params) > 1 else [params[0], 'other'])
    n, m = g.num(), g.num()
    (v, vt), (w, wt) = lit(rng, n), lit(rng, m)
    u = '_u%d' % n
    own = b(u, 'skip')
    head, rank = False, 2
    tag = '  # %d' % n
    T = {
        'plain': ('%s = %s' % (a, v) + tag, [b(a, vt)]),
        'note': ('%s = %s  # keep: import os = %d' % (a, v, n), [b(a, vt)]),
        'spaces': ('%s    =   %s   # %d' % (a, v, n), [b(a, vt)]),
        'ann': ('%s: int = %s' % (a, v) + tag, [b('@' + a, 'cls:int'), b(a, vt)]),
        'annonly': ('%s: int' % a + tag, [b('@' + a, 'cls:int')]),
        'tuple': ('%s, %s = %s, %s' % (a, b2, v, w) + tag, [b(a, vt), b(b2, wt)]),
        'star': ('%s, *%s = %s, %s' % (a, b2, v, w) + tag, [b(a, vt), b(b2, 'list(%s)' % wt)]),
        'chain': ('%s = %s = %s' % (a, b2, v) + tag, [b(a, vt), b(b2, vt)]),
        'semi': ('%s = %s; %s = %s' % (a, v, b2, w) + tag, [b(a, vt), b(b2, wt)]),
        'for': ('for %s in [%s]:%s\n    pass' % (a, v, tag), [b(a, vt)]),
        'with': ('with __import__("contextlib").nullcontext(%s) as %s:%s\n    %s = %s' % (v, a, tag, b2, w), [b(a, vt), b(b2, wt)]),
        'def': ('def %s():%s\n    %s = 3\n    return %s' % (a, tag, b2, v), [b(a, 'udef:' + vt)]),
        'class': ('class %s:%s\n    _uv = %s\n    %s = 3' % (a, tag, v, b2), [b(a, 'ucls:' + vt)]),
        'if': ('if %d:\n    %s = %s\nelse:\n    %s = %s' % (n, a, v, a, w), [b(a, vt)]),
        'try': ('try:%s\n    %s = %s\nexcept Exception as exc:\n    pass\nfinally:\n    %s = %s' % (tag, a, v, b2, w), [b(a, vt), b(b2, wt)]),
        'while': ('while True:%s\n    %s = %s\n    break' % (tag, a, v), [b(a, vt)]),
        'multi': ('%s = [\n    %s,\n\n    # a comment\n    %s,\n]' % (a, v, w), [b(a, 'list(%s, %s)' % (vt, wt))]),
        'text': ('%s = """\nimport nothing%d\n%s = 3\n"""' % (a, n, b2), [b(a, 'str:%r' % ('\nimport nothing%d\n%s = 3\n' % (n, b2)))]),
        'comment': ('# %d import this = that\n# %s = %s' % (n, a, v), []),
        'importas': ('import json as %s' % a + tag, [b(a, 'mod:json')]),
        'fromas': ('from os import curdir as %s' % a + tag, [b(a, "str:'.'")]),
        'paren': ('from os import (\n    getcwd,%s\n    curdir as %s,\n\n    # a comment\n)' % (tag, a), [b(a, "str:'.'")]),
        'bslash': ('from os import getpid, \\\n    curdir as %s' % a + tag, [b(a, "str:'.'")]),
        'walrus': ('len([%s := %s])' % (a, v) + tag, [b(a, vt)]),
        'aug': ('%s = %d\n%s += 1' % (a, n, a) + tag, [b(a, 'int:%d' % (n + 1))]),
        'attr': ('class %s: pass\n%s.%s = %s' % (u, u, a, v), []),
        'item': ('%s = dict()\n%s["%s"] = %s' % (u, u, a, v), []),
        'local': ('def %s(%s=1):\n    global %s_\n    import os as %s\n    %s_ = 3\n    return %s' % (u, a, u, b2, u, v), []),
        'clsattr': ('class %s:\n    %s = %s\n    def %s(self): pass' % (u, a, v, b2), []),
        'lambda': ('%s = lambda %s, *%s: %s' % (u, a, b2, a), []),
        'comp': ('%s = [(%s, %s) for %s in range(2) for %s in {}]' % (u, a, b2, a, b2), []),
        'kwarg': ('%s = dict(%s=%s)' % (u, a, v), []),
        'eq': ('%s = (%s == %s)' % (u, v, w), []),
        'mention': ("%s = '%s = %s'" % (u, a, n), []),
        'mentioni': ("%s = 'import %s'" % (u, a), []),
        'copy': ('%s = %s' % (b2, a) + tag, [b(b2, c=a)]),
        'readsel': ('%s = s' % u, [b(u, c='s')]),
        'lineimp': (rng.choice(['import os.path', 'import os', 'from os import sep as %s' % u, 'import math, json', 'from typing import List, Dict', 'from pyfileconf import Selector']) + tag, []),
        'needimp': ('import math as %s, json as _j%d%s' % (u, n, tag), []),
        'bimport': ('%s = 1; import json as %s' % (u, a) + tag, [b(a, 'mod:json')]),
        'condimp': ('try:%s\n    import nosuch as %s\nexcept ImportError:\n    import json as %s' % (tag, a, a), [b(a, 'mod:json')]),
        'contin': ('%s = %d + \\\n    1' % (a, n), [b(a, 'int:%d' % (n + 1))]),
        'nestdef': ('def %s():\n    def %s(): pass\n    class %s: pass' % (u, a, b2), []),
        'match': ('match [%s, %s]:\n    case [%s, *%s]:\n        pass' % (v, w, a, b2), [b(a, vt), b(b2, 'list(%s)' % wt)]),
        'unicode': ("%s = 'é→%d'  # ünï" % (a, n), [b(a, "str:'é→%d'" % n)]),
        'strcont': ("%s = ('x%d'\n    'import y')" % (a, n), [b(a, "str:'x%dimport y'" % n)]),
        'deco': ('@staticmethod\ndef %s(%s=%s): return %s' % (u, a, v, a), []),
        'async': ('async def %s():\n    %s = 1' % (u, a), []),
        'starimp': ('from colorsys import *' + tag, []),
        'blankin': ('def %s():\n    %s = 1\n\n\n    return 2\n\n# end %d' % (u, a, n), []),
        'exprs': ('[%s, %s][0]%s' % (v, w, tag), []),
        'tabs': ('if %d:\n\t%s = %s' % (n, a, v), [b(a, vt)]),
        'delown': ('%s = 1\ndel %s' % (u, u), []),
        'doc': ('"""Docstring %d\nimport os\n%s = 3\n"""' % (n, a), []),
        'future': ('from __future__ import generator_stop' + tag, []),
    }
    text, ops = T[form]
    if form in ('importas', 'fromas', 'paren', 'bslash', 'lineimp', 'needimp', 'doc', 'future', 'starimp'):
        head = True
    if form == 'comment':
        head = True
    if form in ('doc', 'future'):
        rank = 0 if form == 'doc' else 1
    return dict(text=text, ops=ops, rank=rank, head=head, form=form)


def names_of(fx):
    out = {'s'}
    for d in fx['items'].values():
        for sig in d['sigs'] + [d.get('extra', [])]:
            for p in sig:
                out |= {p['n'], '@' + p['n']}
    for x in fx['blocks'].values():
        for o in x['ops']:
            out.add(o['k'])
    return sorted(out)


AFORMS = ['imp', 'lits', 'noass', 'both', 'both', 'noimp', 'none', 'onlyimp']


def always(rng, cls, forms=None):
    """always_import_strs and always_assign_strs"""
    ex = lambda n, v, t='', a='': dict(n=n, v=v, t=t, a=a)
    S = 'from pyfileconf import Selector'
    lits = [('zz = 5', ex('zz', 'int:5')), ('zz: int = 6', ex('zz', 'int:6', 'cls:int', 'int')), ("yy = 'y=y'", ex('yy', "str:'y=y'")), ('xx = [1, None]', ex('xx', 'list(int:1, NoneType:None)'))]
    lits += [('%s = 77' % p['n'], ex(p['n'], 'int:77')) for p in cls['sig'][:1]]
    imps = [('import math', 'ww = math.pi', ex('ww', 'float:3.141592653589793')), ('from math import floor as fl', 'vv = fl(3.5)', ex('vv', 'int:3')),
            ('from typing import List', 'uu: List[int] = [2]', ex('uu', 'list(int:2)', 'obj:List[int]', 'List[int]')), (S, 's = Selector()', ex('s', 'sel')),
            ('import os.path', "tt = os.path.join('a', 'b')", ex('tt', "str:'a/b'"))]
    form = rng.choice(forms or [''] * 4 + AFORMS)
    q = rng.sample(lits, rng.randint(1, 2))
    q = [x for k, x in enumerate(q) if x[1]['n'] not in [y[1]['n'] for y in q[:k]]]
    m = rng.sample(imps, rng.randint(1, 3))
    if form == 'none':
        cls['kw'].update(always_import_strs=[], always_assign_strs=[])
        return False, []
    if form == 'noass':
        cls['kw'].update(always_assign_strs=[])
        return False, []
    if form == 'onlyimp':
        cls['kw'].update(always_import_strs=[x for x, _, _ in m], always_assign_strs=[])
        return False, []
    if form == 'imp':
        cls['kw'].update(always_import_strs=[S] + [x for x, _, _ in m if x != S])
        return True, []
    if form == 'lits':
        cls['kw'].update(always_assign_strs=[x for x, _ in q])
        return False, [e for _, e in q]
    if form == 'noimp':
        cls['kw'].update(always_import_strs=[], always_assign_strs=[x for x, _ in q])
        return False, [e for _, e in q]
    if form == 'both':
        x = [(None,) + y for y in q] + m
        rng.shuffle(x)
        cls['kw'].update(always_import_strs=[y for y, _, _ in x if y], always_assign_strs=[y for _, y, _ in x])
        return False, [e for _, _, e in x]
    return True, []


def params(fx, i):
    return [p['n'] for sig in fx['items'][i]['sigs'] for p in sig] + [p['n'] for p in fx['items'][i].get('extra', []) if p['n'] != 's']


def project(rng, name, nitems=3, nsigs=1, nblocks=14, forms=FORMS, kinds=('func', 'func', 'cls', 'spec'), nparams=(0, 5), anns=0.4, nmods=2, later=False, aforms=None):
    g = Gen(rng)
    mods = {}
    items, spec = {}, None
    secs = rng.choice([['s'], ['s', 's.t'], ['s', 'u'], ['s.t', 's.t.w', 'u']])
    if later:
        secs = rng.choice([['s'], ['s', 'u'], ['s', 'u', 'v']])      # create needs dicts of lists
    need = {}
    kinds = [rng.choice(kinds) for _ in range(nitems)]
    speccls = None
    for n, kind in enumerate(kinds):
        m = 'm%d' % rng.randrange(nmods) if kind != 'spec' else 'mk'
        mods.setdefault(m, dict(items=[]))
        need.setdefault(m, [])
        names = rng.sample(NAMES, rng.randint(*nparams))
        sigs = []
        for k in range(nsigs):
            if k:
                names = [x for x in names if rng.random() < 0.8] + [x for x in rng.sample(NAMES, 2) if x not in names]
                rng.shuffle(names)
            sigs.append(make_sig(rng, names, m, need[m], kind, anns))
        if kind == 'spec':
            if speccls is None:
                speccls = dict(m=m, fn='Kind', sig=sigs[0], deco='', noise='', kw={})
                key = rng.choice(['name', 'name', 'key'])
                if key != 'name':
                    speccls['kw']['key_attr'] = key
                speccls['key'] = key
                speccls['sel'], speccls['extra'] = always(rng, speccls, aforms)
                mods[m]['items'] = ['?']
            i = rng.choice(['kd.s', 'kd.u.v', 'kd.w', 'kd.x.y.z'] if later else ['kd.s', 'kd.s', 'kd.s.sub']) + '.o%d' % n
            kp = dict(n=speccls['key'], d='None', v="str:'o%d'" % n, a='', t='', kind='pk')
            kp['as'] = ''
            sig = [kp] + speccls['sig']
            if mods[m]['items'] == ['?']:
                mods[m]['items'] = [i]
            items[i] = dict(kind=kind, m=m, fn='Kind', sigs=[sig], deco='', noise='', ret='', sel=speccls['sel'], extra=speccls['extra'])
        else:
            fn = ('f%d' if kind == 'func' else 'C%d') % n
            i = rng.choice(secs) + '.' + fn
            mods[m]['items'].append(i)
            items[i] = dict(kind=kind, m=m, fn=fn, sigs=sigs, deco=rng.choice(DECOS) if kind == 'func' else '', noise=rng.choice(NOISE),
                            ret=rng.choice(['', '', 'int', "'Nothing'"]))
    for m, d in mods.items():
        heads = rng.sample(HEADS, rng.randint(0, 6))
        fns = [items[i]['fn'] for i in d['items'] if i in items]
        heads += [rng.choice(SAMENAME).replace('NAME', fn) for fn in fns if rng.random() < 0.3]
        if 'x.y = 3' in heads:
            heads.remove('x.y = 3')
        if 'del p' in heads:
            heads.remove('del p')
        d['head'] = order_head(heads + need[m] if rng.random() < 0.5 else need[m] + heads)
        d['tail'] = rng.choice(TAILS)
    fx = dict(name=name, main=len(items) % 2 == 0, world='scafworld', module='Scaffold', cfg='ScaffoldModel.cfg', ids=list(items), initial=list(items), items=items, mods=mods,
              spec=dict(m=speccls['m'], fn='Kind', kw={k: v for k, v in speccls['kw'].items()}) if speccls else None, blocks={}, seccontents={}, acts=[], depth=0,
              probes=[], hdepth=0, clop={}, cl=[], pool=[])
    if later:
        # items which are created later
        fx['initial'] = rng.sample(fx['ids'], rng.randint(1, len(fx['ids']) - 1))
    for n in range(3):
        fx['seccontents']['c%d' % n] = rng.choice(SECTIONS) % n
    main = [i for i in items if items[i]['kind'] != 'spec']
    fx['paths'] = sorted({'.'} | {'.'.join(i.split('.')[:k]) for i in main for k in range(1, i.count('.') + 1)})
    fx['under'] = {p: [i for i in main if i.startswith(p + '.')] for p in fx['paths']}
    for n in range(nblocks):
        i = rng.choice(list(items))
        ps = params(fx, i)
        ps = sorted(set(ps)) or ['other1', 'other2']
        fx['blocks']['u%d' % n] = block(rng, g, ps, rng.choice(forms))
    fx['names'] = names_of(fx)
    return fx


# ------------------------------------------------------------------ actions
def load(form='fresh'):
    return dict(op='load', form=form)


def a_ins(rng, fx, n):
    out = []
    for _ in range(n):
        i = rng.choice(fx['ids'])
        u = rng.choice(sorted(fx['blocks']))
        r = fx['blocks'][u]['rank']
        pos = ['top', 'end', 'end'] + params(fx, i)
        out.append(dict(op='ins', i=i, b=u, pos='top' if r < 2 else rng.choice(pos)))
    return out


def a_write(rng, fx, n):
    out = []
    for _ in range(n):
        q = rng.sample(sorted(fx['blocks']), min(len(fx['blocks']), rng.choice([0, 1, 2, 3, 5])))
        lead = {}
        for u in q:
            if fx['blocks'][u]['rank'] < 2:
                lead.setdefault(fx['blocks'][u]['rank'], u)
        q = [lead[r] for r in sorted(lead)] + [u for u in q if fx['blocks'][u]['rank'] == 2]
        out.append(dict(op='write', i=rng.choice(fx['ids']), q=q))
    return out


def a_subs(rng, fx, n, op='sub'):
    out = []
    for _ in range(n):
        i = rng.choice(fx['ids'])
        ps = params(fx, i) + (['s'] if op == 'del' else [])
        us = [u for u in sorted(fx['blocks']) if fx['blocks'][u]['rank'] == 2]
        if not ps:
            continue
        a = dict(op=op, i=i, p=rng.choice(ps))
        if op == 'sub':
            a['b'] = rng.choice(us)
        out.append(a)
    return out


def a_delb(rng, fx, n):
    return [dict(op='delb', i=rng.choice(fx['ids']), b=rng.choice(sorted(fx['blocks']))) for _ in range(n)]


def a_each(rng, fx, op):
    return [dict(op=op, i=i) for i in fx['ids']]


def a_form(rng, fx, n, imps):
    fs = ['nonl', 'blank', 'top', 'crlf', 'lf'] + (['noimps'] * 2 if imps else [])
    return [dict(op='form', i=rng.choice(fx['ids']), f=rng.choice(fs)) for _ in range(n)]


def a_sig(fx):
    return [dict(op='sig', i=i, n=k + 1) for i, d in fx['items'].items() for k in range(len(d['sigs'])) if d['kind'] != 'spec' and len(d['sigs']) > 1]


def a_sec(rng, fx, n):
    return [dict(op='sec', path=rng.choice(fx['paths']), c=rng.choice(sorted(fx['seccontents']))) for _ in range(n)] + [dict(op='rmsec', path=p) for p in fx['paths'][:n // 2]]

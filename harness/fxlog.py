"""Support module of the generated projects: config files and the functions and classes of the
fixtures report what happens to them here. Also holds the injective encoding of values."""
import math

W = None                # current World
_iv = None


class FxError(Exception):
    """raised by an executed item"""
    fn = ''


# executed items raise exceptions of several kinds
ERRS = [FxError] + [type('Fx' + c.__name__, (FxError, c), {}) for c in (
    KeyError, LookupError, AttributeError, TypeError, ValueError, ImportError, AssertionError, OSError, NotImplementedError,
    RecursionError, NameError, TimeoutError, ArithmeticError)]


def error(fn, n):
    e = ERRS[n % len(ERRS)]('failed ' + fn)
    e.fn = fn
    W.raised.append(e)
    return e


class FxBad(Exception):
    """raised by a broken config file"""


# broken config files raise exceptions of several kinds
BADS = [FxBad] + [type('Bad' + c.__name__, (FxBad, c), {}) for c in (ImportError, ModuleNotFoundError, NameError, ValueError, OSError, FileNotFoundError, AttributeError, KeyError, TypeError, IndexError)]


class Res(str):
    """result of an executed item, encoded already"""


VALS = {}


def defval(code, src):
    VALS[code] = src


for _c, _s in {
    'N': 'None', 'i1': '1', 'i2': '2', 'i3': '3', 'i4': '4', 'i5': '5', 'i6': '6', 'i7': '7', 'i8': '8', 'i9': '9',
    'i10': '10', 'i20': '20', 'i0': '0',
    'sx': '"x"', 'sy': '"y"', 'sz': '"z"', 's': '""', 'f1.5': '1.5',
    '[i1;i2]': '[1, 2]', '[]': '[]', '{sk:i1}': '{"k": 1}', '(i1;sx)': '(1, "x")',
    'arr[1;2]': 'np.array([1, 2])', 'arr[3;4]': 'np.array([3, 4])', 'nan': 'float("nan")',
    'df{1;2}': 'pd.DataFrame({"c": [1, 2]})', 'df{3;4}': 'pd.DataFrame({"c": [3, 4]})',
    'len': 'len',
    # alike when printed
    'big1': 'np.arange(3000) // 1500', 'big2': 'np.arange(3000) // 1499', 'bdf1': 'pd.DataFrame({"c": [i // 60 for i in range(120)]})',
    'bdf2': 'pd.DataFrame({"c": [i // 59 for i in range(120)]})',
    # equal values in other containers
    'df{1.0;2.0}': 'pd.DataFrame({"c": [1.0, 2.0]})', 'dfd{1;2}': 'pd.DataFrame({"d": [1, 2]})', 'ser{1;2}': 'pd.Series([1, 2])',
    'arr[1;1]': 'np.array([1, 1])', 'uneq': '__import__("fxlog").Uneq()',
}.items():
    defval(_c, _s)
NEQ = ['arr[1;2]', 'arr[3;4]', 'nan', 'arr[1;1]', 'big1', 'big2', 'uneq']


def src(code):
    """source text of an encoded value"""
    if code in VALS:
        return VALS[code]
    if code.startswith('s'):
        return repr(code[1:])
    if code.startswith('i'):
        return code[1:]
    raise KeyError(code)


def live(code):
    """a fresh live value for an encoded value"""
    import numpy as np
    import pandas as pd
    if code.startswith('view:'):
        return W.view(code[5:])
    return eval(src(code), {'np': np, 'pd': pd})


def v(code):
    return live(code)


def is_view(x):
    global _iv
    if _iv is None:
        from pyfileconf.selector.models.itemview import is_item_view
        _iv = is_item_view
    return _iv(x)


def enc(x, sep=','):
    if type(x) is Res:
        return str(x)
    t = type(x)
    if x is None:
        return 'N'
    if t is bool:
        return 'b' + str(x)
    if t is int or t is OwnInt:
        return 'i%d' % x
    if t is str or t is OwnStr:
        return 's' + x
    if t is float:
        return 'nan' if math.isnan(x) else 'f%r' % x
    if t.__name__ == 'ItemView' and is_view(x):
        return 'view:' + x.section_path_str
    if t is list:
        return '[' + sep.join(enc(y, sep) for y in x) + ']'
    if t is tuple:
        return '(' + sep.join(enc(y, sep) for y in x) + ')'
    if t is dict:
        return '{' + sep.join(enc(k, sep) + ':' + enc(y, sep) for k, y in x.items()) + '}'
    if t.__name__ == 'ndarray':
        if x.size > 10:
            return 'big1' if x.max() == 1 else 'big2'
        return 'arr[' + ';'.join(str(y) for y in x.tolist()) + ']'
    if t.__name__ == 'Series':
        return 'ser{' + ';'.join(str(y) for y in x.tolist()) + '}'
    if t is Uneq:
        return 'uneq'
    if t.__name__ == 'DataFrame':
        if len(x) > 10:
            return 'bdf1' if x['c'].max() == 1 else 'bdf2'
        return ('df{' if x.columns[0] == 'c' else 'dfd{') + ';'.join(str(y) for y in x[x.columns[0]].tolist()) + '}'
    if x is len:
        return 'len'
    p = getattr(x, '_section_path_str', None)
    if p is not None:
        return 'obj:' + p
    return '?' + t.__name__


def encv(x):
    return enc(x, ';')


def kvs(ps, d):
    return ','.join('%s=%s' % (k, encv(d[k])) for k in ps if k in d)


def hit(path):
    if W is not None:
        W.ex.add(path)


def boom(path):
    raise BADS[sum(map(ord, path)) % len(BADS)](path)


def tampered(obj):
    """attributes were changed by something else than the constructor and _pyfileconf_update_"""
    d = obj.__dict__
    return any(k not in d or d[k] is not x for k, x in d.get('_shadow', {}).items() if k not in ('name', 'ident'))


class Uneq:
    def __eq__(self, other):
        raise RuntimeError('cannot be compared')


class OwnInt(int):
    pass


class OwnStr(str):
    pass


def own(x):
    """an object may store another value than the one it is given"""
    if type(x) is int:
        return OwnInt(x)
    if type(x) is str:
        return OwnStr(x)
    return list(x) if type(x) is list else dict(x) if type(x) is dict else x


def init(obj, ps, d, own_=False):
    if own_:
        d = {k: own(x) for k, x in d.items()}
    if tampered(obj):
        obj._t = True
    obj._ps = ps
    obj._shadow = dict(d)
    obj.__dict__.update(d)
    obj._n = obj.__dict__.get('_n', 0) + 1
    obj._c = obj.__dict__.get('_c', 0)


def upd(obj, kw, own_=False):
    if own_:
        kw = {k: own(x) for k, x in kw.items()}
    if tampered(obj) or not set(kw) <= set(obj._ps):
        obj._t = True
    obj._shadow = {**obj._shadow, **kw}
    obj.__dict__.update(kw)
    obj._n += 1


def body(fn, ver, ps, d, obj=None):
    import pyfileconf
    if obj is not None:
        obj._c += 1
    cur = pyfileconf.context.currently_running_section_path_str or '-'
    h = '%s@%s(%s)' % (fn, cur, kvs(ps, d))
    kv = kvs(ps, d)
    W.xs.append(h)
    out = []
    for o in W.fx['fns'][fn]['ops']:
        out.append(W.op(fn, o, d, obj))
    if W.fx.get('mutate'):
        for x in d.values():
            if type(x) is list:
                x.append(7)
                W.mutated.append(x)
    return result(W.fx['fns'][fn].get('rt', 'res'), Res('%s#%s(%s)[%s]' % (fn, ver, kv, ','.join(out))))


def result(rt, x):
    """items return values of several kinds"""
    return {'res': x, 'list': [x], 'tuple': (x,), 'none': None, 'zero': 0, 'empty': [], 'false': False,
            'exc': ValueError('returned'), 'str': '', 'dict': {'k': x}}[rt]

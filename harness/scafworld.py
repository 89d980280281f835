"""The real code behind Scaffold.tla: a project with one manager, whose config files are edited and loaded."""
import os
import re
import ast
import sys
import json
import types
import shutil
import importlib
sys.path.insert(0, os.environ.get('PFC_REPO', '/repo'))
sys.dont_write_bytecode = True
from base import Base

REL = '''
def helper(): pass
class Klass: pass
class Other: pass
thing = 17
long_thing_name = 19
class TC: pass
'''


def for_tla(fx):
    t = {k: fx[k] for k in ('name', 'ids', 'initial', 'paths', 'names', 'acts', 'depth', 'probes', 'hdepth', 'under')}
    t['items'] = {i: dict(sigs=[[{x: p[x] for x in 'nvta'} for p in sig if p['kind'] != 'po'] for sig in d['sigs']], sel=d.get('sel', True), extra=d.get('extra', [])) for i, d in fx['items'].items()}
    t['blocks'] = {u: dict(ops=b['ops'], rank=b['rank'], head=b['head']) for u, b in fx['blocks'].items()} or {'none': dict(ops=[], rank=2, head=False)}
    return t


def enc(v, depth=0):
    """a token for a value"""
    if depth > 6:
        return 'deep'
    e = lambda x: enc(x, depth + 1)
    if v is None or v is Ellipsis or isinstance(v, (bool, int, float, complex, str, bytes)):
        return '%s:%r' % (type(v).__name__, v)
    if isinstance(v, (list, tuple)):
        return '%s(%s)' % (type(v).__name__, ', '.join(e(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return '%s(%s)' % (type(v).__name__, ', '.join(sorted(e(x) for x in v)))
    if isinstance(v, dict):
        return '%s(%s)' % (type(v).__name__, ', '.join('%s=%s' % (e(x), e(y)) for x, y in v.items()))
    if isinstance(v, types.ModuleType):
        return 'mod:' + v.__name__
    own = str(getattr(v, '__module__', '')).startswith('scpkg')
    if isinstance(v, types.BuiltinFunctionType):
        return 'def:' + v.__name__
    if isinstance(v, types.FunctionType):
        if v.__name__ == '<lambda>':
            return 'fn:' + e(v(3))
        return 'def:%s.%s' % (v.__module__, v.__qualname__) if v.__module__ != 'cfg' and not hasattr(v, 'mark') and own \
            else 'udef:' + e(v())
    if isinstance(v, type) and not isinstance(v, types.GenericAlias):
        if not own and '_uv' in v.__dict__:
            return 'ucls:' + e(v._uv)
        return 'cls:%s.%s' % (v.__module__, v.__qualname__) if v.__module__ != 'builtins' else 'cls:' + v.__name__
    n = type(v).__name__
    if n == 'Selector':
        return 'sel'
    if n == 'ItemView':
        return 'view'
    if own:
        return 'inst:%s.%s' % (type(v).__module__, type(v).__qualname__)
    return 'obj:' + re.sub(r'^typing\.', '', repr(v))


def text_ann(src):
    return ast.unparse(ast.parse(src, mode='eval').body) if src else ''


class World(Base):
    def __init__(self, fx, root):
        self.fx, self.root = fx, os.path.realpath(root)
        self.sig = {i: 1 for i in fx['ids']}
        self.inn = {i: i in fx['initial'] for i in fx['ids']}
        self.pm = None

    # ---------------------------------------------------------------- files
    def write(self, path, text):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w', newline='') as f:
            f.write(text)

    def read(self, path):
        with open(path) as f:
            return f.read()

    def p(self, *a):
        return os.path.join(self.root, *a)

    def path(self, i):
        return self.p('p', 'defaults', *i.split('.')) + '.py'

    def secpath(self, p):
        return self.p('p', 'defaults', *([] if p == '.' else p.split('.')), 'section.py')

    def build(self):
        os.makedirs(self.root, exist_ok=True)
        sys.path.insert(0, self.root)
        self.write(self.p('scpkg', '__init__.py'), '')
        self.write(self.p('scpkg', 'rel.py'), REL)
        for m in self.fx['mods']:
            self.write_mod(m)
        self.write_dicts()
        import logging
        import pyfileconf                                       # so that the children have it already
        lg = logging.getLogger('pyfileconf')
        lg.handlers = [h for h in lg.handlers if type(h) is not logging.StreamHandler]
        lg.propagate = False
        return self

    def param(self, p):
        return '%s%s%s' % (p['n'], ': ' + p['as'] if p['as'] else '', (' = ' if p['as'] else '=') + p['d'] if p['d'] else '')

    def params(self, sig, slf):
        po = [p for p in sig if p['kind'] == 'po']
        pk = [p for p in sig if p['kind'] == 'pk']
        kw = [p for p in sig if p['kind'] == 'kw']
        out = (['self'] if slf else []) + [self.param(p) for p in po] + (['/'] if po else []) + [self.param(p) for p in pk]
        if kw:
            out += ['*%s' % (sig[0].get('args', '') if sig else '')] + [self.param(p) for p in kw]
        elif sig and sig[0].get('args'):
            out.append('*' + sig[0]['args'])
        if sig and sig[0].get('kws'):
            out.append('**' + sig[0]['kws'])
        sep = ',\n        ' if sig and sig[0].get('ml') else ', '
        return sep.join(out)

    def write_mod(self, m):
        d = self.fx['mods'][m]
        out = [d['head']]
        for i in d['items']:
            it = self.fx['items'][i]
            sig = it['sigs'][self.sig[i] - 1]
            kv = '{%s}' % ', '.join('%r: %s' % (p['n'], p['n']) for p in sig)
            if it['kind'] == 'func':
                ret = ' -> %s' % it['ret'] if it['ret'] else ''
                out.append('%sdef %s(%s)%s:\n%s    return %s\n' % (it['deco'], it['fn'], self.params(sig, False), ret, it['noise'], kv))
            else:
                out.append('%sclass %s:\n    z = 3\n    class Nested:\n        def __init__(self, nn=1): pass\n    def other(self, zz=4):\n        q = r = 5\n        return q\n    def __init__(%s):\n%s'
                           '        for k, v in %s.items(): setattr(self, k, v)\n' % (
                               it['deco'] if it['kind'] == 'cls' else '', it['fn'], self.params(sig, True), ''.join('    ' + x + '\n' for x in it['noise'].splitlines()), kv))
        out.append(d['tail'])
        self.write(self.p('scpkg', m + '.py'), '\n'.join(out))

    def nest(self, leaves, txt):
        """{section: {...}} text for paths"""
        here = [x for x in leaves if len(x[0]) == 1]
        subs = {}
        for x in leaves:
            if len(x[0]) > 1:
                subs.setdefault(x[0][0], []).append((x[0][1:], x[1]))
        parts = [txt(x[1]) for x in here] + ['{%r: %s}' % (k, self.nest(v, txt)) for k, v in subs.items()]
        if not here:
            return '{%s}' % ', '.join('%r: %s' % (k, self.nest(v, txt)) for k, v in subs.items())
        return '[%s]' % ', '.join(parts)

    def write_dicts(self):
        its = [i for i in self.fx['ids'] if self.inn[i]]
        main = [i for i in its if self.fx['items'][i]['kind'] != 'spec']
        imps = ''.join('from scpkg.%s import %s\n' % (self.fx['items'][i]['m'], self.fx['items'][i]['fn']) for i in main)
        src = self.nest([(i.split('.'), i) for i in main], lambda i: self.fx['items'][i]['fn']) if main else '{}'
        self.dicts = {self.p('p', 'pipeline_dict.py'): imps + '\npipeline_dict = %s\n' % src}
        if self.fx['spec']:
            q = [i for i in its if self.fx['items'][i]['kind'] == 'spec']
            src = self.nest([(i.split('.')[1:], i) for i in q], lambda i: repr(i.split('.')[-1])) if q else '{}'
            self.dicts[self.p('p', 'kd_dict.py')] = '\nclass_dict = %s\n' % src
        for p, t in self.dicts.items():
            self.write(p, t)

    # ---------------------------------------------------------------- config files
    def lines(self, i):
        return self.read(self.path(i)).split('\n')

    def save(self, i, lines):
        p = self.path(i)
        crlf = False
        if os.path.exists(p):
            with open(p, newline='') as f:
                crlf = '\r\n' in f.read()
        t = '\n'.join(lines)
        if t and not t.endswith('\n'):
            t += '\n'
        self.write(p, t.replace('\n', '\r\n') if crlf else t)

    def user_ranges(self, lines):
        """[(first line, one past the last, block)] of the user blocks found verbatim"""
        out = []
        for u, b in self.fx['blocks'].items():
            q = b['text'].split('\n')
            for n in range(len(lines) - len(q) + 1):
                if lines[n:n + len(q)] == q:
                    out.append((n, n + len(q), u))
        return sorted(out)

    def statements(self, lines):
        """[(first line, one past the last, node)] of the statements which are not the user's"""
        mine = set()
        for a, b, _ in self.user_ranges(lines):
            mine |= set(range(a, b))
        out = []
        for x in ast.parse('\n'.join(lines)).body:
            if x.lineno - 1 not in mine:
                out.append((x.lineno - 1, x.end_lineno, x))
        return out

    @staticmethod
    def target(x):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            return x.targets[0].id, ''
        if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
            return x.target.id, text_ann(x.annotation.value if isinstance(x.annotation, ast.Constant) and isinstance(x.annotation.value, str)
                                         else ast.unparse(x.annotation))
        return None

    def entry(self, i, name):
        """first scaffolded statement of the name"""
        if not os.path.exists(self.path(i)):
            return None
        lines = self.lines(i)
        for a, b, x in self.statements(lines):
            t = self.target(x)
            if t and t[0] == name:
                return a, b
        return None

    def blocks(self, i):
        return [u for _, _, u in self.user_ranges(self.lines(i))] if os.path.exists(self.path(i)) else []

    # ---------------------------------------------------------------- observations
    def obs_file(self, i):
        if not os.path.exists(self.path(i)):
            return dict(st='missing', usr=[], ent=[])
        lines = self.lines(i)
        ent = {}
        try:
            for _, _, x in self.statements(lines):
                t = self.target(x)
                if isinstance(x, (ast.Import, ast.ImportFrom)) or t == ('s', ''):
                    continue
                if t and t[0] not in ent:
                    ent[t[0]] = t[1]
                else:
                    ent['? ' + ast.unparse(x)] = ''
        except SyntaxError as e:
            return dict(st='error', usr=[], ent={'syntax': str(e)})
        return dict(st='ok', usr=[u for _, _, u in self.user_ranges(lines)], ent=ent or [])

    def obs_val(self, i):
        if not os.path.exists(self.path(i)):
            return dict(st='missing', env=[])
        ns = {'__name__': 'cfg'}
        try:
            with open(self.path(i), 'rb') as f:
                exec(compile(f.read(), self.path(i), 'exec', dont_inherit=True), ns)
        except Exception as e:
            self.detail = repr(e)
            return dict(st='error', env=[])
        env = {k: enc(v) for k, v in ns.items() if k in self.fx['names']}
        for k, v in ns.get('__annotations__', {}).items():
            try:
                env['@' + k] = enc(eval(v, ns) if isinstance(v, str) else v)    # annotations may be quoted
            except Exception as e:
                env['@' + k] = repr(e)
        return dict(st='ok', env={k: v for k, v in env.items() if k in self.fx['names']} or [])

    def sig_of(self, i):
        return [p for p in self.fx['items'][i]['sigs'][self.sig[i] - 1] if p['kind'] != 'po']

    def obs_got(self, pm, i):
        if not self.inn[i]:
            return dict(st='missing', env=[])
        it = self.fx['items'][i]
        ns = [p['n'] for p in self.sig_of(i)]
        try:
            x = pm.get(i)
            d = x.keywords if it['kind'] == 'func' else x.__dict__
            return dict(st='ok', env={k: enc(d[k]) for k in ns if k in d} or [])
        except Exception as e:
            self.detail = repr(e)
            return dict(st='error', env=[])

    def tree(self):
        out = {}
        for r, ds, fs in os.walk(self.p('p')):
            for f in fs:
                p = os.path.join(r, f)
                if '__pycache__' not in p:
                    with open(p, 'rb') as fh:
                        out[p] = fh.read()
        return out

    def manager(self):
        import pyfileconf
        importlib.invalidate_caches()
        scs = []
        if self.fx['spec']:
            c = {'name': 'kd', 'class': getattr(importlib.import_module('scpkg.' + self.fx['spec']['m']), self.fx['spec']['fn'])}
            c.update(self.fx['spec']['kw'])
            scs.append(c)
        pm = pyfileconf.PipelineManager(self.p('p'), name='p', specific_class_config_dicts=scs)
        main = sys.modules['__main__']
        if scs and self.fx['main']:
            main.imported_by_script = scs[0]['class']            # the script which loads the manager has imported the class
        try:
            pm.load()
        finally:
            main.__dict__.pop('imported_by_script', None)
        return pm

    def forked(self, f):
        """the result of f in a child; the parent keeps its modules and managers"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    x = f()
                except Exception as e:
                    x = dict(fail=repr(e)[:300])
                with os.fdopen(w, 'w') as fh:
                    json.dump(x, fh)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as fh:
            t = fh.read()
        os.waitpid(pid, 0)
        return json.loads(t) if t else dict(fail='died')

    def forget(self):
        for k in [k for k in sys.modules if k.split('.')[0] == 'scpkg']:
            del sys.modules[k]

    def evaluate(self):
        self.forget()
        return {i: self.obs_val(i) for i in self.fx['ids']}

    def create(self, pm, i):
        it = self.fx['items'][i]
        if it['kind'] == 'spec':
            pm.create(i)
        else:
            pm.create(i.rsplit('.', 1)[0], getattr(importlib.import_module('scpkg.' + it['m']), it['fn']))
        self.inn[i] = True

    def fresh(self, i=None):
        pm = self.manager()
        if i:
            self.create(pm, i)
        return {i: self.obs_got(pm, i) for i in self.fx['ids']}

    def again(self):
        before = self.tree()
        self.manager() if self.pm is None else self.pm.reload()
        after = self.tree()
        return [os.path.relpath(p, self.root) for p in sorted(set(before) | set(after))
                if p not in before or p not in after or before[p].rstrip() != after[p].rstrip()]

    def load(self, form, new=None):
        """load, and create an item if one is given"""
        ret = ''
        if form == 'fresh':
            got = self.forked(lambda: self.fresh(new))
            if new:
                self.inn[new] = True
                self.write_dicts()
        else:
            try:
                if self.pm is None:
                    self.pm = self.manager()
                else:
                    self.pm.reload()
                got = self.forked(lambda: {i: self.obs_got(self.pm, i) for i in self.fx['ids']})
            except Exception as e:
                self.pm = None
                got = dict(fail=repr(e)[:300])
        if 'fail' in got:
            ret, got = 'raise ' + got['fail'], []
        val = self.forked(self.evaluate)
        for i in got or ():
            # modules are not values of a config
            if self.inn[i] and any(dict(val[i]['env']).get(p['n']) == 'mod:json' for p in self.sig_of(i)):
                got[i] = dict(st='module', env=[])
        idem = self.forked(self.again)
        if isinstance(idem, dict):
            idem = ['load failed ' + idem['fail']]
        know = {self.path(i) for i in self.fx['ids']} | set(self.dicts)
        stray, secs = [], {}
        for p, t in self.tree().items():
            if os.path.basename(p) == 'section.py':
                s = os.path.relpath(os.path.dirname(p), self.p('p', 'defaults')).replace(os.sep, '.')
                if s in self.fx['paths']:
                    secs[s] = {c: n for n, c in self.fx['seccontents'].items()}.get(t.decode(), 'new' if t == b'\n' else repr(t))
                else:
                    stray.append(os.path.relpath(p, self.root))
            elif p not in know:
                stray.append(os.path.relpath(p, self.root))
        same = all(self.read(p) == t for p, t in self.dicts.items())
        return dict(ret=ret, file={i: self.obs_file(i) for i in self.fx['ids']}, val=val, got=got, sec=secs or [], idem=idem,
                    dict='same' if same else 'different', stray=sorted(stray))

    # ---------------------------------------------------------------- actions
    def insert(self, i, u, pos):
        text = self.fx['blocks'][u]['text'].split('\n')
        rank = self.fx['blocks'][u]['rank']
        lines = self.lines(i) if os.path.exists(self.path(i)) else []
        while lines and lines[-1] == '':
            lines.pop()
        if pos == 'top':
            n = max([b for _, b, x in self.user_ranges(lines) if self.fx['blocks'][x]['rank'] < rank], default=0)
        elif pos == 'end':
            n = len(lines)
        else:
            n = self.entry(i, pos)[0]
        self.save(i, lines[:n] + text + lines[n:])

    def form(self, i, f):
        p = self.path(i)
        with open(p, newline='') as fh:
            t = fh.read()
        if f == 'nonl':
            t = t.rstrip('\r\n')
        elif f == 'blank':
            t += '\n\n\n'
        elif f == 'top':
            t = '\n\n' + t
        elif f == 'crlf':
            t = t.replace('\r\n', '\n').replace('\n', '\r\n')
        elif f == 'lf':
            t = t.replace('\r\n', '\n')
        elif f == 'noimps':
            lines = self.lines(i)
            for a, b, x in reversed(self.statements(lines)):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    del lines[a:b]
            t = '\n'.join(lines)
        self.write(p, t)

    def act(self, a):
        op = a['op']
        i = a.get('i')
        if op == 'write':
            if os.path.exists(self.path(i)):
                os.remove(self.path(i))
            self.save(i, '\n'.join(self.fx['blocks'][u]['text'] for u in a['q']).split('\n') if a['q'] else [''])
        elif op == 'ins':
            self.insert(i, a['b'], a['pos'])
        elif op in ('sub', 'del'):
            x, y = self.entry(i, a['p'])
            lines = self.lines(i)
            lines[x:y] = self.fx['blocks'][a['b']]['text'].split('\n') if op == 'sub' else []
            self.save(i, lines)
        elif op == 'delb':
            lines = self.lines(i)
            x, y, _ = [r for r in self.user_ranges(lines) if r[2] == a['b']][0]
            del lines[x:y]
            self.save(i, lines)
        elif op == 'rm':
            os.remove(self.path(i))
        elif op == 'form':
            self.form(i, a['f'])
        elif op == 'sig':
            self.sig[i] = a['n']
            self.write_mod(self.fx['items'][i]['m'])
        elif op in ('drop', 'add'):
            self.inn[i] = op == 'add'
            self.write_dicts()
        elif op == 'sec':
            self.write(self.secpath(a['path']), self.fx['seccontents'][a['c']])
        elif op == 'rmsec':
            os.remove(self.secpath(a['path']))
        else:
            raise AssertionError(op)

    def do(self, a):
        if a['op'] == 'load':
            return self.load(a['form'])
        if a['op'] == 'create':
            return self.load('fresh', a['i'])
        try:
            self.act(a)
            return dict(ret='')
        except Exception as e:
            return dict(ret='raise ' + repr(e)[:300])

    def enabled(self, a):
        op, i = a['op'], a.get('i')
        if op in ('load', 'write', 'sec'):
            return True
        if op == 'rmsec':
            return os.path.exists(self.secpath(a['path']))
        if op == 'sig':
            return self.sig[i] != a['n']
        if op == 'drop':
            return self.inn[i]
        if op == 'add':
            return not self.inn[i]
        if op == 'create':
            return not self.inn[i] and self.forked(lambda: self.obs_val(i))['st'] != 'error'
        ex = os.path.exists(self.path(i))
        if op in ('rm', 'form'):
            return ex
        if op == 'delb':
            return a['b'] in self.blocks(i)
        if op == 'ins':
            have = self.blocks(i)
            if a['b'] in have:
                return False
            if a['pos'] not in ('top', 'end') and not self.entry(i, a['pos']):
                return False
            r = self.fx['blocks'][a['b']]['rank']
            return r == 2 or (a['pos'] == 'top' and all(self.fx['blocks'][u]['rank'] != r for u in have))
        if op == 'sub':
            return self.entry(i, a['p']) is not None and a['b'] not in self.blocks(i)
        if op == 'del':
            return self.entry(i, a['p']) is not None
        raise AssertionError(op)

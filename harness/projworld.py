"""The real code behind Project.tla: creating managers over the files of a project, loading and finding them."""
import gc
import os
import sys
import shutil
import logging
import warnings
import importlib
sys.path.insert(0, os.environ.get('PFC_REPO', '/repo'))
sys.dont_write_bytecode = True
from base import Base

ITEMS = '''
def f1(x=1):
    return x
def f2(x=1):
    return x
class K:
    def __init__(self, name=None, x=1):
        self.name, self.x = name, x
    def __call__(self):
        return self.x
'''
NEST = {'s/f1': ('s', 'f1'), 's/u/f2': ('s', 'u', 'f2'), 'f1': ('f1',), 's/k1': ('s', 'k1'), 's/k2': ('s', 'k2')}


def for_tla(fx):
    return {k: fx[k] for k in ('name', 'projs', 'names', 'paths', 'anc', 'under', 'tok', 'fs', 'acts', 'depth', 'probes', 'hdepth')}


def text(tok, items):
    """of a dict file; its token is in a comment"""
    main = tok[0] == 'm'
    d = {}
    for i in items:
        path = i[:-3].split('/')
        if len(path) == 1:
            continue
        x = d
        for k in path[:-2]:
            y = x.setdefault(k, [])
            x = next((e for e in y if isinstance(e, dict)), None)
            if x is None:
                x = {}
                y.append(x)
        x.setdefault(path[-2], []).append(path[-1])
    def show(x):
        if isinstance(x, dict):
            return '{%s}' % ', '.join('%r: %s' % (k, show(v)) for k, v in x.items())
        if isinstance(x, list):
            return '[%s]' % ', '.join(show(v) for v in x)
        return x if main else repr(x)
    out = show(d)
    if main:
        tops = [i[:-3] for i in items if '/' not in i]
        assert not tops or not d
        if tops:
            out = '[%s]' % ', '.join(tops)
        names = sorted({i[:-3].split('/')[-1] for i in items})
        return '# token %s\n%s\npipeline_dict = %s\n' % (tok, 'from projitems import %s' % ', '.join(names) if names else '', out)
    return '# token %s\nclass_dict = %s\n' % (tok, out)


class World(Base):
    def __init__(self, fx, root):
        self.fx, self.root = fx, os.path.realpath(root)
        self.refs = {}
        self.all = []

    def at(self, p):
        return os.path.join(self.root, p)

    def write(self, p, v):
        os.makedirs(os.path.dirname(self.at(p)), exist_ok=True)
        if v in self.fx['tok']:
            t = text(v, self.fx['tok'][v])
        elif p.endswith('_dict.py') or p.endswith('.txt'):
            t = '# token %s\n' % v
        else:
            t = '# token %s\nx = %s\n' % (v, v[1:])
        with open(self.at(p), 'w') as f:
            f.write(t)

    def build(self):
        os.makedirs(self.root, exist_ok=True)
        os.chdir(self.root)
        sys.path.insert(0, self.root)
        with open(self.at('projitems.py'), 'w') as f:
            f.write(ITEMS)
        for p, v in self.fx['fs'].items():
            if v == 'dir':
                os.makedirs(self.at(p), exist_ok=True)
            elif v:
                self.write(p, v)
        import pyfileconf
        self.lib = pyfileconf
        lg = logging.getLogger('pyfileconf')
        lg.handlers = [h for h in lg.handlers if type(h) is not logging.StreamHandler]
        lg.propagate = False
        importlib.invalidate_caches()
        self.K = importlib.import_module('projitems').K
        self.made = 0
        return self

    # ---------------------------------------------------------------- observations
    def tree(self):
        """the token of each path"""
        out = {p: '' for p in self.fx['paths']}
        for r, ds, fs in os.walk(self.root):
            for d in ds:
                p = os.path.relpath(os.path.join(r, d), self.root)
                if d == '__pycache__':
                    continue
                if p in out or not self.scaffolded(p):
                    out[p] = 'dir'
            for f in fs:
                p = os.path.relpath(os.path.join(r, f), self.root)
                if f.startswith('pyfileconf.log') or f in ('projitems.py', 'section.py') or f.endswith('.pyc'):
                    continue
                with open(os.path.join(r, f)) as fh:
                    t = fh.read()
                if '# token ' in t:
                    v = t.split('# token ')[1].split()[0]
                    out[p] = v if self.whole(p, v, t) else 'changed %s: %s' % (v, t)
                else:
                    out[p] = 'new' if self.pristine(p, t) else 'text: ' + t
        return ['%s=%s' % (p, v) for p, v in out.items() if v]

    def scaffolded(self, p):
        """config folders may contain folders which the model has no name for"""
        return False

    def whole(self, p, v, t):
        if v in self.fx['tok']:
            return t == text(v, self.fx['tok'][v])
        return t == '# token %s\n' % v or ('x = %s' % v[1:]) in t

    def pristine(self, p, t):
        if p.endswith('_dict.py'):
            ns = {}
            exec(t, ns)
            return ns.get('pipeline_dict' if p.endswith('/pipeline_dict.py') else 'class_dict') == {}
        return 'x = 1' in t or 'x: ' in t

    def number(self, pm):
        for n, x in self.all:
            if x() is pm:
                return n
        return '?'

    def active(self):
        act = self.lib.context.active_managers
        out = ''
        for m in self.fx['names']:
            out += '%s %s;' % (m, 'manager %s' % self.number(act[m]) if m in act else 'none')
        extra = [m for m in act if m not in self.fx['names']]
        return out + ''.join(' extra ' + m for m in extra)

    # ---------------------------------------------------------------- actions
    def spell(self, p, form):
        if form == 'abs':
            return self.at(p)
        if form == 'rel':
            return p
        if form == 'slash':
            return self.at(p) + os.sep
        if form == 'dots':
            return os.path.join(self.root, 'zz', '..', p) if os.path.isdir(self.at('zz')) else os.path.join(self.root, '.', p)
        raise AssertionError(form)

    def new(self, a):
        import weakref
        dicts = [{'name': d, 'class': self.K} for d in a['dicts']]
        kw = {}
        if dicts:
            kw['specific_class_config_dicts'] = dicts
        if a['cfg'] != 'defaults':
            kw['default_config_folder_name'] = a['cfg']
        if a['mode'] in ('fc', 'both'):
            kw['force_continue'] = True
        if a['mode'] in ('pdb', 'both'):
            kw['auto_pdb'] = lambda *x: None
        pm = self.lib.PipelineManager(self.spell(a['proj'], a['form']), name=a['m'], **kw)
        self.made += 1
        self.all.append((self.made, weakref.ref(pm)))
        self.refs[self.made] = pm
        return 'made'

    def pm(self, m):
        return self.lib.context.active_managers[m]

    def both(self, x, y):
        assert x == y
        return x

    def listed(self, pm, loaded):
        """dir() of a manager gives its methods, its specific class dicts, and the items and sections which it has"""
        have = {getattr(i, 'output_name', None) or i.name for i in pm._general_registrar.collection.items} if loaded else set()
        assert set(dir(pm)) == have | {'run', 'run_product', 'run_product_gen', 'get', 'update', 'load', 'reload', 'refresh', 'reset', 'name'} | set(pm.specific_class_names)

    def vals(self, m):
        pm = self.pm(m)
        pm.load()
        cfg = os.path.relpath(pm.default_config_path, self.root)
        proj = os.path.relpath(pm.folder, self.root)
        out, names = '', []
        def walk(c, pre):
            for i in c.items:
                if hasattr(i, 'items') and hasattr(i, 'basepath'):
                    walk(i, pre + [i.name])
                else:
                    names.append(pre + [i.output_name if hasattr(i, 'output_name') else i.name])
        pairs = [(pm._general_registrar.collection, [])] + [(r.collection, [r.name]) for r in pm._registrars]
        for c, pre in pairs:
            walk(c, pre)
        for n in names:
            obj = pm.get('.'.join(n))
            x = obj.keywords['x'] if hasattr(obj, 'keywords') else obj.x
            out += '%s/%s/%s.py=%s ' % (proj, cfg.split('/')[-1], '/'.join(n), 'new' if x == 1 else 'v%s' % x)
        return out

    def act(self, a):
        op = a['op']
        if op == 'new':
            return self.new(a)
        if op == 'load':
            self.pm(a['m']).load()
            return 'loaded'
        if op == 'vals':
            return self.vals(a['m'])
        if op == 'put':
            self.write(a['p'], a['v'])
            importlib.invalidate_caches()
        elif op == 'mkdir':
            os.makedirs(self.at(a['p']), exist_ok=True)
        elif op == 'rm':
            p = self.at(a['p'])
            assert os.path.realpath(p).startswith(self.root + os.sep)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.remove(p)
        elif op == 'log':
            self.lib.options.log_folder.value = self.at(a['p']) if a['p'] else None
            self.lf = a['p']
        elif op == 'file':
            from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForFilepathException as E
            try:
                pm = self.lib.PipelineManager.get_manager_by_filepath(self.spell(a['file'], a['form']))
            except E:
                return 'none'
            if self.lib.context.active_managers.get(pm.name) is not pm:
                return 'inactive manager %s' % self.number(pm)
            return 'in ' + os.path.relpath(pm.folder, self.root)
        elif op == 'path':
            from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForSectionPathException as E
            try:
                return 'manager %s' % self.number(self.lib.PipelineManager.get_manager_by_section_path_str(a['m'] + a['rest']))
            except E:
                return 'none'
        elif op == 'sel':
            s = self.lib.Selector()
            for pm in self.lib.context.active_managers.values():
                self.listed(pm, pm.name in s)
            return ''.join(m + ' ' for m in self.fx['names'] if self.both(m in dir(s), m in s))
        elif op == 'drop':
            self.refs.clear()
            gc.collect()
        elif op == 'forget':
            self.lib.context.reset()
        else:
            raise AssertionError(op)
        return ''

    def do(self, a):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                ret = self.act(a)
            except Exception as e:
                ret = type(e).__name__
                self.ret_detail = repr(e)
        return dict(ret=ret, warn=sum('should not repeat names' in str(w.message) for w in ws), fs=self.tree(), act=self.active())

    def enabled(self, a):
        op = a['op']
        if op in ('load', 'vals'):
            pm = self.lib.context.active_managers.get(a['m'])
            return pm is not None and all(os.path.exists(f) for f in [pm.pipeline_dict_path] + [
                os.path.join(pm.folder, n + '_dict.py') for n in pm.specific_class_names])
        if op == 'rm':
            return os.path.exists(self.at(a['p']))
        return True

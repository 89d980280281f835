"""Builds a project on disk from a fixture, performs actions of the specification on the real library and
returns the observations which the specification predicts. Only public interfaces are observed."""
import os
import re
import sys
import json
import shutil
import logging
import builtins
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
REPO = os.environ.get('PFC_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
from base import Base
import fxlog  # noqa: E402
from fxlog import enc, encv, kvs, FxError, FxBad, Res  # noqa: E402

L = lambda v: dict(t='lit', v=v, i='', k='')
V = lambda i: dict(t='view', v='', i=i, k='')
A = lambda i, k='a': dict(t='attr', v='', i=i, k=k)
C = lambda i: dict(t='call', v='', i=i, k='')


def fixture(name, trees, fns, spec=None, files=None, secs=None, mode=None, absent=(), prerun=(), preupd=None,
            batch=(), dup=False, alias=None, **extra):
    """
    trees: manager -> nested dict/list of main functions and classes (pipeline dict)
    spec:  manager -> {dict name: dict(cls=, exec=, upd=, tree=)}
    fns:   name -> dict(kind, ps, dflt, ops)
    files: item -> {key: expr} (completes with defaults)
    secs:  section -> {key: value}
    absent: items which do not exist at first
    alias: manager -> {name in the pipeline dict: function or class} of renamed imports
    """
    spec = spec or {}
    alias = alias or {}
    files = files or {}
    fx = dict(name=name, ms=list(trees), fns={}, it={}, file={}, has=[], mem={}, sfile={}, mof={}, spec=spec,
              mode={m: (mode or {}).get(m, 'plain') for m in trees}, neq=fxlog.NEQ, prerun=list(prerun),
              preupd=preupd or dict(i='', u=[]), preupd2=dict(i='', u=[]), batch=list(batch), trees=trees, secsrc=secs or {}, absent=list(absent), alias=alias)
    fx['nn'] = True
    fx.update(extra)
    for fn, d in fns.items():
        d = dict(d)
        d.setdefault('kind', 'func')
        d.setdefault('ops', [])
        d.setdefault('dflt', {})
        d.setdefault('upd', False)
        for k in d['ps']:
            d['dflt'].setdefault(k, 'N')
        fx['fns'][fn] = d

    def add(m, rel, fn, kind, secpath):
        path = m + '.' + rel
        d = fx['fns'][fn]
        secl = []
        parts = (m + '.' + secpath).split('.')
        for n in range(1, len(parts) + 1):
            secl.append('.'.join(parts[:n]))
        dflt = {k: L(v) for k, v in d['dflt'].items()}
        if kind == 'spec':
            dflt[d['ps'][0]] = L('s' + rel.split('.')[-1])
        fx['it'][path] = dict(m=m, rel=rel, kind=kind, ps=d['ps'], fn=fn, secs=secl, ops=d['ops'], dflt=dflt, rt=d.get('rt', 'res'))
        fx['mof'][path] = m
        f = dict(dflt)
        f.update(files.get(path, {}))
        fx['file'][path] = f
        if path not in fx['absent']:
            fx['has'].append(path)
        return path

    def walk(m, sec, node, kind, fn=None):
        full = m + ('.' + sec if sec else '')
        members = fx['mem'].setdefault(full, [])
        fx['mof'][full] = m

        def item(x):
            rel = (sec + '.' if sec else '') + x
            y = alias.get(m, {}).get(x, x)
            p = add(m, rel, fn or y, kind or fx['fns'][y]['kind'], sec)
            if p not in fx['absent']:
                members.append(p)

        def sub(k, x):
            s2 = (sec + '.' if sec else '') + k
            members.append(m + '.' + s2)
            walk(m, s2, x, kind, fn)
        if isinstance(node, dict):
            for k, x in node.items():
                sub(k, x)
        else:
            for x in node:
                if isinstance(x, dict):
                    for k, y in x.items():
                        sub(k, y)
                else:
                    item(x)

    for m in trees:
        walk(m, '', trees[m], None)
        for dn, dc in spec.get(m, {}).items():
            fn = '%s.%s' % (dc['cls'], dc.get('exec', '__call__'))
            if fn not in fx['fns']:
                fx['fns'][fn] = dict(fx['fns'][dc['cls']])
            top = fx['mem'][m]
            walk(m, dn, dc['tree'], 'spec', fn)
            if m + '.' + dn in top:
                top.remove(m + '.' + dn)
    for s in fx['mem']:
        fx['sfile'][s] = dict((secs or {}).get(s, {}))
    fx['views'] = {'view:' + p: p for p in fx['it']}
    return fx


def for_tla(fx):
    keys = ['name', 'ms', 'mode',  'it', 'file', 'has', 'mem', 'sfile', 'mof', 'neq', 'views', 'prerun', 'preupd', 'preupd2', 'batch']
    out = {k: fx[k] for k in keys}
    for k in ('acts', 'depth', 'probes', 'hdepth', 'nn'):
        out[k] = fx[k]
    out['cl'] = sorted(set(fx['cl']).union(*fx['clop'].values()))
    return out


LOADS = ('reload', 'setsrc', 'srcbad', 'secbad')


class ErrHandler(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.ERROR)
        self.msgs = []

    def emit(self, record):
        try:
            self.msgs.append(record.getMessage())
        except Exception as e:  # pragma: no cover
            self.msgs.append('?' + repr(e))


PMNAMES = {'run', 'run_product', 'run_product_gen', 'get', 'update', 'load', 'reload', 'refresh', 'reset', 'name'}


class World(Base):
    def __init__(self, fx, root):
        self.fx = fx
        self.root = root
        fxlog.W = self
        self.ex, self.xs, self.ev, self.dbg = set(), [], [], 0
        self.held = {}
        self.file = {i: dict(f) for i, f in fx['file'].items()}
        self.fe = set(fx['has'])
        self.bad = set()
        self.sfile = {s: dict(d) for s, d in fx['sfile'].items()}
        self.sref = {}
        self.dmem = {s: list(x) for s, x in fx['mem'].items()}
        self.mem = {s: list(x) for s, x in fx['mem'].items()}
        self.mv = {m: '1' for m in fx['ms']}
        self.sbad = set()
        self.xbad = set()
        self.raised = []
        self.kept = {}
        self.mutated = []
        self.has = set(fx['has'])
        self.own = set()
        self.down = set()
        self.pending, self.loaded = set(), ''
        self.prodn = self.prodlen = 0
        self.pms = {}
        self.plugs = {}
        self.prod = None
        self.gen = None
        self.sel = None

    # ---------------------------------------------------------------- building
    def path(self, i):
        it = self.fx['it'][i]
        return os.path.join(self.root, it['m'], 'defaults', *it['rel'].split('.')) + '.py'

    def secpath(self, s):
        parts = s.split('.')
        return os.path.join(self.root, parts[0], 'defaults', *parts[1:], 'section.py')

    def write(self, path, text):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)

    def expr_src(self, e):
        if e['t'] == 'lit':
            if e['v'].startswith('view:'):
                return 's.' + e['v'][5:]
            return fxlog.src(e['v'])
        base = 's.' + e['i']
        if e['t'] == 'view':
            return base
        if e['t'] == 'call':
            return base + '()'
        if self.fx['it'][e['i']]['kind'] == 'func':
            return '%s.keywords["%s"]' % (base, e['k'])
        return '%s.%s' % (base, e['k'])

    def item_text(self, i):
        it = self.fx['it'][i]
        body = []
        for k in it['ps']:
            if k in self.file[i]:
                line = '%s = %s' % (k, self.expr_src(self.file[i][k]))
                if sum(map(ord, i)) % 3 == 0 and not hasattr(builtins, k):
                    # values depend on the names which are defined already: none are
                    line = 'try:\n    %s\nexcept NameError:\n    %s' % (k, line)
                body.append(line)
        txt = '\n'.join(body)
        imps = ['import fxlog', 'from pyfileconf import Selector']
        if 'np.' in txt:
            imps.append('import numpy as np')
        if 'pd.' in txt:
            imps.append('import pandas as pd')
        bad = 'fxlog.boom("%s")\n' % i if i in self.bad else ''
        return '%s\n\ns = Selector()\n\nfxlog.hit("%s")\n%s%s' % ('\n'.join(imps), i, bad, txt)

    def write_item(self, i):
        self.own.add(i)
        self.pending.discard(i)
        self.write(self.path(i), self.item_text(i))

    def write_sec(self, s):
        refs = self.sref.get(s, [])
        self.write(self.secpath(s), ('import fxmod_%s\n' % s.split('.')[0] if s in self.xbad or self.fx.get('secimp') else '') +
                   ('import fxlog\nfxlog.boom("%s")\n' % s if s in self.xbad else '') +
                   ('from pyfileconf import Selector\nsel_ = Selector()\n' if refs else '\n') + ''.join(
            '%s = %s\n' % (k, fxlog.src(v)) for k, v in self.sfile[s].items()) + ''.join(
            '%s = %s\n' % (r['k'], self.expr_src(dict(t='attr', i=r['i'], k=r['k2'])).replace('s.', 'sel_.', 1)) for r in refs))

    def mod_text(self, m):
        if m in self.sbad:
            return 'raise ImportError("broken source")\n'
        out = ['import fxlog', 'VER = "%s"' % self.mv[m], '']
        for fn, d in self.fx['fns'].items():
            if d.get('m', self.fx['ms'][0]) != m and d['kind'] != 'any' or d['kind'] == 'spec':
                continue
            sig = ', '.join('%s=%s' % (k, fxlog.src(d['dflt'][k])) for k in d['ps'])
            dd = 'dict(%s)' % ', '.join('%s=%s' % (k, k) for k in d['ps'])
            if d['kind'] == 'func':
                out.append('def %s(%s):\n    return fxlog.body("%s", VER, %r, %s)\n' % (fn, sig, fn, d['ps'], dd))
            elif d['kind'] == 'cls':
                out.append(self.class_text(fn, d))
        return '\n'.join(out)

    def class_text(self, fn, d, spec=False):
        sig = ', '.join('%s=%s' % (k, fxlog.src(d['dflt'][k])) for k in d['ps'])
        dd = 'dict(%s)' % ', '.join('%s=%s' % (k, k) for k in d['ps'])
        own = ', True' if d.get('own') else ''
        t = 'class %s:\n    def __init__(self%s):\n        fxlog.init(self, %r, %s%s)\n' % (
            fn, ', ' + sig if sig else '', d['ps'], dd, own)
        sd = '{k: self.__dict__[k] for k in %r}' % (d['ps'],)
        meths = ['__call__', 'go', 'go2'] if spec else ['__call__']
        for meth in meths:
            lab = '%s.%s' % (fn, meth) if spec else fn
            t += '    def %s(self):\n        return fxlog.body("%s", VER, %r, %s, self)\n' % (meth, lab, d['ps'], sd)
        if d['upd']:
            t += '    def _pyfileconf_update_(self, **kw):\n        fxlog.upd(self, kw%s)\n' % own
        return t

    def cls_text(self, m):
        out = ['import fxlog', 'VER = "1"', '']
        names = {dc['cls'] for dc in self.fx['spec'].get(m, {}).values()}
        for fn in sorted(names):
            out.append(self.class_text(fn, self.fx['fns'][fn], spec=True))
        return '\n'.join(out)

    def dict_src(self, s, spec):
        """source of the dict value for section s, following self.dmem"""
        parts = []
        subs = [x for x in self.dmem[s] if x in self.fx['mem'] and (self.dmem[x] or x not in self.fx.get('newsec', ()))]
        items = [x for x in self.dmem[s] if x not in self.fx['mem']]
        leaf = lambda x: repr(x.split('.')[-1]) if spec else x.split('.')[-1]
        if subs and not items:
            return '{%s}' % ', '.join('%r: %s' % (x.split('.')[-1], self.dict_src(x, spec)) for x in subs)
        for x in self.dmem[s]:
            if x in self.fx['mem']:
                parts.append('{%r: %s}' % (x.split('.')[-1], self.dict_src(x, spec)))
            else:
                parts.append(leaf(x))
        return '[%s]' % ', '.join(parts)

    def write_dicts(self, m):
        main = sorted({(i['rel'].split('.')[-1], i['fn']) for i in self.fx['it'].values() if i['m'] == m and i['kind'] != 'spec'})
        plain = [f for x, f in main if x == f]
        imps = ['from fxmod_%s import %s\n' % (m, ', '.join(plain))] if plain else []
        imps += ['from fxmod_%s import %s as %s\n' % (m, f, x) for x, f in main if x != f]
        if len(self.fx['alias'].get(m, {})) % 2:
            imps.reverse()
        src = self.dict_src(m, False) if self.dmem[m] else '{}'
        txt = ''.join(imps) + '\npipeline_dict = %s\n' % src
        self.write(os.path.join(self.root, m, 'pipeline_dict.py'), txt)
        for dn in self.fx['spec'].get(m, {}):
            self.write(os.path.join(self.root, m, dn + '_dict.py'),
                       '\nclass_dict = %s\n' % self.dict_src(m + '.' + dn, True))

    def build(self):
        import pyfileconf
        os.makedirs(self.root, exist_ok=True)
        if self.root not in sys.path:
            sys.path.insert(0, self.root)
        for m in self.fx['ms']:
            self.write(os.path.join(self.root, 'fxmod_%s.py' % m), self.mod_text(m))
            self.write(os.path.join(self.root, 'fxcls_%s.py' % m), self.cls_text(m))
            self.write_dicts(m)
        for i in self.fx['has']:
            self.write_item(i)
        for s, d in self.sfile.items():
            if d:
                self.write_sec(s)
        self.errh = ErrHandler()
        lg = logging.getLogger('pyfileconf')
        lg.handlers = [h for h in lg.handlers if not type(h) is logging.StreamHandler] + [self.errh]
        lg.propagate = False
        importlib.invalidate_caches()
        for m in self.fx['ms']:
            scs = []
            mod = importlib.import_module('fxcls_' + m)
            for dn, dc in self.fx['spec'].get(m, {}).items():
                c = {'name': dn, 'class': getattr(mod, dc['cls'])}
                if dc.get('exec', '__call__') != '__call__':
                    c['execute_attr'] = dc['exec']
                if dc.get('key', 'name') != 'name':
                    c['key_attr'] = dc['key']
                scs.append(c)
            kw = {}
            if self.fx['mode'][m] == 'fc':
                kw['force_continue'] = True
            if self.fx['mode'][m] == 'pdb':
                kw['auto_pdb'] = self.debug
            pm = pyfileconf.PipelineManager(os.path.join(self.root, m), name=m, specific_class_config_dicts=scs, **kw)
            self.pms[m] = pm
        for m in self.fx['ms']:
            self.pms[m].load()
        self.plug('rec')
        self.sel, self.selhas = pyfileconf.Selector(), set(self.has)
        # restore, so that files are in the same state as written, whatever scaffolding did
        return self

    def debug(self):
        self.dbg += 1

    # ---------------------------------------------------------------- plugins
    def plug(self, p):
        import pyfileconf
        from pyfileconf.plugin import manager as plm
        W = self
        hook = pyfileconf.hookimpl
        if p == 'rec':
            class Rec:
                @hook
                def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
                    W.event('pre', manager, orig_config, updates, section_path_str)

                @hook
                def pyfileconf_post_config_changed(self, manager, new_config, updates, section_path_str):
                    W.event('post', manager, new_config, updates, section_path_str)

                @hook
                def pyfileconf_pre_update(self, pm, d_, section_path_str, kwargs):
                    W.uevent('preu', pm, section_path_str)

                @hook
                def pyfileconf_post_update(self, pm, d_, section_path_str, kwargs):
                    W.uevent('postu', pm, section_path_str)

                @hook
                def pyfileconf_pre_update_batch(self, pm, updates):
                    W.ev.append(['-', 'preb|'])
                    return []

                @hook
                def pyfileconf_post_update_batch(self, pm, updates):
                    W.ev.append(['-', 'postb|'])

                @hook
                def pyfileconf_iter_update_for_case(self, case, runner):
                    out = []
                    for c in case:
                        i = c['section_path_str']
                        i = runner.base_section_path_str + '.' + i if runner.base_section_path_str else i
                        out.append(i + ':' + kvs(W.fx['it'][i]['ps'], c))
                    W.ev.append(['-', 'case|' + ','.join(out)])
            o = Rec()
        elif p == 'preupd':
            class Pre:
                @hook
                def pyfileconf_pre_update(self, pm, d_, section_path_str, kwargs):
                    if '%s.%s' % (pm.name, section_path_str) == W.fx['preupd']['i']:
                        return {kv['k']: W.val(kv['v']) for kv in W.fx['preupd']['u']}
            o = Pre()
        elif p == 'preupd2':
            class Pre2:
                @hook
                def pyfileconf_pre_update(self, pm, d_, section_path_str, kwargs):
                    if '%s.%s' % (pm.name, section_path_str) == W.fx['preupd2']['i']:
                        return {kv['k']: W.val(kv['v']) for kv in W.fx['preupd2']['u']}
            o = Pre2()
        elif p == 'batch':
            class Bat:
                @hook
                def pyfileconf_pre_update_batch(self, pm, updates):
                    base = getattr(pm, 'base_section_path_str', None)
                    if base and not all(e['i'].startswith(base + '.') for e in W.fx['batch']):
                        return []
                    return [W.entry(e, base) for e in W.fx['batch']]
            o = Bat()
        elif p == 'prerun':
            class PreRun:
                @hook
                def pyfileconf_pre_run(self, section_path_str_or_list, pm):
                    its = W.fx['prerun']
                    form = W.fx.get('prerunform', 'str')
                    rels = [W.rel(i) for i in its]
                    if form == 'list':
                        return rels
                    if form == 'views':
                        return [W.view(i) for i in its]
                    if form == 'inplace' and isinstance(section_path_str_or_list, list):
                        section_path_str_or_list.extend(rels)
                        return None
                    if len(its) > 1:
                        return rels[:1] + [W.view(i) for i in its[1:]]
                    return W.view(its[0]) if form == 'view' else rels[0]
            o = PreRun()
        elif p == 'postrun':
            class PostRun:
                @hook
                def pyfileconf_post_run(self, results, runner):
                    return Res('extra')
            o = PostRun()
        elif p == 'cases':
            class Cases:
                @hook
                def pyfileconf_iter_get_cases(self, config_updates, runner):
                    return [tuple({u['section_path_str']: u for u in config_updates}.values())]
            o = Cases()
        elif p == 'onecase':
            class OneCase:
                @pyfileconf.hookimpl(tryfirst=True)
                def pyfileconf_iter_get_cases(self, config_updates, runner):
                    return [(config_updates[-1],)]
            o = OneCase()
        elif p == 'nocases':
            class NoCases:
                @hook
                def pyfileconf_iter_modify_cases(self, cases, runner):
                    cases.clear()
            o = NoCases()
        elif p == 'modcases':
            class ModCases:
                @hook
                def pyfileconf_iter_modify_cases(self, cases, runner):
                    if len(cases) > 1:
                        cases.reverse()
                        cases.pop()
            o = ModCases()
        plm.plm.register(o)
        self.plugs[p] = o

    def unplug(self, p):
        from pyfileconf.plugin import manager as plm
        plm.plm.unregister(self.plugs.pop(p))

    def nodef(self):
        self.lib().remove_default_plugins()
        self.plugs['nodef'] = None

    def resetpl(self):
        self.lib().reset_plugins()
        self.plugs.clear()

    @staticmethod
    def lib():
        import pyfileconf
        return pyfileconf

    def event(self, t, manager, config, updates, sp):
        i = '%s.%s' % (manager.pipeline_manager_name, sp)
        if i in self.fx['it']:
            ps = self.fx['it'][i]['ps']
            self.ev.append([i, '%s|%s/%s' % (t, kvs(ps, updates), kvs(ps, config))])

    def uevent(self, t, pm, sp):
        i = '%s.%s' % (pm.name, sp)
        if i in self.fx['it']:
            self.ev.append([i, t + '|'])

    # ---------------------------------------------------------------- access
    def val(self, code):
        return fxlog.live(code)

    def rel(self, i):
        return i.split('.', 1)[1]

    def view(self, i, sel=None):
        import pyfileconf
        o = sel or pyfileconf.Selector()
        for part in i.split('.'):
            o = getattr(o, part)
        return o

    def some_view(self, a):
        """a new view, a view of the Selector of the observer, or one which the observer keeps all the time"""
        if a.get('old') == 'keep':
            if a['i'] not in self.kept:
                self.kept[a['i']] = self.view(a['i'])
            return self.kept[a['i']]
        return self.view(a['i'], self.sel if a.get('old') else None)

    def pm_of(self, i):
        return self.pms[i.split('.')[0]]

    def entry(self, e, base=None, form='str'):
        d = {kv['k']: self.val(kv['v']) for kv in e['u']}
        i = e['i']
        if base:
            if not i.startswith(base + '.'):
                raise AssertionError('entry of another manager')
            i = self.rel(i)
        d['section_path_str'] = i
        if not e.get('persist', True):
            d['pyfileconf_persist'] = False
        return d

    def attr_of(self, o, i, k):
        return o.keywords[k] if self.fx['it'][i]['kind'] == 'func' else getattr(o, k)

    # operation inside an executed body
    def op(self, fn, o, d, obj):
        op = o['op']
        if op == 'attr':
            return encv(self.attr_of(self.view(o['i']), o['i'], o['k']))
        if op == 'pattr':
            x = d[o['k']]
            if not fxlog.is_view(x):
                return '-'
            i = object.__getattribute__(x, 'section_path_str')
            return encv(self.attr_of(x, i, o['k2']))
        if op == 'get':
            return encv(self.attr_of(self.pm_of(o['i']).get(self.rel(o['i'])), o['i'], o['k']))
        if op == 'run':
            return enc(self.pm_of(o['i']).run(self.rel(o['i'])))
        if op == 'try':
            try:
                return enc(self.pm_of(o['i']).run(self.rel(o['i'])))
            except Exception:
                return 'caught'
        if op == 'call':
            return enc(self.view(o['i'])())
        if op == 'upd':
            self.pm_of(o['i']).update({o['k']: self.val(o['v'])}, section_path_str=self.rel(o['i']))
            return 'u'
        if op == 'raise':
            raise fxlog.error(fn, self.fx['fns'][fn].get('exc', 0))
        if op == 'quitif':
            if encv(d[o['k']]) == o['v']:
                raise KeyboardInterrupt if o['k2'] == 'k' else SystemExit
            return 'ok'
        if op == 'raiseif':
            if encv(d[o['k']]) == o['v']:
                raise fxlog.error(fn, self.fx['fns'][fn].get('exc', 0))
            return 'ok'
        raise AssertionError(op)

    def objenc(self, i, o):
        it = self.fx['it'][i]
        p = getattr(o, '_section_path_str', '?')
        if it['kind'] == 'func':
            return '%s{%s}' % (p, kvs(it['ps'], getattr(o, 'keywords', {})))
        d = getattr(o, '__dict__', {})
        nc = 'n%sc%s' % (d.get('_n'), d.get('_c')) if self.fx['nn'] else ''
        if d.get('_t') or fxlog.tampered(o):
            nc += ' attributes were set'
        return '%s{%s}%s' % (p, kvs(it['ps'], d), nc)

    def hold(self, i, o):
        r = 'new'
        if i in self.held:
            r = 'same' if self.held[i] is o else 'other'
        else:
            self.held[i] = o
            if any(o is x for j, x in self.held.items() if j != i):
                r = 'shared'
        self.ret = '%s %s' % (self.objenc(i, o), r)
        return r

    def lookup(self, i, route):
        pm = self.pm_of(i)
        if route == 'str':
            return pm.get(self.rel(i))
        if route == 'view':
            return pm.get(self.view(i))
        if route == 'selview':
            return pm.get(self.view(i, self.sel))
        if route == 'attr':
            o = pm
            for part in self.rel(i).split('.'):
                o = getattr(o, part)
            return o
        if route == 'item':
            return self.view(i).item
        raise AssertionError(route)

    # ---------------------------------------------------------------- actions
    def do(self, a):
        self.ex, self.xs, self.ev, self.dbg = set(), [], [], 0
        self.errh.msgs = []
        self.ret = ''
        self.raised = []
        self.own, self.loaded = set(), ''
        self.before = self.item_files() if 'wr' in self.fx['cl'] + self.fx['clop'].get(a['op'], []) else None
        try:
            self.act(a)
        except FxError as e:
            self.ret = '!err:' + e.fn if any(e is x for x in self.raised) else '!other exception: %r' % e
        except (KeyboardInterrupt, SystemExit) as e:
            self.ret = '!quit'
        except FxBad as e:
            self.ret = '!load' if a['op'] in LOADS else '!bad:' + str(e.args[0])
        except Exception as e:
            self.exc = e
            self.ret = '!load' if a['op'] in LOADS else '!lookup'
            if a['op'] not in LOADS + ('miss', 'noattr'):
                self.ret_detail = '%s: %s' % (type(e).__name__, str(e)[:200])
                if a['op'] not in ('noop',) and not a.get('may_fail'):
                    self.ret = '!lookup' if isinstance(e, (AttributeError, KeyError)) else \
                        '!%s: %s' % (type(e).__name__, str(e)[:120])
        return self.obs()

    def deps(self, d):
        return sorted('%s<-%s' % (k, x.path_str) for k, v in d.items() for x in v)

    def obs(self):
        import pyfileconf
        c = pyfileconf.context
        errs = []
        for m in self.errh.msgs:
            mm = re.match(r'Error while running ([\w.]+):', m)
            if mm:
                errs.append(mm.group(1))
        return dict(ret=self.ret, held={i: self.objenc(i, o) for i, o in self.held.items()},
                    ev=[dict(p=p, x=x) for p, x in self.ev], ex=sorted(self.ex), xs=list(self.xs),
                    soft=self.deps(c.config_dependencies), force=self.deps(c.force_update_dependencies),
                    errs=errs, dbg=self.dbg,
                    stk=len(list(c.stack)) + (0 if c.currently_running_section_path_str is None else 1),
                    wr=self.written())

    def item_files(self):
        out = {}
        for i in self.fx['it']:
            p = self.path(i)
            try:
                with open(p) as f:
                    out[i] = f.read().rstrip('\n')   # scaffolding normalises the end of the file
            except FileNotFoundError:
                pass
        return out

    def written(self):
        """items whose config file was changed by the library during the action"""
        if self.before is None:
            return []
        now = self.item_files()
        wr = {i for i in set(now) | set(self.before) if now.get(i) != self.before.get(i) and i not in self.own}
        # a load which fails may already have completed some files: seen with the next load which succeeds
        if self.ret == '!load':
            self.pending |= wr
            return []
        if self.loaded:
            wr |= {i for i in self.pending if i.startswith(self.loaded + '.')}
            self.pending -= wr
        return sorted(wr)

    def upd_kw(self, u):
        return {kv['k']: self.val(kv['v']) for kv in u}

    def runarg(self, a):
        q = [self.view(x) if a.get('form') == 'view' else self.rel(x) for x in a['q']]
        return q if a['lst'] else q[0]

    def act(self, a):
        op = a['op']
        if op == 'get':
            self.hold(a['i'], self.lookup(a['i'], a.get('route', 'str')))
        elif op == 'getsec':
            self.ret = self.hold_sec(a['i'], self.pm_of(a['i']).get(self.rel(a['i'])))
        elif op == 'read':
            self.ret = encv(self.attr_of(self.some_view(a), a['i'], a['k']))
        elif op == 'call':
            self.ret = enc(self.some_view(a)(**self.upd_kw(a.get('u', []))))
        elif op == 'copy':
            import copy
            self.ret = self.objenc(a['i'], copy.deepcopy(self.view(a['i'])))
        elif op == 'noop':
            self.ret = self.noop(a)
        elif op == 'miss':
            self.miss(a)
            self.ret = 'no error'
        elif op == 'noattr':
            self.view(a['i']).nope_nope
            self.ret = 'no error'
        elif op == 'in':
            import pyfileconf
            self.ret = 'T' if a['i'] in (self.sel if a.get('old') else pyfileconf.Selector()) else 'F'
        elif op == 'upd':
            self.update(a)
        elif op == 'updsec':
            self.pm_of(a['i']).update(self.upd_kw(a['u']), section_path_str=self.rel(a['i']))
        elif op == 'batch':
            self.batch(a)
        elif op == 'refresh':
            self.pm_of(a['i']).refresh(self.rel(a['i']))
        elif op == 'reset':
            self.pm_of(a['i']).reset(self.view(a['i']) if a.get('form') == 'view' else self.rel(a['i']))
        elif op == 'resets':
            from pyfileconf.batch import BatchUpdater
            BatchUpdater().reset([self.view(i) if a.get('form') == 'view' else i for i in a['q']])
        elif op == 'reload':
            self.reload(a['m'], a.get('form'))
        elif op == 'run':
            self.ret = enc(self.pms[a['m']].run(self.runarg(a)))
        elif op == 'prod':
            self.ret = self.product(a)
        elif op == 'pstart':
            self.product_start(a)
        elif op == 'pcase':
            if self.gen is None:
                self.gen = self.prod[1].run_gen() if self.prod[0] == 'ir' else self.prod[1]
            self.prodn += 1
            self.ret = self.case_enc(*next(self.gen), n=a['n'])
            if a['n'] == self.prodlen:
                rest = list(self.gen)
                self.ret += '+%d' % len(rest) if rest else ''
                self.gen = None
        elif op == 'pall':
            self.gen = None
            self.prodn = 0
            self.ret = '[%s]' % ','.join(self.case_enc(c, r) for c, r in self.prod[1].run())
        elif op == 'setfile':
            self.file[a['i']][a['k']] = a['e']
            self.write_item(a['i'])
        elif op == 'delkey':
            self.file[a['i']].pop(a['k'], None)
            self.write_item(a['i'])
        elif op == 'setbad':
            self.bad.add(a['i'])
            self.write_item(a['i'])
        elif op == 'fixbad':
            self.bad.discard(a['i'])
            self.write_item(a['i'])
        elif op == 'setsec':
            self.sfile[a['i']] = {kv['k']: kv['v'] for kv in a['u']}
            self.sref[a['i']] = a.get('r', [])
            self.write_sec(a['i'])
        elif op in ('secbad', 'secfix'):
            (self.xbad.add if op == 'secbad' else self.xbad.discard)(a['i'])
            self.write_sec(a['i'])
            if op == 'secbad':
                self.reload(self.fx['mof'][a['i']])
        elif op in ('setsrc', 'srcbad', 'srcfix'):
            if op == 'setsrc':
                self.mv[a['m']] = a['v']
            elif op == 'srcbad':
                self.sbad.add(a['m'])
            else:
                self.sbad.discard(a['m'])
            self.write(os.path.join(self.root, 'fxmod_%s.py' % a['m']), self.mod_text(a['m']))
            importlib.invalidate_caches()
            if op != 'srcfix':
                # after a load which failed, either form starts anew
                self.reload(a['m'], 'load' if a['m'] in self.down and a.get('v') != '2' else None)
        elif op == 'adddict':
            self.dmem[a['sec']].append(a['i'])
            self.write_dicts(a['i'].split('.')[0])
        elif op == 'deldict':
            self.dmem[a['sec']].remove(a['i'])
            self.write_dicts(a['i'].split('.')[0])
        elif op == 'create':
            self.create(a)
        elif op == 'plug':
            self.plug(a['p'])
        elif op == 'unplug':
            self.unplug(a['p'])
        elif op == 'nodef':
            self.nodef()
        elif op == 'resetpl':
            self.resetpl()
        else:
            raise AssertionError(op)

    def reload(self, m, form=None):
        self.down.add(m)
        self.pms[m].load() if form == 'load' else self.pms[m].reload()
        self.down.discard(m)
        self.loaded = m
        self.held = {i: o for i, o in self.held.items() if not i.startswith(m + '.')}
        self.has = {i for i in self.has if self.fx['it'][i]['m'] != m}
        for s, x in self.dmem.items():
            for i in x:
                if i in self.fx['it'] and self.fx['it'][i]['m'] == m:
                    self.scaffolded(i)
                    self.instrument(i)
                    self.has.add(i)
        self.mem = {s: list(self.dmem[s] if self.fx['mof'][s] == m else x) for s, x in self.mem.items()}
        self.reselect()

    def reselect(self):
        """a Selector knows the items which existed when it was made"""
        import pyfileconf
        if self.has != self.selhas:
            self.sel, self.selhas = pyfileconf.Selector(), set(self.has)

    def scaffolded(self, i):
        dflt = self.fx['it'][i]['dflt']
        if i in self.fe:
            self.file[i] = {**dflt, **self.file[i]}
        else:
            self.file[i] = dict(dflt)
            self.fe.add(i)

    def instrument(self, i):
        """lets a new config file report its execution too"""
        path = self.path(i)
        with open(path) as f:
            txt = f.read()
        if 'fxlog.hit(' not in txt:
            self.write(path, 'import fxlog\n' + txt.rstrip('\n') + '\n\nfxlog.hit("%s")' % i)

    def create(self, a):
        i = a['i']
        it = self.fx['it'][i]
        pm = self.pm_of(i)
        if it['kind'] == 'spec':
            pm.create(it['rel'])
        else:
            mod = importlib.import_module('fxmod_' + it['m'])
            main = sys.modules['__main__']
            main.imported_by_script = getattr(mod, it['fn'])     # the script has imported what it passes
            try:
                pm.create(it['rel'].rsplit('.', 1)[0], getattr(mod, it['fn']))
            finally:
                del main.imported_by_script
        self.dmem[it['secs'][-1]].append(i)
        self.mem[it['secs'][-1]].append(i)
        self.has.add(i)
        self.scaffolded(i)
        self.instrument(i)
        self.ex.add(i)
        self.reselect()

    def hold_sec(self, sec, r):
        mem = self.mem[sec]
        out = []
        if isinstance(r, dict):
            if list(r) != [x.split('.')[-1] for x in mem]:
                return 'keys %s' % list(r)
            for x in mem:
                out.append('%s:%s' % (x, self.hold_sec(x, r[x.split('.')[-1]])))
        else:
            if len(r) != len(mem):
                return '%d members' % len(r)
            for x, o in zip(mem, r):
                if self.fx['it'][x]['kind'] == 'cls':
                    c = getattr(o, 'func', None)
                    name = c.__name__ if isinstance(c, type) else type(o).__name__ + ' '
                    out.append('class %s{%s}' % (getattr(o, '_section_path_str', '?') if name == self.fx['it'][x]['fn'] else name,
                                                 kvs(self.fx['it'][x]['ps'], getattr(o, 'keywords', {}))))
                else:
                    self.hold(x, o)
                    out.append(self.ret)
        return '[%s]' % ','.join(out)

    def update(self, a):
        i, u = a['i'], self.upd_kw(a['u'])
        pm = self.pm_of(i)
        form = a.get('form', 'kw')
        kw = {} if a['persist'] else dict(pyfileconf_persist=False)
        before = list(u.items())
        if form == 'kw':
            pm.update(section_path_str=self.rel(i), **kw, **u)
        elif form == 'dict':
            pm.update(u, section_path_str=self.rel(i), **kw)
        elif form == 'both':
            ks = list(u)
            pm.update({k: u[k] for k in ks[:1]}, section_path_str=self.rel(i), **kw, **{k: u[k] for k in ks[1:]})
        elif form == 'conf':       # keywords win over the dict
            d = {k: self.val('i99') for k in list(u)[:1]}
            pm.update(d, section_path_str=self.rel(i), **kw, **u)
            if d != {k: self.val('i99') for k in d}:
                self.ret = 'the passed dict was modified'
        elif form == 'view':
            for k, x in u.items():
                setattr(self.view(i), k, x)
        else:
            raise AssertionError(form)
        if len(before) != len(u) or any(k != k2 or x is not y for (k, x), (k2, y) in zip(before, u.items())):
            self.ret = 'the passed dict was modified'

    def batch(self, a):
        form = a.get('form', 'full')
        from pyfileconf.batch import BatchUpdater
        import copy
        if form == 'pm':           # one manager, relative paths
            m = a['q'][0]['i'].split('.')[0]
            es = [self.entry(e, m) for e in a['q']]
            self.check_unmodified(es, lambda: self.pms[m].update_batch(es))
        elif form == 'pmview':     # one manager, views
            m = a['q'][0]['i'].split('.')[0]
            es = [dict(self.entry(e), section_path_str=self.view(e['i'])) for e in a['q']]
            self.check_unmodified(es, lambda: self.pms[m].update_batch(es))
        elif form == 'base':
            m = a['q'][0]['i'].split('.')[0]
            es = [self.entry(e, m) for e in a['q']]
            self.check_unmodified(es, lambda: BatchUpdater(base_section_path_str=m).update(es))
        elif form == 'view':
            es = [dict(self.entry(e), section_path_str=self.view(e['i'])) for e in a['q']]
            self.check_unmodified(es, lambda: BatchUpdater().update(es))
        elif form == 'gen':
            es = [self.entry(e) for e in a['q']]
            BatchUpdater().update(e for e in es)
        else:
            es = [self.entry(e) for e in a['q']]
            self.check_unmodified(es, lambda: BatchUpdater().update(es))

    def check_unmodified(self, es, f):
        before = [(list(e.items())) for e in es]
        f()
        after = [(list(e.items())) for e in es]
        if len(before) != len(after) or any(
                len(x) != len(y) or any(p is not q and k != l or p is not q for (k, p), (l, q) in zip(x, y))
                for x, y in zip(before, after)):
            self.ret = 'entries were modified'

    # products
    def product_start(self, a):
        from pyfileconf.iterate import IterativeRunner
        form = a.get('form', 'ir')
        self.gen = None
        self.prodn, self.prodlen = 1, 1
        ps = [e['i'] for e in a['q']]
        for p in set(ps):
            self.prodlen *= ps.count(p)
        if 'nodef' in self.plugs:
            self.prodlen = 0
        if 'cases' in self.plugs:
            self.prodlen += 1
        if 'onecase' in self.plugs:
            self.prodlen += 1
        if 'modcases' in self.plugs and self.prodlen > 1:
            self.prodlen -= 1
        if 'nocases' in self.plugs:
            self.prodlen = 0
        if form == 'gen':
            m = a['items'][0].split('.')[0]
            items = [self.rel(x) for x in a['items']]
            self.prod = ('gen', self.pms[m].run_product_gen(items if a['lst'] else items[0],
                                                            [self.entry(e, m) for e in a['q']]))
        else:
            items = list(a['items'])
            self.prod = ('ir', IterativeRunner(items if a['lst'] else items[0], [self.entry(e) for e in a['q']]))
        self.pbase = form == 'gen' and a['items'][0].split('.')[0]

    def product(self, a):
        form = a.get('form', 'pm')
        self.prodn = self.prodlen = 0
        self.prod = None
        if form in ('pm', 'nc', 'pmv', 'pmgen'):
            m = a['items'][0].split('.')[0]
            items = [self.view(x) if form == 'pmv' else self.rel(x) for x in a['items']]
            self.pbase = m
            es = [self.entry(e, m) for e in a['q']]
            before = [kvs(e, e) for e in es]
            items = items if a['lst'] else items[0]
            r = list(self.pms[m].run_product_gen(items, es)) if form == 'pmgen' else \
                self.pms[m].run_product(items, es, collect_results=False) if form == 'nc' else self.pms[m].run_product(items, es)
        else:
            from pyfileconf.iterate import IterativeRunner
            items = [self.view(x) if form == 'irv' else x for x in a['items']]
            self.pbase = None
            es = [self.entry(e) for e in a['q']]
            before = [kvs(e, e) for e in es]

            class Sub(IterativeRunner):
                def should_run(self, case):
                    return encv(list(case[0].values())[0]) not in ('i2', 'sx')
            r = (Sub if form[:3] == 'sub' else IterativeRunner)(items if a['lst'] else items[0], es)
            if form == 'twice':
                r.run()
            r = list(r.run_gen()) if form in ('irgen', 'subgen') else r.run()
        if before != [kvs(e, e) for e in es]:
            return 'entries were modified'
        for x in self.mutated:
            x.remove(7)
        self.mutated = []
        return '[%s]' % ','.join(self.case_enc(c, x) for c, x in r)

    def case_enc(self, case, res, n=None):
        cs = []
        for c in case:
            i = c['section_path_str']
            if self.pbase:
                i = self.pbase + '.' + i
            cs.append('%s:%s' % (i, ','.join('%s=%s' % (k, encv(x)) for k, x in c.items() if k != 'section_path_str')))
        return '(%s)->%s' % (','.join(cs), enc(res))

    # look ups without effects
    def noop(self, a):
        import pyfileconf
        w = a['w']
        i = a['i']
        pm = self.pm_of(i)
        if w == 'attrsec':            # partial look up through attributes of the manager
            o = pm
            for part in self.rel(i).split('.'):
                o = getattr(o, part)
            return 'sec' if not hasattr(type(o), '__code__') and o is not None else '?'
        if w == 'viewsec':
            return 'view:' + self.view(i).section_path_str
        if w == 'eq':
            x, y = self.view(i), self.view(a['j'], self.sel)
            r = (x == y, hash(x) == hash(y), x != y)
            return 'eq' if r == (True, True, False) else 'ne' if (r[0], r[2]) == (False, True) else str(r)
        if w == 'hash':
            v, v2 = self.view(i), self.view(a['j'], self.sel)
            return 'eq' if {v: 1}.get(v2) == 1 and len({v, v2, self.view(i)}) == 1 else 'ne'
        if w == 'type':
            t = self.view(i).type
            o = self.view(i).__class__
            return t.__name__ if t is o else 'differs'
        if w == 'isinst':
            import types
            v = self.view(i)
            return str(isinstance(v, types.FunctionType))
        if w == 'sel':
            s = pyfileconf.Selector()
            return 'T' if s == pyfileconf.Selector() else 'F'
        if w == 'dirs':
            for o in [self.pms[i]] if a['j'] == 'man' else [self.view(i), pyfileconf.Selector()]:
                dir(o)
            if a['j'] == 'sec':
                o = pm
                for part in self.rel(i).split('.'):
                    o = getattr(o, part)
                dir(o)
            return 'ok'
        if w == 'list':
            have = a['exp'].split(',')
            own = set(have) & PMNAMES
            if i == '':
                got = [set(dir(pyfileconf.Selector())) - {'get_type'}]
            else:
                got = [set(dir(self.view(i, s))) - {'type', 'item'} for s in (None, self.sel)]
                if i in self.pms:
                    got += [set(dir(self.pms[i]))]
                    got = [g - (PMNAMES - own) for g in got]
            assert all(g == got[0] for g in got), got
            return ','.join(sorted(got[0]))
        if w == 'dir':
            return 'T' if self.rel(a['j']).split('.')[-1] in dir(self.view(i)) else 'F'
        raise AssertionError(w)

    def miss(self, a):
        import pyfileconf
        w, i = a['w'], a['i']
        pm = self.pm_of(i)
        rel = self.rel(i)
        if w == 'get':
            pm.get(rel)
        elif w == 'attr':
            o = pm
            for part in rel.split('.'):
                o = getattr(o, part)
        elif w == 'run':
            pm.run(rel)
        elif w == 'upd':
            pm.update({'a': 1}, section_path_str=rel)
        elif w == 'refresh':
            pm.refresh(rel)
        elif w == 'reset':
            pm.reset(rel)
        elif w == 'sel':
            self.view(i)
        elif w == 'prod':
            pm.run_product(rel, [dict(section_path_str=rel, a=1)])
        elif w == 'updkw':
            pm.update(section_path_str=rel, a=1)
        elif w == 'updview':
            pm.update({'a': self.view(a['j'])}, section_path_str=rel)
        elif w == 'batch':
            pm.update_batch([dict(section_path_str=rel, a=self.view(a['j']))])
        elif w == 'batchfull':
            from pyfileconf.batch import BatchUpdater
            BatchUpdater().update([dict(section_path_str=i, a=1)])
        elif w == 'batchreset':
            from pyfileconf.batch import BatchUpdater
            BatchUpdater().reset([i])
        elif w == 'viewset':
            self.view(i).a = 1
        elif w == 'getitem':
            pm.get(pm.name + '.' + rel)
        else:
            raise AssertionError(w)

    # ---------------------------------------------------------------- choosing actions
    def up(self, p):
        return p.split('.')[0] not in self.down

    def ok_item(self, i):
        return i in self.has and self.up(i)

    def enabled(self, a):
        op = a['op']
        if op in ('get', 'read', 'call', 'copy', 'noattr', 'upd', 'refresh', 'reset'):
            return self.ok_item(a['i'])
        if op in ('getsec', 'updsec', 'noop', 'in', 'miss'):
            return self.up(a['i'])
        if op in ('batch', 'prod', 'pstart'):
            return all(self.ok_item(e['i']) for e in a['q'])
        if op == 'resets':
            return all(self.ok_item(i) for i in a['q'])
        if op == 'run':
            return self.up(a['m'] + '.') and all(x in self.has or x in self.fx['mem'] for x in a['q'])
        if op == 'pcase':
            return self.prodn == a['n'] and a['n'] <= self.prodlen
        if op == 'pall':
            return self.prod is not None and self.prod[0] == 'ir'
        if op in ('setfile', 'setbad', 'fixbad'):
            return a['i'] in self.fe
        if op == 'delkey':
            return a['i'] in self.fe and a['k'] in self.file[a['i']]
        if op == 'create':
            return a['i'] not in self.has and self.up(a['i']) and not any(a['i'] in x for x in self.dmem.values())
        if op == 'adddict':
            return a['i'] not in self.dmem[a['sec']]
        if op == 'deldict':
            return a['i'] in self.dmem[a['sec']]
        if op == 'nodef':
            return 'nodef' not in self.plugs
        if op == 'plug':
            return a['p'] not in self.plugs
        if op == 'unplug':
            return a['p'] in self.plugs
        if op == 'srcfix':
            return a['m'] in self.sbad
        if op == 'secfix':
            return a['i'] in self.xbad
        return True

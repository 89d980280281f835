"""The real code behind Opts.tla: options, log files, and runs of printing items."""
import os
import re
import sys
import logging
import importlib
sys.path.insert(0, os.environ.get('PFC_REPO', '/repo'))
sys.dont_write_bytecode = True
from base import Base
TOKEN = re.compile(r't\d+;|\x0b+')


def tokens(txt):
    """the tokens of a text; a blank token is as many vertical tabs as its number"""
    return [x if x[0] == 't' else 't%d;' % len(x) for x in TOKEN.findall(txt)]


NAMES = dict(so='log_stdout', lf='log_folder', fr='log_file_rollover_freq', nk='log_file_num_keep')
W = None


class ItemError(Exception):
    pass


class Terminal:
    """stands for the stdout of the process"""
    encoding = 'utf-8'

    def __init__(self, text, tag=''):
        self.text, self.tag = text, tag

    def write(self, x):
        self.text += [self.tag + t for t in tokens(x)]

    def flush(self):
        pass

    def isatty(self):
        return False


class Rec(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.DEBUG)
        self.text = []

    def emit(self, record):
        if record.levelno < logging.ERROR:
            self.text += tokens(record.getMessage())


def for_tla(fx):
    return {k: fx[k] for k in ('name', 'folders', 'badfolders', 'badfreqs', 'mode', 'items', 'acts', 'depth', 'probes', 'hdepth')}


MOD = '''
import optsworld
def {name}(x=0):
    optsworld.W.body("{name}")
'''


class World(Base):
    def __init__(self, fx, root):
        global W
        self.fx, self.root = fx, os.path.realpath(root)
        sys.modules['optsworld'] = sys.modules[__name__]
        W = self
        self.ctx = []
        self.pms = {}

    def write(self, path, text):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)

    def build(self):
        os.makedirs(self.root, exist_ok=True)
        sys.path.insert(0, self.root)
        for f in self.fx['badfolders']:
            # a file where a folder should be
            self.write(os.path.join(self.root, 'logs', f.split('/')[0]), '')
        import pyfileconf
        self.lib = pyfileconf
        lg = logging.getLogger('pyfileconf')
        self.rec = Rec()
        lg.handlers = [h for h in lg.handlers if type(h) is not logging.StreamHandler] + [self.rec]
        lg.propagate = False
        self.lg = lg
        for m, mode in self.fx['mode'].items():
            names = [i for i, d in self.fx['items'].items() if d['m'] == m]
            self.write(os.path.join(self.root, 'omod_%s.py' % m), ''.join(MOD.format(name=n) for n in names))
            self.write(os.path.join(self.root, m, 'pipeline_dict.py'), '%s\npipeline_dict = {"s": [%s]}\n' % (
                'from omod_%s import %s' % (m, ', '.join(names)) if names else '', ', '.join(names)))
            kw = dict(force_continue=True) if mode == 'fc' else dict(auto_pdb=self.debug) if mode == 'pdb' else {}
            importlib.invalidate_caches()
            pm = pyfileconf.PipelineManager(os.path.join(self.root, m), name=m, **kw)
            pm.load()
            self.pms[m] = pm
        self.out = []
        self.terms = [Terminal(self.out), Terminal(self.out, '2')]
        sys.stdout = sys.__stdout__ = self.terms[0]
        return self

    def debug(self):
        self.dbg += 1

    # ---------------------------------------------------------------- values
    def val(self, o, v):
        if o == 'so':
            return v == 'T'
        if o == 'lf':
            return os.path.join(self.root, 'logs', v) if v else None
        if o == 'nk':
            return int(v)
        return v

    def enc(self, o, x):
        if o == 'so':
            return {True: 'T', False: 'F'}.get(x, repr(x))
        if o == 'lf':
            return '' if x is None else os.path.relpath(x, os.path.join(self.root, 'logs')) if isinstance(x, str) else repr(x)
        return str(x)

    # ---------------------------------------------------------------- actions
    def set(self, q, form):
        o = self.lib.options
        if form == 'value':
            for e in q:
                getattr(o, NAMES[e['o']]).value = self.val(e['o'], e['v'])
        elif form == 'one':
            for e in q:
                o.set_option(NAMES[e['o']], self.val(e['o'], e['v']))
        elif form == 'many':
            return o.set_options([(NAMES[e['o']], self.val(e['o'], e['v'])) for e in q])
        elif form == 'gen':
            return o.set_options((NAMES[e['o']], self.val(e['o'], e['v'])) for e in q)
        else:
            raise AssertionError(form)
        return o

    def reset(self, q, form):
        o = self.lib.options
        if form == 'opt':
            for x in q:
                getattr(o, NAMES[x]).reset()
        elif form == 'one':
            for x in q:
                o.reset_option(NAMES[x])
        elif form == 'many':
            o.reset_options([NAMES[x] for x in q])
        else:
            raise AssertionError(form)

    def print(self, tok, form='print'):
        if form == 'print':
            print(tok)
        elif form == 'write':
            sys.stdout.write(tok)
        elif form == 'end':
            print(tok, end='')
        elif form == 'pair':
            print('', tok)
        elif form == 'flush':
            print(tok, flush=True)
        elif form == 'blank':
            print('\x0b' * int(tok[1:-1]))
        elif form == 'lines':
            sys.stdout.write('\n' + tok + '\n')
        else:
            raise AssertionError(form)

    def body(self, name):
        for o in self.fx['items'][name]['ops']:
            self.op(o)

    def runitem(self, i):
        self.pms[self.fx['items'][i]['m']].run('s.' + i)

    def op(self, o):
        op = o['op']
        if op == 'print':
            self.print(o['v'], o['form'])
        elif op == 'log':
            self.lg.info(o['v'])
        elif op == 'raise':
            raise KeyboardInterrupt if o['v'] == '!int' else ItemError(o['v'])
        elif op == 'set':
            self.set([o], o['form'])
        elif op == 'reset':
            self.lib.options.reset()
        elif op == 'run':
            self.runitem(o['i'])
        elif op == 'call':
            self.call(o['i'])
        elif op == 'try':
            try:
                self.runitem(o['i'])
            except Exception:
                pass
        elif op == 'with':
            with self.lib.options.set_option(NAMES[o['o']], self.val(o['o'], o['v'])):
                self.runitem(o['i'])
        else:
            raise AssertionError(op)

    def call(self, i):
        v = getattr(getattr(getattr(self.lib.Selector(), self.fx['items'][i]['m']), 's'), i)
        v()

    def act(self, a):
        op, opts = a['op'], self.lib.options
        if op in ('set', 'sets'):
            self.set(a['q'], a['form'])
        elif op == 'reset':
            self.reset(a['q'], a['form'])
        elif op == 'resetall':
            opts.reset()
        elif op == 'enter':
            cm = self.set(a['q'], a['form']) if a['q'] else opts
            cm.__enter__()
            self.ctx.append(cm)
        elif op == 'exit':
            cm = self.ctx.pop()
            e = (ValueError, ValueError('x'), None) if a['exc'] else (None, None, None)
            if cm.__exit__(*e):
                raise AssertionError('the exception was swallowed')
        elif op == 'log':
            self.lg.info(a['v'])
        elif op == 'print':
            self.print(a['v'], a['form'])
        elif op == 'run':
            q = ['s.' + i for i in a['q']]
            self.pms[a['m']].run(q if a['lst'] else q[0])
        elif op == 'prod':
            q = ['s.' + i for i in a['q']]
            self.pms[a['m']].run_product(q, [dict(section_path_str=q[0], x=1), dict(section_path_str=q[0], x=2)])
        elif op == 'call':
            self.call(a['i'])
        elif op == 'redirect':
            sys.stdout = self.terms[a['n'] - 1]
        else:
            raise AssertionError(op)

    def logs(self, f):
        d = os.path.join(self.root, 'logs', f)
        txt = ''
        if os.path.isdir(d):
            for n in sorted(os.listdir(d), key=lambda n: (n == 'pyfileconf.log', n)):
                if n.startswith('pyfileconf.log'):
                    with open(os.path.join(d, n)) as fh:
                        txt += fh.read()
        return tokens(txt)

    def do(self, a):
        self.out[:], self.rec.text, self.dbg = [], [], 0
        before = {f: self.logs(f) for f in self.fx['folders']}
        stdout = self.terms[a['n'] - 1] if a['op'] == 'redirect' else sys.stdout
        ret = ''
        try:
            self.act(a)
        except ItemError as e:
            ret = str(e)
        except KeyboardInterrupt:
            ret = '!int'
        except SystemExit:
            ret = '!exit'
        except Exception as e:
            ret = '!raise'
            self.ret_detail = repr(e)
        o = self.lib.options
        import pyfileconf.opts as po
        one = '|'.join(self.enc(k, getattr(o, n).value) for k, n in NAMES.items())
        two = '|'.join(self.enc(k, getattr(po.options, n)) for k, n in NAMES.items())
        from logging.handlers import TimedRotatingFileHandler
        hs = [h for h in self.lg.handlers if isinstance(h, logging.FileHandler)]
        after = {f: self.logs(f) for f in self.fx['folders']}
        files = {}
        for f in after:
            n = len(before[f])
            files[f] = after[f][n:] if after[f][:n] == before[f] else ['lost'] + after[f]
        names = []
        for h in hs:
            n = os.path.relpath(h.baseFilename, os.path.join(self.root, 'logs'))
            names.append(n[:-len('/pyfileconf.log')] if n.endswith('/pyfileconf.log') and isinstance(h, TimedRotatingFileHandler) else 'file ' + n)
        res = dict(ret=ret, opt=one if one == two else '%s (%s)' % (one, two), h=names,
                   hp='|'.join([hs[0].when, str(hs[0].backupCount)]) if len(hs) == 1 and hasattr(hs[0], 'when') else '',
                   rec=list(self.rec.text), out=list(self.out), files=files,
                   same='same' if sys.stdout is stdout else 'different', dbg=self.dbg)
        return res

    def enabled(self, a):
        if a['op'] == 'exit':
            return len(self.ctx) > 0
        if a['op'] == 'enter':
            return len(self.ctx) < 3
        return True

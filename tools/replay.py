"""replay.py <replay.json>: performs the recorded calls of a violation again on the real code, with what each returned"""
import sys, json, os, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import engine
v = json.load(open(sys.argv[1]))
root = tempfile.mkdtemp(prefix='replay')
try:
    w = engine.build_world(v['fx'], root)
    for n, a in enumerate(v['acts']):
        o = w.do(a)
        print(n, json.dumps(a), '->', o.get('ret'))
    print('expected by the specification / got at the last step:')
    for c, x in v['wrong'].items():
        print('  %s: expected %s, got %s' % (c, json.dumps(x['exp']), json.dumps(x['got'])))
finally:
    shutil.rmtree(root)

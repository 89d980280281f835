"""check.py <property> [quick|thorough]: decides one property; see DESIGN.md"""
import os
import sys
import json
import time
import shutil
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

VERIF = engine.VERIF


def write_replay(pid, n, v):
    d = os.path.join(VERIF, 'work', 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(p, 'w') as f:
        json.dump(dict(property=pid, **v), f)
    return p


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    wd = os.path.join(VERIF, 'work', '%s-%s-%d' % (pid, tier, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    t0 = time.time()
    rc = 2
    try:
        import props
        res = props.run(pid, tier, seed, wd)
        dt = time.time() - t0
        props.evidence(pid, tier, seed, res, dt)
        for line in res.known:
            print('KNOWN-FINDING: property=%s %s' % (pid, line))
        for n, v in enumerate(res.violations[:5]):
            p = write_replay(pid, n, v)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print(json.dumps(v.get('wrong'))[:2000])
            for a in v.get('acts', [])[-12:]:
                print('   ', json.dumps(a)[:300])
        print('%s %s: %s (%.0f s)' % (pid, tier, res.summary(), dt))
        rc = 1 if res.violations else 0
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()

"""one job: replay of transitions or recording of traces.  Arguments: job file"""
import os
import sys
import json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        job = json.load(f)
    if job['kind'] == 'replay':
        with open(job['edges']) as f:
            edges = json.load(f)
        engine.worker_replay(job['fx'], edges, job['root'], job['out'], job['stop'], job['shard'], job['nshards'])
    elif job['kind'] == 'record':
        engine.worker_record(job['fx'], job['n'], job['length'], job['seed'], job['root'], job['out'], 1)
    else:
        import importlib
        importlib.import_module(job['kind']).work(job)

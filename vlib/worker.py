"""Worker process: reads JSON tasks on stdin, answers on a private copy of stdout."""

import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, here)
out = os.fdopen(os.dup(1), 'w', buffering=1)
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)  # the code under test prints (open cache files ...)
sys.path.append(os.environ['VF_HYP'])


def main():
    prop, module, scratch = sys.argv[1:4]
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    from vlib import core

    repo = core.REPO
    sys.path.insert(0, repo)
    import acoular

    if not os.path.abspath(acoular.__file__).startswith(repo + os.sep):
        raise SystemExit('wrong acoular imported: ' + acoular.__file__)
    import warnings

    acoular.config.cache_dir = os.path.join(scratch, 'cache')
    acoular.config.td_dir = os.path.join(scratch, 'td')
    os.makedirs(os.path.join(scratch, 'td'), exist_ok=True)
    os.makedirs(os.path.join(scratch, 'cache'), exist_ok=True)
    warnings.simplefilter('ignore')
    importlib.import_module(module)
    subs = core.REGISTRY[prop]
    import gc

    gc.collect()
    gc.freeze()  # the cache of acoular collects garbage all the time
    print(json.dumps({'ready': True, 'subs': sorted(subs)}), file=out, flush=True)
    for line in sys.stdin:
        t = json.loads(line)
        sub = subs[t['sub']]
        cur = os.path.join(scratch, 'current.json')
        if t['kind'] == 'run':
            r = core.run_task(sub, t['seed'], t['n'], t['deadline'], scratch, cur)
        else:
            st, msg, ctx = core.run_case(sub, t['case'], scratch)
            r = {'status': st, 'msg': msg}
        print(json.dumps(r), file=out, flush=True)


if __name__ == '__main__':
    main()

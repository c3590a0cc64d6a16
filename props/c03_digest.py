"""C03 the digest identifies the configuration."""

import copy
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import files
from vlib import objects as ob
from vlib import zoo
from vlib.core import subcheck

P = 'C03'


def relevant(p, s, t):
    """Parameters that select or only organise a part of the result are no part of what a digest identifies."""
    return not (s['k'] == 'PointSpreadFunction' and t in ('freq', 'grid_indices', 'calcmode')) and t not in ('calcmode',)


@st.composite
def single(draw, tree):
    spec = draw(tree)
    return {'spec': spec, 'vars': [draw(ob.variation(spec, relevant)) for _ in range(draw(st.integers(1, 5)))]}


def along(obj, path):
    """The objects from the root to the changed one."""
    out = [obj]
    for p in path:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
        if not isinstance(p, int) and not isinstance(obj, list):
            out.append(obj)
        elif isinstance(p, int):
            out.append(obj)
    return out


def values(o):
    """Everything the object computes, as far as it can be computed."""
    out = {}
    for n, f in ob.results(o).items():
        k, v = ob.attempt(f)
        out[n] = v if k == 'ok' else None
    return out


def differ(a, b):
    """Name of a result that is not the same, beyond rounding."""
    for n in a:
        x, y = a[n], b.get(n)
        if x is None or y is None:
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return f'{n}: shapes {x.shape}, {y.shape}'
        if x.size and not np.allclose(x, y, rtol=1e-9, atol=1e-9 * float(np.nanmax(np.abs(x), initial=0.0)), equal_nan=True):
            return n
    return None


def run(d, ctx):
    """Every single change that is visible in what an object computes is visible in its digest."""
    ac.config.global_caching = 'none'
    spec = d['spec']
    a = zoo.build(spec)
    ctx.label(spec['k'])
    memo = {}
    for var in d['vars']:
        new = ob.changed(spec, var)
        k, b = ob.attempt(lambda: zoo.build(new))
        if k == 'exc':
            continue
        for depth, (x, y) in enumerate(zip(along(a, var['p']), along(b, var['p']))):
            if not hasattr(x, 'digest'):
                continue
            if d.get('lazy') and new == spec:
                continue
            if d.get('lazy') and y.digest != x.digest:
                ctx.interesting()
                continue
            if depth not in memo or memo[depth][0] is not x:
                memo[depth] = (x, values(x), x.digest)
            _, vx, dx = memo[depth]
            if y.digest != dx:
                ctx.interesting(differ(vx, values(y)) is not None)
                continue
            n = differ(vx, values(y))
            if n:
                old = {t: ob.at(spec, var['p'])['a'].get(t, 'default') for t in var['v']}
                ctx.fail(f'{type(x).__name__} gives another {n} after {".".join(map(str, var["p"]))} {str(old)[:150]} -> {str(var["v"])[:150]}, but has the same digest')


QUICK = {'gridless': 8, 'time': 900, 'masked': 300, 'fft': 300, 'spectra': 80, 'beamformer': 220, 'timebeam': 200, 'psf': 100, 'steer': 200, 'geometry': 400, 'signal': 300, 'rotation': 120}
for _n, _t in ob.TREES.items():
    subcheck(P, 'change-' + _n, single(_t()), quick=QUICK[_n], shards=4 if _n in ('time', 'beamformer') else 2 if _n in ('geometry', 'steer') else 1, rule='a change is visible in the results and in the digest')(run)


@st.composite
def every(draw, tree, lazy=False):
    """Every parameter of the object itself is changed once."""
    spec = draw(tree)
    return {'lazy': lazy, 'spec': spec, 'vars': [{'p': [], 'v': v if '+' in t else {t: v}} for t, f in sorted(ob.ALTS[spec['k']].items()) for v in [draw(f(spec['a']))] if t != 'calcmode']}


subcheck(P, 'solvers', every(ob.solver_tree()), quick=160, shards=4, rule='a change of a parameter of an inverse method is visible in the results and in the digest')(run)


subcheck(P, 'gridless', every(ob.TREES['gridless'](), True), quick=30, rule='the digest is another one')(run)


# ------------------------------------------------------------------------- same configuration
@st.composite
def twice(draw):
    k = draw(st.sampled_from(sorted(ob.TREES)))
    return {'spec': draw(ob.TREES[k]()), 'perm': draw(st.integers(0, 10**6))}


def digests(obj, spec):
    return {'.'.join(map(str, p)) or 'root': getattr(ob.get(obj, p), 'digest', None) for p, _ in ob.nodes(spec)}


ORDERED = {'ind_low', 'ind_high', 'freq_range'}


def late(spec, r):
    """The same objects, but the parameters assigned one by one after construction, in any order."""
    o = getattr(ac, spec['k'])()
    names = list(spec['a'])
    r.shuffle(names)
    for n in names:
        v = spec['a'][n]
        if zoo.is_spec(v):
            v = late(v, r)
        elif isinstance(v, list) and v and zoo.is_spec(v[0]):
            v = [late(x, r) for x in v]
        else:
            v = zoo.conv(v)
        setattr(o, n, v)
        if r.rand() < 0.3:
            ob.attempt(lambda: o.digest)
    return o


@subcheck(P, 'equal', twice(), quick=900, shards=2, rule='the tree has at least two objects')
def equal(d, ctx):
    """The same configuration has the same digest, however it came about."""
    ac.config.global_caching = 'none'
    a, b = zoo.build(d['spec']), zoo.build(d['spec'])
    da = digests(a, d['spec'])
    ctx.equal(digests(b, d['spec']), da, 'digests of two objects built the same way')
    k, c = ob.attempt(lambda: late(d['spec'], np.random.RandomState(d['perm'])))
    if k == 'ok':
        dc = digests(c, d['spec'])
        for n in da:
            ctx.check(dc[n] == da[n], lambda: f'digest of {n} ({da[n]}) when the parameters are assigned after construction: {dc[n]}')
    # computing something does not change it
    ob.attempt(lambda: [f() for f in ob.results(a).values()])
    ctx.equal(digests(a, d['spec']), da, 'digests after the calculation')
    ctx.interesting(len(da) > 1)


@st.composite
def many(draw):
    return {'specs': [draw(twice())['spec'] for _ in range(draw(st.integers(5, 25)))], 'hashseed': draw(st.integers(0, 1000))}


CODE = """
import json, sys
sys.path[:0] = json.loads(sys.argv[1])
import vlib.boot
import acoular as ac
from vlib import zoo, objects as ob
ac.config.global_caching = 'none'
specs = json.load(open(sys.argv[2]))
out = []
for s in specs:
    o = zoo.build(s)
    out.append({'.'.join(map(str, p)) or 'root': getattr(ob.get(o, p), 'digest', None) for p, _ in ob.nodes(s)})
print(json.dumps({'file': ac.__file__, 'out': out}))
"""


@subcheck(P, 'process', many(), quick=8, rule='at least five trees')
def process(d, ctx):
    """... and in any process."""
    ac.config.global_caching = 'none'
    mine = [digests(zoo.build(s), s) for s in d['specs']]
    f = ctx.path('specs.json')
    with open(f, 'w') as h:
        json.dump(d['specs'], h)
    env = dict(os.environ, PYTHONHASHSEED=str(d['hashseed']))
    r = subprocess.run([sys.executable, '-c', CODE, json.dumps([p for p in sys.path if p]), f], capture_output=True, text=True, cwd=ctx.tmp, env=env, timeout=300)
    if r.returncode:
        raise RuntimeError('helper process failed: ' + r.stderr[-500:])
    other = json.loads(r.stdout.strip().splitlines()[-1])
    if os.path.dirname(other['file']) != os.path.dirname(ac.__file__):
        raise RuntimeError('helper process uses another acoular: ' + other['file'])
    for s, x, y in zip(d['specs'], mine, other['out']):
        for n in x:
            ctx.check(x[n] == y[n], lambda: f'digest of {n} of a {s["k"]} differs between processes: {x[n]} and {y[n]}')
    ctx.interesting(len(mine) >= 5)


@st.composite
def two_files(draw):
    k = draw(st.sampled_from(files.KINDS))
    return {'kind': k, 'content': draw(files.contents(k)), 'edit': draw(files.edits(k)), 'name': draw(st.sampled_from(['same', 'same', 'other'])), 'again': draw(st.booleans())}


@subcheck(P, 'files', two_files(), quick=500, rule='the contents of the files differ')
def files_(d, ctx):
    """What is read from a file is part of the configuration, wherever the file lies."""
    k = d['kind']
    x, fs = files.edited(d['content'], k, {'how': 'keep'})
    y, fy = files.edited(d['content'], k, d['edit'])
    ext = '.h5' if 'Samples' in k else '.xml'
    f, g = ctx.path('a/one' + ext), ctx.path(('b/one' if d['name'] == 'same' else 'b/two') + ext)
    files.write(f, k, x, fs)
    files.write(g, k, y, fy)
    a, b = getattr(ac, k)(file=f), getattr(ac, k)(file=g)
    da, db = a.digest, b.digest
    if d['again']:
        ctx.equal(getattr(ac, k)(file=f).digest, da, f'{k}: digests of two objects that read the same file')
        files.content(a)
        ctx.equal(a.digest, da, f'{k}: digest after the file was read')
    same = np.shape(x) == np.shape(y) and np.array_equal(x, y) and fs == fy
    if same:
        if d['name'] == 'same':
            ctx.equal(db, da, f'{k}: digests for two copies of a file')
        return
    if 'Samples' in k and fs == fy and x.shape == y.shape and x[0].sum() == y[0].sum():
        return  # known finding h5_first_row
    ctx.interesting()
    ctx.check(da != db, lambda: f'{k}: same digest {da} for files of different contents ({d["edit"]["how"]})')


@subcheck(P, 'h5_first_row', st.just({'data': [[1.0], [2.0]]}), quick=0)
def h5_first_row(d, ctx):
    """Witness of a known finding: two HDF5 files of one name that differ after the first sample."""
    x = np.array(d['data'])
    y = x.copy()
    y[1:] += 1
    out = []
    for i, v in enumerate([x, y]):
        f = ctx.path(f'{i}/x.h5')
        files.write(f, 'TimeSamples', v, 100.0)
        out.append(ac.TimeSamples(file=f).digest)
    ctx.check(out[0] != out[1], 'TimeSamples with files of different samples but equal first ones have the same digest')
    ctx.interesting()

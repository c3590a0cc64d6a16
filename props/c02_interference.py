"""C02 runs neither change their inputs nor each other."""

import copy

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import bf, zoo
from vlib import objects as ob
from vlib.core import subcheck
from vlib.zoo import fl

P = 'C02'


def parameters(o):
    """Everything the user can set on the object (and its digest), copied."""
    out = {}
    for n, t in type(o).class_traits().items():
        if n.startswith('_') or t.type in ('property', 'delegate', 'event') or n in ('h5f', 'idict', 'trait_added', 'trait_modified'):
            continue
        k, v = ob.attempt(lambda: getattr(o, n))
        if k == 'ok':
            v = np.array(v) if isinstance(v, np.ndarray) else ob._plain(v)
            if v is not None:
                out[n] = v
    out['digest'] = getattr(o, 'digest', None)
    for n in ('csm',):  # data given as a property
        if isinstance(o, ac.PowerSpectraImport):
            out[n] = np.array(o.csm)
    if isinstance(o, ac.ImportGrid):
        out['pos'] = np.array(o.pos)
    if isinstance(o, ac.SteeringVector):
        out['ref'] = np.array(o.ref)
    return out


def snapshot(obj, spec):
    return {'.'.join(map(str, p)) or s['k']: parameters(ob.get(obj, p)) for p, s in ob.nodes(spec)}


def identical(v, w):
    if isinstance(v, np.ndarray):
        return isinstance(w, np.ndarray) and v.dtype == w.dtype and v.shape == w.shape and v.tobytes() == w.tobytes()
    if isinstance(v, (tuple, list)):
        return type(v) is type(w) and len(v) == len(w) and all(map(identical, v, w))
    return bool(v == w or v != v)


def unchanged(ctx, before, after, what):
    for n, a in before.items():
        for t, v in a.items():
            w = after[n][t]
            ctx.check(identical(v, w), lambda: f'{what}: {n}.{t} is changed from {str(v)[:80]} to {str(w)[:80]}')


def freeze(obj, spec):
    """The arrays the user handed over, as they are stored (not copies)."""
    out = []
    for p, s in ob.nodes(spec):
        o = ob.get(obj, p)
        for n in s['a']:
            k, v = ob.attempt(lambda: getattr(o, n))
            if k == 'ok' and isinstance(v, np.ndarray):
                out.append((f'{".".join(map(str, p))}.{n}', v, v.tobytes()))
    return out


def is_generator(o):
    return isinstance(o, ac.Generator) and not isinstance(o, (ac.AngleTracker, ac.Trigger)) and getattr(o, 'source', True) is not None


@st.composite
def plan(draw, tree):
    op = st.one_of(
        st.fixed_dictionaries({'op': st.just('run'), 'i': st.integers(0, 50), 'num': st.integers(1, 40)}),
        st.fixed_dictionaries({'op': st.just('abandon'), 'i': st.integers(0, 50), 'num': st.integers(1, 20), 'k': st.integers(0, 4), 'close': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('two'), 'i': st.integers(0, 50), 'j': st.integers(0, 50), 'same': st.booleans(), 'num': st.tuples(st.integers(1, 20), st.integers(1, 20)), 'order': st.lists(st.booleans(), min_size=2, max_size=40)}),
    )
    return {'spec': draw(tree), 'ops': draw(st.lists(op, min_size=1, max_size=5))}


def run_generators(d, ctx):
    """Complete, abandoned and interleaved runs of any objects of one chain, compared with undisturbed runs of new chains."""
    ac.config.global_caching = 'none'
    spec = d['spec']
    live = zoo.build(spec)
    # a sector outside of the grid etc. is refused: such objects are only present
    paths = [p for p, _ in ob.nodes(spec) if is_generator(ob.get(live, p)) and ob.attempt(lambda: zoo.collect(ob.get(zoo.build(spec), p), 7))[0] == 'ok']
    if not paths:
        ctx.discard()
    before, given = snapshot(live, spec), freeze(live, spec)
    memo = {}
    held = []
    ctx.label(spec['k'])

    def ref(i, num):
        p = paths[i % len(paths)]
        key = (str(p), num)
        if key not in memo:
            memo[key] = zoo.collect(ob.get(zoo.build(spec), p), num)
        return memo[key]

    def same(blocks, want, what, complete=True):
        ctx.check(len(blocks) == len(want) or (not complete and len(blocks) <= len(want)), lambda: f'{what}: {len(blocks)} blocks instead of {len(want)}')
        for n, (a, b) in enumerate(zip(blocks, want)):
            ctx.same(a, b, f'{what}: block {n}')

    def name(i):
        return type(ob.get(live, paths[i % len(paths)])).__name__

    some = False
    for j, op in enumerate(d['ops']):
        o = ob.get(live, paths[op['i'] % len(paths)])
        what = f'step {j} {op["op"]} {name(op["i"])}'
        if op['op'] == 'run':
            same(zoo.collect(o, op['num']), ref(op['i'], op['num']), what)
        elif op['op'] == 'abandon':
            g = o.result(op['num'])
            got = []
            for _, b in zip(range(op['k']), g):
                got.append(np.array(b))
            same(got, ref(op['i'], op['num'])[: len(got)], what)
            some = some or len(got) > 0
            if op['close']:
                g.close()
            else:
                held.append(g)
        else:
            i, k = op['i'], op['i'] if op['same'] else op['j']
            a, b = o.result(op['num'][0]), ob.get(live, paths[k % len(paths)]).result(op['num'][1])
            got, done = {True: [], False: []}, {True: False, False: False}
            seq = list(op['order'])
            while not all(done.values()):
                s = seq.pop(0) if seq else not done[True]
                if done[s]:
                    s = not s
                try:
                    got[s].append(np.array(next(a if s else b)))
                except StopIteration:
                    done[s] = True
            same(got[True], ref(i, op['num'][0]), what + f' with {name(k)}: first')
            same(got[False], ref(k, op['num'][1]), what + f' with {name(k)}: second')
            some = some or (len(got[True]) > 1 and len(got[False]) > 1)
        unchanged(ctx, before, snapshot(live, spec), what)
        for n, v, raw in given:
            ctx.check(v.tobytes() == raw, lambda: f'{what}: the array {n} was written to')
    for i in range(len(paths)):
        same(zoo.collect(ob.get(live, paths[i]), 7), ref(i, 7), f'at the end: {name(i)}')
    ctx.interesting(some)


GEN = {'time': 900, 'masked': 200, 'fft': 300, 'timebeam': 200}
for _n, _q in GEN.items():
    subcheck(P, 'runs-' + _n, plan(ob.TREES[_n]()), quick=_q, shards=4 if _n == 'time' else 1, rule='a run was left after at least one block or two runs of several blocks were interleaved')(run_generators)


@st.composite
def rotating(draw):
    while True:
        s = draw(ob.rotation_tree())
        if s['k'] != 'AngleTracker':
            return s


subcheck(P, 'runs-rotation', plan(rotating()), quick=80, rule='a run was left after at least one block or two runs of several blocks were interleaved')(run_generators)


# ------------------------------------------------------------------------------ calculations
@st.composite
def order(draw, tree):
    return {'spec': draw(tree), 'order': draw(st.lists(st.integers(0, 60), min_size=2, max_size=8))}


def computed(o):
    return ob.results(o) or ob.reads(o)


def run_results(d, ctx):
    """Results of any objects of one tree, in any order and repeatedly, compared with those of new trees."""
    ac.config.global_caching = 'none'
    spec = d['spec']
    live = zoo.build(spec)
    ctx.label(spec['k'])
    before, given = snapshot(live, spec), freeze(live, spec)
    if not any(computed(ob.get(live, p)) for p, _ in ob.nodes(spec)):
        ctx.discard()
    items = [(p, n) for p, _ in ob.nodes(spec) for n in computed(ob.get(live, p))]
    seen = set()
    again = False
    for j in [*d['order'], *range(len(items))]:
        p, n = items[j % len(items)]
        k, want = ob.attempt(computed(ob.get(zoo.build(spec), p))[n])
        if k == 'exc':
            continue
        what = f'{n} of {type(ob.get(live, p)).__name__} after {len(seen)} other calculations'
        k, got = ob.attempt(computed(ob.get(live, p))[n])
        if k == 'exc':
            ctx.fail(f'{what} raises {got!r}')
        ob.same(ctx, got, want, what, rtol=1e-12)
        again = again or (str(p), n) in seen
        seen.add((str(p), n))
        unchanged(ctx, before, snapshot(live, spec), what)
        for m, v, raw in given:
            ctx.check(v.tobytes() == raw, lambda: f'{what}: the array {m} was written to')
    ctx.interesting(again and len(seen) > 1)


RES = {'spectra': 150, 'beamformer': 350, 'gridless': 8, 'psf': 80, 'steer': 100, 'geometry': 200, 'signal': 200, 'rotation': 60}
for _n, _q in RES.items():
    subcheck(P, 'results-' + _n, order(ob.TREES[_n]()), quick=_q, shards=3 if _n == 'beamformer' else 1, rule='at least two results, one of them twice')(run_results)


# ------------------------------------------------------------------------------ shared inputs
@st.composite
def shared(draw):
    s = draw(ob.small_steer())
    c = zoo.nmics(s)
    if draw(st.integers(0, 3)) == 0:
        s = bf.as_own(s)
    names = sorted(k for k in ob.FREQ if 'Gridless' not in k and (s['k'] != 'OwnSteer' or k not in ('BeamformerGIB', 'BeamformerSODIX')))
    users = []
    for _ in range(draw(st.integers(2, 4))):
        k = draw(st.sampled_from(names))
        a = copy.deepcopy(ob.FREQ[k])
        if draw(st.booleans()) and k in ('BeamformerBase', 'BeamformerEig', 'BeamformerDamas', 'BeamformerClean', 'BeamformerCleansc'):
            a['r_diag'] = False
        users.append({'k': k, 'a': a})
    return {'steer': s, 'fd': draw(st.one_of(ob.imported(c=c), ob.power(c=c))), 'users': users, 'order': draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(['result', 'line', 'synthetic'])), min_size=2, max_size=10))}


@subcheck(P, 'shared', shared(), quick=350, shards=3, rule='at least two different beamformers were used')
def shared_(d, ctx):
    """Several methods using the same spectra and steering vector, in any order."""
    ac.config.global_caching = 'none'
    steer, fd = zoo.build(d['steer']), zoo.build(d['fd'])
    users = [getattr(ac, u['k'])(freq_data=fd, steer=steer, cached=False, **{k: zoo.conv(v) for k, v in u['a'].items()}) for u in d['users']]
    before = [snapshot(steer, d['steer']), snapshot(fd, d['fd'])]
    csm = np.array(fd.csm[:])
    ref = {}

    def alone(i):
        if i not in ref:
            u = d['users'][i]
            o = getattr(ac, u['k'])(freq_data=zoo.build(d['fd']), steer=zoo.build(d['steer']), cached=False, **{k: zoo.conv(v) for k, v in u['a'].items()})
            ref[i] = ob.attempt(lambda: np.array(o.result[:]))
        return ref[i]

    used = set()
    for i, how in d['order']:
        i %= len(users)
        k, want = alone(i)
        if k == 'exc':
            continue
        what = f'{type(users[i]).__name__} ({how}) after {sorted(used)}'
        if how == 'result':
            got = np.array(users[i].result[:])
        elif how == 'line':
            got, want = np.array(users[i].result[len(want) - 1]), want[-1]
        else:
            got = users[i].synthetic(np.array(fd.fftfreq())[fd.indices][0], 0)
            want = want[fd.indices[0]].reshape(np.shape(got)) if want[0].size == np.size(got) else got
        ctx.close(got, want, what, rtol=1e-12, atol=1e-12 * (1e-300 + float(np.abs(want).max(initial=0.0))))
        used.add(type(users[i]).__name__)
        ctx.same(np.array(fd.csm[:]), csm, f'{what}: the cross spectral matrix')
    unchanged(ctx, before[0], snapshot(steer, d['steer']), 'afterwards')
    unchanged(ctx, before[1], snapshot(fd, d['fd']), 'afterwards')
    ctx.interesting(len(used) > 1)


# ------------------------------------------------------------------------- processing helpers
@st.composite
def helper(draw):
    n, m = draw(st.integers(1, 4)), draw(st.integers(2, 4))
    return {'what': draw(st.sampled_from(['integrate', 'L_p', 'transfer', 'barspectrum', 'return_result', 'synthetic', 'metrics'])), 'data': {'arr': 'pos', 'shape': [n, m * m], 'seed': draw(zoo.seeds)}, 'm': m, 'times': draw(st.integers(2, 3)), 'sector': [draw(fl(-1, 1)) for _ in range(3)]}


@subcheck(P, 'helpers', helper(), quick=200, rule='called at least twice')
def helpers(d, ctx):
    """Functions taking arrays do not write to them and give the same again."""
    ac.config.global_caching = 'none'
    data = zoo.arr(d['data'])
    raw = data.copy()
    m = d['m']
    g = ac.RectGrid(x_min=0.0, x_max=1.0, y_min=0.0, y_max=1.0, increment=1 / (m - 1))
    sec = np.array([d['sector'][0], d['sector'][1], 0.2 + abs(d['sector'][2])])
    first = None
    steer = ac.SteeringVector(grid=g, mics=ac.MicGeom(pos_total=np.array([[0.0, 0.3], [0.0, 0.1], [0.0, 0.0]])))
    freqs = np.arange(1.0, len(data) + 1) * 100
    for _ in range(d['times']):
        if d['what'] == 'integrate':
            out = np.array([ac.integrate(x.reshape(g.shape), g, ac.CircSector(x=sec[0], y=sec[1], r=sec[2])) for x in data])
        elif d['what'] == 'L_p':
            out = ac.L_p(data)
        elif d['what'] == 'transfer':
            out = steer.transfer(freqs[0])
        elif d['what'] == 'barspectrum':
            out = ac.tools.barspectrum(np.tile(data[:, 0], 20), np.arange(20 * len(data)) * 50.0, 3)[1]
        elif d['what'] == 'synthetic':
            out = np.concatenate([np.ravel(ac.synthetic(data.reshape(len(data), *g.shape), freqs, 100.0, q)) for q in (0, 1, 3)])
        elif d['what'] == 'metrics':
            me = ac.MetricEvaluator(grid=g, data=data, target_grid=ac.ImportGrid(pos=np.array([[0.0], [0.0], [1.0]])), target_data=np.ones((len(data), 1)), sector=ac.CircSector(r=0.3))
            out = np.concatenate([me.get_specific_level_error().ravel(), me.get_overall_level_error().ravel(), np.ravel(me.get_inverse_level_error())])
        else:
            out = ac.tools.return_result(ac.TimeSamples(data=data, sample_freq=10.0), num=2)
        out = np.array(out)
        ctx.check(np.array_equal(data, raw), f'{d["what"]} writes to its input')
        if first is None:
            first = out
        ctx.same(out, first, f'{d["what"]} called again')
    ctx.label(d['what'])
    ctx.interesting()

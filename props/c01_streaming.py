"""C01 block streaming: what comes out does not depend on how it is asked for."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import bf, objects, zoo
from vlib.core import subcheck

P = 'C01'


def check_blocks(ctx, obj, num, n, nc, what, irregular=False):
    """Collect ``obj.result(num)`` and check the block structure."""
    blocks = zoo.collect(obj, num)
    for i, b in enumerate(blocks):
        if b.ndim != 2 or b.shape[1] != nc:
            ctx.fail(f'{what}: block {i} of result({num}) has shape {b.shape}, expected {nc} columns')
        if i < len(blocks) - 1 and b.shape[0] != num:
            ctx.fail(f'{what}: block {i} of {len(blocks)} of result({num}) has {b.shape[0]} rows')
        if i == len(blocks) - 1 and not 1 <= b.shape[0] <= num:
            ctx.fail(f'{what}: last block of result({num}) has {b.shape[0]} rows')
    out = zoo.cat(blocks, nc)
    if n is not None and out.shape[0] != n:
        ctx.fail(f'{what}: result({num}) delivers {out.shape[0]} samples in total, expected {n}')
    return out


def report_ok(ctx, obj, d, what):
    ctx.equal(obj.num_channels, d['c'], f'{what}.num_channels')
    if d['n'] > 0:
        ctx.equal(int(obj.num_samples), d['n'], f'{what}.num_samples')
    ctx.close(np.float64(obj.sample_freq), np.float64(d['fs']), f'{what}.sample_freq', rtol=1e-9)


@st.composite
def pipes(draw):
    d = draw(zoo.pipeline())
    d['nums'] = draw(st.lists(st.integers(1, max(2, d['n'] + 3)), min_size=2, max_size=4, unique=True))
    if draw(st.booleans()):
        # divisors of the length and sizes beyond it are the interesting edges
        d['nums'] = sorted({*d['nums'], d['n'] or 1, max(1, d['n'] // 2), d['n'] + 1})
    return d


@subcheck(P, 'pipeline', pipes(), quick=1400, shards=8, rule='the output has at least two blocks for one of the block sizes')
def pipeline(d, ctx):
    what = '>'.join(d['names'])
    ref = None
    report_ok(ctx, zoo.build(d['spec']), d, what)
    for num in d['nums']:
        obj = zoo.build(d['spec'])
        out = check_blocks(ctx, obj, num, d['n'], d['c'], what)
        ctx.interesting(num < d['n'])
        if ref is None:
            ref = out
        else:
            ctx.close(out, ref, f'{what}: result({num}) against result({d["nums"][0]})', rtol=1e-8, atol=1e-12)
    ctx.label(*d['names'])


@subcheck(P, 'source', st.tuples(zoo.sample_source(nlo=1, nhi=120), st.lists(st.integers(1, 130), min_size=2, max_size=4, unique=True)),
          quick=700, shards=4, rule='the output has at least two blocks for one of the block sizes')
def source(case, ctx):
    (spec, n, c, fs), nums = case
    d = {'n': n, 'c': c, 'fs': fs, 'names': [spec['k']]}
    what = spec['k']
    report_ok(ctx, zoo.build(spec), d, what)
    ref = None
    for num in nums + [n]:
        out = check_blocks(ctx, zoo.build(spec), num, n, c, what)
        ctx.interesting(num < n)
        if ref is None:
            ref = out
        else:
            ctx.close(out, ref, f'{what}: result({num}) against result({nums[0]})', rtol=1e-8, atol=1e-12)
    ctx.label(what)


@st.composite
def spectra(draw):
    n = draw(st.integers(1, 200))
    c = draw(st.integers(1, 3))
    bs = draw(st.sampled_from([2, 4, 8, 16, 32]))
    src = draw(zoo.timesamples(n, c, draw(st.sampled_from(zoo.FS))))
    ov = draw(st.sampled_from(['None', '50%', '75%', '87.5%']))
    spec = zoo.S('RFFT', source=src, block_size=bs, overlap=ov, window=draw(st.sampled_from(['Rectangular', 'Hanning', 'Hamming', 'Bartlett', 'Blackman'])),
                 scaling=draw(st.sampled_from(['none', 'energy', 'amplitude'])))
    cols = c * (bs // 2 + 1)
    kind = draw(st.sampled_from(['RFFT', 'AutoPowerSpectra', 'CrossPowerSpectra', 'Average']))
    if kind == 'AutoPowerSpectra':
        spec = zoo.S(kind, source=spec, scaling=draw(st.sampled_from(['power', 'psd'])), single_sided=draw(st.booleans()))
    elif kind == 'CrossPowerSpectra':
        spec = zoo.S(kind, source=spec, calc_mode='full')
        cols = c * c * (bs // 2 + 1)
    nav = 1
    if kind == 'Average':
        nav = draw(st.integers(1, 5))
        spec = zoo.S('Average', source=zoo.S('AutoPowerSpectra', source=spec), num_per_average=nav)
    return {'spec': spec, 'n': n, 'bs': bs, 'ov': ov, 'cols': cols, 'kind': kind, 'nav': nav, 'nums': draw(st.lists(st.integers(1, 40), min_size=2, max_size=4, unique=True))}


@subcheck(P, 'spectra', spectra(), quick=600, shards=2, rule='the output has at least two blocks for one of the block sizes')
def spectra_blocks(d, ctx):
    ref = None
    for num in d['nums']:
        obj = zoo.build(d['spec'])
        out = check_blocks(ctx, obj, num, None, d['cols'], d['kind'])
        if d['ov'] == 'None':
            ctx.equal(out.shape[0], d['n'] // d['bs'] // d['nav'], f'{d["kind"]}: number of snapshots')
            if d['kind'] != 'Average':
                ctx.equal(obj.num_samples, d['n'] // d['bs'], f'{d["kind"]}.num_samples')
        ctx.interesting(0 < num < out.shape[0])
        if ref is None:
            ref = out
        else:
            ctx.close(out, ref, f'{d["kind"]}: result({num}) against result({d["nums"][0]})', rtol=1e-9, atol=1e-300)
    ctx.label(d['kind'])


@subcheck(P, 'timebeamformer', bf.time_beamformer(), quick=250, shards=3, rule='the beamformer output spans at least two blocks for one of the block sizes')
def timebeamformer(d, ctx):
    ref = None
    kind = d['spec']['k']
    for num in d['nums']:
        obj = zoo.build(d['spec'])
        out = check_blocks(ctx, obj, num, None, obj.steer.grid.size, kind)
        ctx.interesting(num < out.shape[0])
        dmax = int((obj.steer.rm / obj.steer.env.c * obj.source.sample_freq).max()) + 2
        if 'Traj' not in kind:
            ctx.equal(out.shape[0], max(0, d['n'] - dmax), f'{kind}: number of samples (source delivers {d["n"]}, longest delay {dmax})')
        if ref is None:
            ref = out
        elif kind in bf.CLEANT:  # iterates block by block
            ctx.shape(out, ref.shape, f'{kind}: result({num}) against result({d["nums"][0]})')
        else:
            ctx.close(out, ref, f'{kind}: result({num}) against result({d["nums"][0]})', rtol=1e-8)
    ctx.label(kind)


@st.composite
def other(draw):
    k = draw(st.sampled_from(['rotation', 'rotation', 'IntegratorSectorTime', 'IntegratorSectorTime', 'WriteH5', 'WriteH5', 'WriteWAV', 'Trigger', 'SampleSplitter']))
    fs = draw(st.sampled_from([100.0, 8000.0]))
    if k == 'rotation':
        spec = draw(objects.rotation_tree())
        for t in [spec, spec['a'].get('angle_source', spec)]:
            if t['k'] == 'AngleTracker':
                t['a']['interp_points'] = 4  # the least that the cubic spline takes
        if spec['a'].get('array_dimension') == '2D':  # the microphones must not lie on one circle
            pos = spec['a']['mics']['a']['pos_total']['lit']
            spec['a']['mics']['a']['pos_total']['lit'] = [[round(p * (0.6 + 0.37 * i * i % 1), 6) for i, p in enumerate(row)] for row in pos]
        if draw(st.booleans()) and 'interp_at_zero' not in spec['a'] and spec['k'] != 'AngleTracker':
            spec['a']['interp_at_zero'] = draw(st.booleans())
        n, c = (next(spec['a'][s]['a']['data']['shape'] for s in ['source']))
        k = spec['k']
    else:
        n = draw(st.integers(1, 60))
        if k == 'IntegratorSectorTime':
            g = draw(zoo.rect_grid(maxn=3))
            a, c = g['a'], zoo.build(g).size
            secs = [[a['x_min'], a['y_min'], 0.3], [a['x_min'], a['y_min'], a['x_max'], a['y_max']], [a['x_max'], a['y_max'], a['x_max'], a['y_min']]]
            spec = zoo.S(k, grid=g, sectors=draw(st.lists(st.sampled_from(secs), min_size=1, max_size=3)), clip=draw(st.sampled_from([-350.0, -10.0, -3.0, -1.0])))
        else:
            c = draw(st.integers(1, 3))
            spec = zoo.S(k)
        spec['a']['source'] = draw(zoo.timesamples(n, c, fs))
        if k == 'IntegratorSectorTime':
            c = len(spec['a']['sectors'])
    return {'spec': spec, 'n': n, 'c': c, 'k': k, 'nums': draw(st.lists(st.integers(1, n + 5), min_size=2, max_size=3, unique=True))}


@subcheck(P, 'other', other(), quick=300, shards=3, rule='the output has at least two blocks for one of the block sizes')
def other_blocks(d, ctx):
    """Interpolation onto rotating arrays, integration over sectors, writers and splitters between other blocks."""
    ref = None
    k = d['k']
    for i, num in enumerate(d['nums']):
        if k == 'SampleSplitter':
            obj = ac.SampleSplitter(source=zoo.build(d['spec']['a']['source']))
            obj, splitter = ac.TimeReverse(source=obj), obj
            splitter.register_object(obj)
        else:
            obj = zoo.build(d['spec'])
        if k == 'WriteH5':
            obj.file = ctx.path(f'{i}.h5')
            obj.precision = 'float64'
        out = check_blocks(ctx, obj, num, d['n'], d['c'], k)
        ctx.interesting(num < d['n'])
        if ref is None:
            ref = out
        else:
            ctx.close(out, ref, f'{k}: result({num}) against result({d["nums"][0]})', rtol=1e-8, atol=1e-12)
    ctx.label(k)

"""C09 elementwise, averaging and mixing blocks compute what they announce."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S

P = 'C09'
nums = st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 12), st.sampled_from([64, 1000]))
SCALES = (1.0, 1e-7, 1e5)


@st.composite
def src(draw, n=None, c=None, fs=None, nlo=1):
    n = draw(st.one_of(st.integers(nlo, 20), st.integers(nlo, 150))) if n is None else n
    c = draw(st.integers(1, 5)) if c is None else c
    a = draw(zoo.arrays([n, c], scales=SCALES))
    if draw(st.integers(0, 3)) == 0:
        a['dtype'] = 'float32'
    return S('TimeSamples', data=a, sample_freq=draw(st.sampled_from(zoo.FS)) if fs is None else fs)


def data(spec):
    return np.array(zoo.arr(spec['a']['data']), dtype=float)


def compare(ctx, obj, ref, num, what, rtol=1e-11, scale=None):
    out = zoo.cat(zoo.collect(obj, num), ref.shape[1])
    ctx.shape(out, ref.shape, f'{what}: result({num})')
    ctx.close(out, ref, f'{what}: result({num})', rtol=rtol, scale=scale)
    ctx.equal((obj.num_samples, obj.num_channels), ref.shape, f'{what}: announced (num_samples, num_channels)')


# ------------------------------------------------------------------------------ one source
@st.composite
def single(draw):
    s = draw(src())
    n, c = s['a']['data']['shape']
    k = draw(st.sampled_from(['TimePower', 'TimeCumAverage', 'TimeReverse', 'Average', 'ChannelMixer', 'Cache']))
    a = {}
    if k == 'Average':
        a['num_per_average'] = draw(st.one_of(st.integers(1, 8), st.integers(1, n + 2)))
    if k == 'ChannelMixer':
        w = draw(st.sampled_from([None, {'lit': []}, {'lit': [0.5]}, {'arr': 'normal', 'shape': [c], 'seed': draw(zoo.seeds)}, {'arr': 'int', 'shape': [c], 'seed': draw(zoo.seeds)}]))
        if w is not None:
            a['weights'] = w
    return {'spec': S(k, source=s, **a), 'num': draw(nums)}


@subcheck(P, 'single', single(), quick=1500, shards=3, rule='more than one block and a signal that is not constant')
def single_(d, ctx):
    spec, num = d['spec'], d['num']
    k, a = spec['k'], spec['a']
    x = data(a['source'])
    f32 = a['source']['a']['data'].get('dtype') == 'float32'
    n, c = x.shape
    obj = zoo.build(spec)
    rtol = 1e-5 if f32 else 1e-11
    fs = a['source']['a']['sample_freq']
    if k == 'TimePower':
        ref = x**2
    elif k == 'TimeCumAverage':
        ref = np.cumsum(x, axis=0) / np.arange(1, n + 1)[:, None]
        rtol *= 10
    elif k == 'TimeReverse':
        ref = x[::-1]
        rtol = 0
    elif k == 'Average':
        nav = a['num_per_average']
        ref = np.array([x[i * nav : (i + 1) * nav].mean(axis=0) for i in range(n // nav)]).reshape(-1, c)
        fs = fs / nav
    elif k == 'ChannelMixer':
        w = np.broadcast_to(zoo.arr(a['weights']) if 'weights' in a and zoo.arr(a['weights']).size else np.ones(1), (c,))
        ref = np.array([[float(np.dot(w, row))] for row in x])
    else:
        ac.config.global_caching = 'none'
        ref = x
        rtol = 0
    scale = np.abs(x).max() * (np.abs(x).max() if k == 'TimePower' else 1)
    compare(ctx, obj, ref, num, k, rtol=rtol, scale=scale * (c if k == 'ChannelMixer' else 1))
    ctx.equal(obj.sample_freq, fs, f'{k}: sample_freq')
    ctx.label(k)
    ctx.interesting(n > num and np.ptp(x) > 0)


# ------------------------------------------------------------------------------ mixing
@st.composite
def mix(draw):
    m = draw(st.integers(0, 4))
    n, c, fs = draw(st.integers(1, 40)), draw(st.integers(1, 4)), draw(st.sampled_from(zoo.FS))
    equal = draw(st.booleans())
    others = [draw(src(n if equal or draw(st.booleans()) else draw(st.integers(1, 45)), c, fs)) for _ in range(m)]
    return {'source': draw(src(n, c, fs)), 'others': others, 'num': draw(nums)}


@subcheck(P, 'mixer', mix(), quick=600, shards=2, rule='at least two sources')
def mixer_(d, ctx):
    """The sum of all signals, as long as all of them last."""
    xs = [data(s) for s in [d['source'], *d['others']]]
    n = min(x.shape[0] for x in xs)
    obj = ac.Mixer(source=zoo.build(d['source']), sources=[zoo.build(s) for s in d['others']])
    ref = sum(x[:n] for x in xs)
    out = zoo.cat(zoo.collect(obj, d['num']), xs[0].shape[1])
    ctx.shape(out, ref.shape, f'Mixer: result({d["num"]})')
    ctx.close(out, ref, 'Mixer', rtol=1e-5 if any(s['a']['data'].get('dtype') for s in [d['source'], *d['others']]) else 1e-12, scale=max(np.abs(x).max() for x in xs))
    ctx.equal((obj.num_channels, obj.sample_freq), (xs[0].shape[1], d['source']['a']['sample_freq']), 'Mixer: announced (num_channels, sample_freq)')
    if len({x.shape[0] for x in xs}) > 1:
        ctx.label('different lengths')
    ctx.interesting(len(xs) > 1)


@st.composite
def smix(draw):
    m = draw(st.integers(1, 4))
    n, c, fs = draw(st.integers(1, 40)), draw(st.integers(1, 4)), draw(st.sampled_from(zoo.FS))
    w = draw(st.one_of(st.none(), st.just({'lit': []}), st.just({'arr': 'normal', 'shape': [m], 'seed': draw(zoo.seeds)}), st.just({'arr': 'int', 'shape': [m], 'seed': draw(zoo.seeds)})))
    return {'sources': [draw(src(n, c, fs)) for _ in range(m)], 'weights': w, 'num': draw(nums)}


@subcheck(P, 'sourcemixer', smix(), quick=600, shards=2, rule='at least two sources')
def smixer_(d, ctx):
    """The weighted sum of the sources; empty weights mean the plain sum."""
    xs = [data(s) for s in d['sources']]
    m = len(xs)
    kw = {}
    w = np.ones(m)
    if d['weights'] is not None:
        kw['weights'] = zoo.arr(d['weights'])
        if kw['weights'].size:
            w = np.broadcast_to(kw['weights'], (m,))
    objs = [zoo.build(s) for s in d['sources']]
    obj = ac.SourceMixer(sources=objs, **kw)
    ref = sum(wi * x for wi, x in zip(w, xs))
    f32 = any(s['a']['data'].get('dtype') for s in d['sources'])
    compare(ctx, obj, ref, d['num'], 'SourceMixer', rtol=1e-5 if f32 else 1e-12, scale=max(abs(wi) * np.abs(x).max() for wi, x in zip(w, xs)))
    ctx.equal(obj.sample_freq, d['sources'][0]['a']['sample_freq'], 'SourceMixer: sample_freq')
    for o, x in zip(objs, xs):
        ctx.same(np.asarray(o.data, dtype=float), x, 'data of a mixed source afterwards')
    ctx.interesting(m > 1)

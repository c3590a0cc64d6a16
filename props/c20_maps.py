"""C20 steering vectors follow their formulation, beamforming maps their definition."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import bf, zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C20'


@st.composite
def steering(draw):
    s = draw(zoo.steer(e=zoo.env(), lo=1))
    if draw(st.booleans()):
        s['a']['ref'] = draw(st.sampled_from([0.0, 1.0, 0.01, 12.5, {'lit': [0.1, -0.2, 0.3]}, {'lit': [0, 0, 0]}, {'lit': [3.0, -1.0, -2.0]}]))
    return {'steer': s, 'f': draw(st.one_of(fl(0, 6000, 1), st.sampled_from([0.0, 1.0, 20000.0]))), 'ind': draw(st.sampled_from(['none', 'scalar', 'list', 'array'])), 'pick': draw(st.lists(st.integers(0, 1000), min_size=1, max_size=6))}


@subcheck(P, 'steering_vectors', steering(), quick=400, shards=2, rule='several grid points and microphones, a frequency above zero')
def steering_(d, ctx):
    steer = zoo.build(d['steer'])
    n = steer.grid.size
    r0, rm = bf.geometry(steer)
    ctx.close(steer.rm, rm, 'rm', rtol=1e-12)
    ctx.close(steer.r0, r0, 'r0', rtol=1e-12)
    pick = [p % n for p in d['pick']]
    ind, sel = {'none': (None, slice(None)), 'scalar': (pick[0], [pick[0]]), 'list': (pick, pick), 'array': (np.array(pick), pick)}[d['ind']]
    if (rm < 1e-6).any() or (r0 < 1e-9).any():
        ctx.discard()
    tol = bf.phase_tol(steer, d['f'])
    for what, got, ref in (('transfer', steer.transfer(d['f'], ind), bf.transfer(steer, d['f'])), (steer.steer_type, steer.steer_vector(d['f'], ind), bf.vectors(steer, d['f']))):
        ref = ref[sel]
        ctx.shape(got, ref.shape, what)
        # relative to the magnitude of each entry
        ctx.close(got / np.abs(ref), ref / np.abs(ref), what, rtol=3 * tol)
    h, a = steer.steer_vector(d['f'], ind), steer.transfer(d['f'], ind)
    if steer.steer_type in ('inverse', 'true level'):
        ctx.close((h.conj() * a).sum(1), np.ones(len(h)), f'{steer.steer_type}: response to a source at the focus', rtol=1e-9)
    if steer.steer_type == 'true location':
        # never exceeded by sources anywhere else (Cauchy-Schwarz), reached at the focus
        best = np.sqrt((np.abs(a) ** 2).sum(1) / a.shape[1])
        ctx.close(np.abs((h.conj() * a).sum(1)), best, 'true location: response at the focus', rtol=1e-9)
        resp = np.abs(bf.vectors(steer, d['f']).conj() @ a.T)
        ctx.check((resp <= best[None, :] * (1 + 1e-6 + 10 * tol)).all(), 'true location: response larger than at the source position')
    ctx.label(steer.steer_type, d['ind'], type(steer.env).__name__)
    ctx.interesting(n > 1 and rm.shape[1] > 1 and d['f'] > 0)


@st.composite
def maps(draw):
    d = draw(bf.scene(nf=(1, 3)))
    d |= {'r_diag': draw(st.booleans()), 'norm': draw(st.sampled_from([0.0, 0.0, 1.0, 2.5, 0.3])), 'precision': draw(st.sampled_from(['float64', 'float64', 'float32'])), 'explicit': draw(st.booleans())}
    return d


@subcheck(P, 'maps', maps(), quick=350, shards=2, rule='several grid points and microphones, map not all zero')
def maps_(d, ctx):
    steer, c, fd = bf.setup(d)
    kw = dict(precision=d['precision'])
    if d['explicit'] or not d['r_diag']:
        kw['r_diag'] = d['r_diag']
    if d['norm'] or d['explicit']:
        kw['r_diag_norm'] = d['norm']
    b = ac.BeamformerBase(freq_data=fd, steer=steer, **kw)
    nm = steer.mics.num_mics
    norm = 1.0 if not d['r_diag'] else d['norm'] or nm / (nm - 1)
    ok = False
    res = b.result
    for i, f in enumerate(d['f']):
        h = bf.vectors(steer, f)
        cc = c[i] * (1 - np.eye(nm)) if d['r_diag'] else c[i]
        ref = bf.quadratic(h, cc) * norm
        scale = (np.abs(h) ** 2).sum(1) * np.linalg.norm(c[i], 2) * norm
        if d['r_diag']:
            ref = np.maximum(ref, 0)
        got = res[i]
        ctx.shape(got, ref.shape, 'map')
        ctx.equal(str(got.dtype), d['precision'], 'precision of the map')
        tol = 1e-9 + 20 * nm * bf.phase_tol(steer, f) + (1e-6 if d['precision'] == 'float32' else 0)
        ctx.close(got / scale, ref / scale, f'map at {f} Hz relative to the largest possible value', rtol=0, atol=tol)
        ok |= bool(ref.any())
    ctx.label(steer.steer_type, type(steer).__name__, 'without diagonal' if d['r_diag'] else 'full')
    ctx.interesting(steer.grid.size > 1 and nm > 1 and ok)


@st.composite
def point_spread(draw):
    s = draw(zoo.steer(e=zoo.env(), lo=1))
    if draw(st.integers(0, 2)) == 0:
        s = bf.as_own(s)
    reads = draw(st.lists(st.tuples(st.one_of(st.none(), st.lists(st.integers(0, 1000), min_size=1, max_size=6)), st.sampled_from(['single', 'block', 'full']), fl(0, 4000, 1)), min_size=1, max_size=3))
    return {'steer': s, 'reads': reads, 'precision': draw(st.sampled_from(['float64', 'float64', 'float32']))}


@subcheck(P, 'point_spread', point_spread(), quick=300, rule='several grid points and microphones')
def point_spread_(d, ctx):
    steer = zoo.build(d['steer'])
    n = steer.grid.size
    r0, rm = bf.geometry(steer)
    if (r0 < 1e-6).any():
        ctx.discard()
    p = ac.PointSpreadFunction(steer=steer, precision=d['precision'])
    for pick, mode, f in d['reads']:
        ind = np.arange(n) if pick is None else np.array([q % n for q in pick])
        p.grid_indices = np.array([], int) if pick is None else ind
        p.calcmode = mode
        p.freq = f
        got = np.asarray(p.psf)
        h, a = bf.vectors(steer, f), bf.transfer(steer, f)
        ref = np.abs(h.conj() @ a[ind].T) ** 2
        scale = ((np.abs(h) ** 2).sum(1)[:, None] * (np.abs(a[ind]) ** 2).sum(1)[None, :])
        ctx.shape(got, ref.shape, 'psf')
        ctx.equal(str(got.dtype), d['precision'], 'precision of the psf')
        tol = 1e-9 + 20 * bf.phase_tol(steer, f) * rm.shape[1] + (1e-6 if d['precision'] == 'float32' else 0)
        ctx.close(got / scale, ref / scale, f'psf at {f} Hz relative to the largest possible value', rtol=0, atol=tol)
        if steer.steer_type in ('inverse', 'true level'):
            ctx.close(got[ind, np.arange(len(ind))], np.ones(len(ind)), 'psf at the source', rtol=1e-5)
        # the map of a unit source at one of the points
        j = len(ind) - 1
        src = a[ind[j]]
        fd = bf.import_csm(np.outer(src, src.conj())[None], [f])
        m = ac.BeamformerBase(freq_data=fd, steer=steer, r_diag=False).result[0]
        ctx.close(m / scale[:, j], got[:, j] / scale[:, j], 'map of a unit source and psf', rtol=0, atol=2 * tol)
    ctx.label(steer.steer_type, *[m for _, m, _ in d['reads']])
    ctx.interesting(n > 1 and rm.shape[1] > 1)


@st.composite
def recover(draw):
    """A source on a grid point."""
    d = {'steer': draw(zoo.steer(e=zoo.env(), lo=2, types=['true level', 'inverse', 'true location', 'classic'])), 'f': draw(fl(1, 4000, 1)), 'pos': draw(st.integers(0, 1000)), 'q': draw(st.sampled_from([1.0, 1e-4, 40.0])), 'r_diag': draw(st.booleans()), 'noise': draw(st.sampled_from([0.0, 1.0]))}
    return d


@subcheck(P, 'source_level', recover(), quick=200, rule='several grid points')
def recover_(d, ctx):
    """Level-true formulations show the level of a single source, with uncorrelated noise removed along with the diagonal."""
    steer = zoo.build(d['steer'])
    j = d['pos'] % steer.grid.size
    r0, rm = bf.geometry(steer)
    if (r0 < 1e-6).any():
        ctx.discard()
    a = bf.transfer(steer, d['f'])[j]
    nm = len(a)
    c = d['q'] * np.outer(a, a.conj())
    w = np.abs(bf.vectors(steer, d['f'])[j] * a) ** 2
    if d['r_diag']:
        c = c + d['noise'] * d['q'] * np.diag(np.arange(nm) + 1.0)
    b = ac.BeamformerBase(freq_data=bf.import_csm(c[None], [d['f']]), steer=steer, r_diag=d['r_diag'])
    m = b.result[0]
    tol = 100 * nm * bf.phase_tol(steer, d['f']) * (1 + d['noise'] * nm)
    if steer.steer_type in ('inverse', 'true level'):
        expect = d['q'] if not d['r_diag'] else d['q'] * (1 - w.sum()) * nm / (nm - 1)
        ctx.close(m[j], max(expect, 0), f'level of the source with {steer.steer_type}', rtol=0, atol=d['q'] * tol)
    if steer.steer_type == 'true location' and not d['r_diag']:
        ctx.check(m[j] >= m.max() * (1 - 1e-5 - tol), 'true location: maximum of the map is not at the source')
    ctx.label(steer.steer_type)
    ctx.interesting(steer.grid.size > 1)

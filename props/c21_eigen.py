"""C21 Functional, Capon, eigenvalue, MUSIC and orthogonal beamforming equal their matrix definitions."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import bf, zoo
from vlib.core import subcheck
from vlib.zoo import fl

P = 'C21'


def eig(ctx, fd, c, i):
    """The eigenvalues and eigenvectors the library uses, after checking that they are such (they are not unique)."""
    w, v = np.array(fd.eva[i], float), np.array(fd.eve[i], complex)
    size = np.linalg.norm(c[i], 2)
    ctx.close((v * w) @ v.conj().T / size, c[i] / size, 'decomposition of the matrix', rtol=0, atol=1e-9)
    ctx.close(v.conj().T @ v, np.eye(len(w)), 'orthonormal eigenvectors', rtol=0, atol=1e-9)
    ctx.check((np.diff(w) >= -1e-9 * size).all(), 'eigenvalues in increasing order')
    return w, v, size


def power(h, v):
    """|h^H v|^2 for all rows of h and columns of v."""
    return np.abs(h.conj() @ v) ** 2


def tolerance(steer, f):
    return 1e-9 + 20 * steer.mics.num_mics * bf.phase_tol(steer, f)


@st.composite
def functional(draw):
    d = draw(bf.scene(nf=(1, 2)))
    return d | {'gamma': draw(st.sampled_from([1.0, 1.0, 2.0, 4.0, 10.0, 30.0, 1.5, 0.5, 100.0])), 'precision': draw(st.sampled_from(['float64', 'float64', 'float32']))}


@subcheck(P, 'functional', functional(), quick=300, rule='exponent not one, several grid points and microphones')
def functional_(d, ctx):
    steer, c, fd = bf.setup(d)
    g = d['gamma']
    b = ac.BeamformerFunctional(freq_data=fd, steer=steer, gamma=g, precision=d['precision'])
    res = np.array(b.result[:], float)
    for i, f in enumerate(d['f']):
        w, v, size = eig(ctx, fd, c, i)
        root = np.maximum(w, 0) ** (1 / g)
        h = bf.vectors(steer, f)
        norm = (np.abs(h) ** 2).sum(1)
        ref = (power(h, v) * root).sum(1) / norm
        ctx.check((res[i] >= 0).all() and np.isfinite(res[i]).all(), f'negative or invalid values at {f} Hz')
        # compared before the last exponentiation, relative to the largest possible value
        got = (res[i] / norm) ** (1 / g) / size ** (1 / g)
        tol = tolerance(steer, f) + (1e-6 if d['precision'] == 'float32' else 0)
        tiny = (1e-30 / norm.min() / size) ** (1 / g) if d['precision'] == 'float32' else 0
        ctx.close(got, ref / size ** (1 / g), f'map at {f} Hz', rtol=0, atol=tol + tiny)
        if g >= 1:
            # never above the delay-and-sum map, and never above the largest eigenvalue
            plain = (power(h, v) * np.maximum(w, 0)).sum(1)
            ctx.check((res[i] <= plain * (1 + 1e-5) + g * tol * size * norm).all(), f'larger than the delay-and-sum map at {f} Hz')
    ctx.label(steer.steer_type, type(steer).__name__, f'gamma {g:g}', 'rank deficient' if d['csm']['rank'] < d['csm']['nm'] and not d['csm']['noise'] else 'full rank')
    ctx.interesting(g != 1 and steer.grid.size > 1 and steer.mics.num_mics > 1)


@subcheck(P, 'capon', bf.scene(nf=(1, 3), full=True), quick=200, rule='several grid points and microphones')
def capon_(d, ctx):
    steer, c, fd = bf.setup(d)
    n = steer.mics.num_mics
    res = ac.BeamformerCapon(freq_data=fd, steer=steer).result[:]
    for i, f in enumerate(d['f']):
        inv = np.linalg.inv(c[i])
        h = bf.vectors(steer, f)
        scale = (np.abs(h) ** 2).sum(1) * np.linalg.norm(inv, 2)
        ref = bf.quadratic(h, inv) / scale
        tol = tolerance(steer, f) + 1e-13 * np.linalg.cond(c[i])
        ctx.close(1 / (res[i] * n**2 * scale), ref, f'map at {f} Hz', rtol=1e-9, atol=tol)
        # a distortionless response never lets more power through than delay-and-sum
        plain = bf.quadratic(h, c[i])
        hh = (np.abs(h) ** 2).sum(1) ** 2 * n**2
        ok = ref > 100 * tol
        ctx.check((res[i] * hh <= plain * (1 + 0.1))[ok].all(), f'larger than the delay-and-sum map at {f} Hz')
    ctx.label(steer.steer_type, type(steer).__name__)
    ctx.interesting(steer.grid.size > 1 and n > 1)


@st.composite
def eigen(draw):
    d = draw(bf.scene(nf=(1, 2)))
    nm = d['csm']['nm']
    return d | {'n': draw(st.integers(-nm - 2, nm + 2)), 'r_diag': draw(st.booleans()), 'norm': draw(st.sampled_from([0.0, 0.0, 1.0, 2.5])), 'precision': draw(st.sampled_from(['float64', 'float64', 'float32']))}


@subcheck(P, 'eigenvalue', eigen(), quick=300, rule='several grid points and microphones')
def eigen_(d, ctx):
    steer, c, fd = bf.setup(d)
    nm = steer.mics.num_mics
    b = ac.BeamformerEig(freq_data=fd, steer=steer, n=d['n'], r_diag=d['r_diag'], r_diag_norm=d['norm'], precision=d['precision'])
    na = min(max(d['n'] + nm if d['n'] < 0 else d['n'], 0), nm - 1)
    ctx.equal(b.na, na, 'number of the eigenvalue')
    norm = 1 if not d['r_diag'] else d['norm'] or nm / (nm - 1)
    res = b.result[:]
    for i, f in enumerate(d['f']):
        w, v, size = eig(ctx, fd, c, i)
        h = bf.vectors(steer, f)
        ref = power(h, v[:, na : na + 1])[:, 0]
        if d['r_diag']:
            ref = ref - (np.abs(h) ** 2) @ (np.abs(v[:, na]) ** 2)
        ref = ref * w[na] * norm
        if d['r_diag']:
            ref = np.maximum(ref, 0)
        scale = (np.abs(h) ** 2).sum(1) * size * norm
        ctx.close(res[i] / scale, ref / scale, f'map at {f} Hz', rtol=0, atol=tolerance(steer, f) + (1e-6 if d['precision'] == 'float32' else 0))
    ctx.label(steer.steer_type, type(steer).__name__, 'n<0' if d['n'] < 0 else 'n>=0')
    ctx.interesting(steer.grid.size > 1 and nm > 1)


@subcheck(P, 'components', bf.scene(nf=(1, 2)), quick=150, rule='several grid points and microphones')
def components_(d, ctx):
    """The eigenvalue maps add up to the map of the full matrix."""
    steer, c, fd = bf.setup(d)
    full = ac.BeamformerBase(freq_data=fd, steer=steer, r_diag=False).result[:]
    b = ac.BeamformerEig(freq_data=fd, steer=steer, r_diag=False)
    total = 0
    for n in range(steer.mics.num_mics):
        b.n = n
        total = total + np.array(b.result[:])
    for i, f in enumerate(d['f']):
        scale = (np.abs(bf.vectors(steer, f)) ** 2).sum(1) * np.linalg.norm(c[i], 2)
        ctx.close(total[i] / scale, full[i] / scale, f'sum of the eigenvalue maps at {f} Hz', rtol=0, atol=2 * tolerance(steer, f))
    ctx.interesting(steer.grid.size > 1 and steer.mics.num_mics > 1)


@st.composite
def music(draw):
    d = draw(bf.scene(nf=(1, 2), full=True))
    nm = d['csm']['nm']
    return d | {'n': draw(st.integers(-nm + 1, nm - 1)), 'default': draw(st.integers(0, 4)) == 0}


@subcheck(P, 'music', music(), quick=250, rule='several grid points, several eigenvectors of the noise')
def music_(d, ctx):
    steer, c, fd = bf.setup(d)
    nm = steer.mics.num_mics
    b = ac.BeamformerMusic(freq_data=fd, steer=steer) if d['default'] else ac.BeamformerMusic(freq_data=fd, steer=steer, n=d['n'])
    n = 1 if d['default'] else d['n'] % nm
    res = b.result[:]
    for i, f in enumerate(d['f']):
        w, v, size = eig(ctx, fd, c, i)
        h = bf.vectors(steer, f)
        # the part of the focused signal in the noise subspace, weighted with the eigenvalues
        ref = (power(h, v[:, : nm - n]) * w[: nm - n]).sum(1)
        err = tolerance(steer, f) * (np.abs(h) ** 2).sum(1) * size
        if ref.min() < 20 * err.max():
            ctx.label('ill-conditioned')
            continue
        ctx.close(res[i].max(), 4e-10, f'maximum of the map at {f} Hz', rtol=1e-9)
        got, expect = 4e-10 / res[i], ref / ref.min()
        ctx.check((np.abs(got - expect) <= 1e-9 * expect + 2 * err / ref.min() + 2 * expect * err.max() / ref.min()).all(), f'map at {f} Hz: got {got}, expected {expect}')
    ctx.label(steer.steer_type, type(steer).__name__)
    ctx.interesting(steer.grid.size > 1 and n < nm - 1)


@st.composite
def orth(draw):
    d = draw(bf.scene(nf=(1, 2)))
    nm = d['csm']['nm']
    d |= {'r_diag': draw(st.booleans()), 'norm': draw(st.sampled_from([0.0, 2.5]))}
    if draw(st.booleans()):
        d['n'] = draw(st.integers(1, nm))
    else:
        d['eva_list'] = [e - nm if draw(st.booleans()) else e for e in draw(st.lists(st.integers(0, nm - 1), min_size=1, max_size=nm, unique=True))]
    d['twice'] = draw(st.booleans())
    return d


@subcheck(P, 'orthogonal', orth(), quick=300, rule='several grid points, several components')
def orth_(d, ctx):
    steer, c, fd = bf.setup(d)
    nm = steer.mics.num_mics
    kw = {'n': d['n']} if 'n' in d else {'eva_list': np.array(d['eva_list'])}
    lst = range(nm - 1, nm - 1 - d['n'], -1) if 'n' in d else [e % nm for e in d['eva_list']]
    b = ac.BeamformerOrth(freq_data=fd, steer=steer, r_diag=d['r_diag'], r_diag_norm=d['norm'], **kw)
    if d['twice']:
        b.result[0]
        b.result[[0, 0]]
    res = b.result[:]
    for i, f in enumerate(d['f']):
        w, v, size = eig(ctx, fd, c, i)
        h = bf.vectors(steer, f)
        scale = (np.abs(h) ** 2).sum(1)
        ctx.close(res[i].sum(), w[list(lst)].sum() / nm, f'sum over the map at {f} Hz', rtol=1e-9, atol=1e-9 * size)
        ref, low, sure = np.zeros(steer.grid.size), np.zeros(steer.grid.size), True
        for n in lst:
            m = power(h, v[:, n : n + 1])[:, 0]
            if d['r_diag']:
                m = m - (np.abs(h) ** 2) @ (np.abs(v[:, n]) ** 2)
            cand = np.flatnonzero(m + scale * tolerance(steer, f) >= (m - scale * tolerance(steer, f)).max())
            ref[cand] += w[n] / nm  # the most that can be at each point
            if len(cand) == 1:
                low[cand] += w[n] / nm
            else:
                sure = False
        atol = 1e-9 * size
        if sure:
            ctx.close(res[i], ref, f'map at {f} Hz', rtol=1e-9, atol=atol)
        else:
            ctx.check((res[i] <= ref + atol + 1e-9 * size).all() and (res[i] >= low - atol - 1e-9 * size).all(), f'component not at a maximum at {f} Hz: {res[i]} not between {low} and {ref}')
            ctx.label('several maxima')
    ctx.label(steer.steer_type, type(steer).__name__, 'r_diag' if d['r_diag'] else 'full')
    ctx.interesting(steer.grid.size > 1 and len(lst) > 1)


@st.composite
def gridless(draw):
    nm = draw(st.integers(2, 5))
    d = {'nm': nm, 'seed': draw(zoo.seeds), 'f': draw(bf.freqs(1, 2)), 'type': draw(st.sampled_from(['true level', 'true location', 'classic', 'inverse'])), 'r_diag': draw(st.booleans()), 'ref': draw(st.sampled_from([0.0, 1.0]))}
    d['csm'] = draw(bf.csm(len(d['f']), nm))
    d['bounds'] = [sorted(draw(st.lists(st.sampled_from(r), min_size=2, max_size=2, unique=True))) for r in ([-1.0, -0.3, 0.2, 0.9], [-0.8, 0.0, 0.5, 1.0], [0.01, 0.3, 0.5, 1.0])]
    if draw(st.booleans()):
        d['n'] = draw(st.integers(1, nm))
    else:
        d['eva_list'] = draw(st.lists(st.integers(-nm, nm - 1), min_size=1, max_size=nm, unique_by=lambda e: e % nm))
    d['points'] = draw(st.sampled_from([16, 32, 64]))
    d['order'] = draw(st.permutations(range(len(d['f']))))
    return d


@subcheck(P, 'gridless', gridless(), quick=120, rule="several components")
def gridless_(d, ctx):
    r = np.random.RandomState(d['seed'])
    mics = ac.MicGeom(pos_total=r.uniform(-0.5, 0.5, (3, d['nm'])) * [[1], [1], [0]])
    steer = ac.SteeringVector(mics=mics, steer_type=d['type'], grid=ac.ImportGrid(pos=np.array([[0.0, 0, 0.5]]).T))
    c = bf.make(d['csm'])
    fd = bf.import_csm(c, d['f'])
    kw = {'n': d['n']} if 'n' in d else {'eva_list': np.array(d['eva_list'])}
    nm = d['nm']
    lst = sorted(range(nm - d['n'], nm) if 'n' in d else [e % nm for e in d['eva_list']], reverse=True)
    b = ac.BeamformerGridlessOrth(freq_data=fd, steer=steer, r_diag=d['r_diag'], bounds=[tuple(x) for x in d['bounds']], shgo={'n': d['points']}, **kw)
    ne, nf = len(lst), len(d['f'])
    ctx.equal(b.size, ne * nf, 'number of positions')
    lo, hi = np.array(d['bounds']).T
    for i in d['order']:
        line = np.array(b.result[i])
        ctx.shape(line, (ne * nf,), 'result')
        own = slice(i * ne, (i + 1) * ne)
        w, v, size = eig(ctx, fd, c, i)
        ctx.close(line[own], w[lst] / nm, f'levels at {d["f"][i]} Hz', rtol=1e-9, atol=1e-9 * size)
        ctx.check(not line[: own.start].any() and not line[own.stop :].any(), 'levels at positions of other frequencies')
        pos = np.array(b.pos)
        ctx.shape(pos, (3, ne * nf), 'positions')
        p = pos[:, own]
        ctx.check(((p >= lo[:, None]) & (p <= hi[:, None])).all(), f'positions outside of the bounds: {p}')
        # not worse than any of the points a coarse search sees
        corner = np.array(np.meshgrid(*[np.linspace(l, h, 3) for l, h in zip(lo, hi)], indexing='ij')).reshape(3, -1)
        if d['points'] >= 32:
            for j, n in enumerate(lst):
                vals = []
                for q in (p[:, j : j + 1], corner):
                    s = ac.SteeringVector(mics=mics, steer_type=d['type'], grid=ac.ImportGrid(pos=q))
                    h = bf.vectors(s, d['f'][i])
                    m = power(h, v[:, n : n + 1])[:, 0]
                    if d['r_diag']:
                        m = m - (np.abs(h) ** 2) @ (np.abs(v[:, n]) ** 2)
                    vals.append(m)
                best = vals[1].max()
                ctx.label('found' if vals[0][0] >= best - 1e-6 * abs(best) else 'missed')
    ctx.interesting(ne > 1)


@st.composite
def gridless_source(draw):
    return {'nm': draw(st.integers(5, 9)), 'seed': draw(zoo.seeds), 'f': draw(fl(100, 500, 1)), 'type': draw(st.sampled_from(['true location', 'classic'])), 'r_diag': draw(st.booleans()),
            'src': [draw(fl(-0.4, 0.4, 2)), draw(fl(-0.4, 0.4, 2)), draw(fl(0.35, 0.65, 2))], 'noise': draw(st.sampled_from([0.0, 0.1])), 'level': draw(st.sampled_from([1.0, 1e-4, 50.0]))}


@subcheck(P, 'gridless_source', gridless_source(), quick=60, rule='a position was searched')
def gridless_source_(d, ctx):
    """At low frequencies there is one maximum only, and it is found."""
    r = np.random.RandomState(d['seed'])
    mics = ac.MicGeom(pos_total=r.uniform(-0.5, 0.5, (3, d['nm'])) * [[1], [1], [0]])
    src = np.array(d['src'])[:, None]
    at = lambda p: ac.SteeringVector(mics=mics, steer_type=d['type'], grid=ac.ImportGrid(pos=p))
    a = bf.transfer(at(src), d['f'])[0]
    nm = d['nm']
    power_ = np.linalg.norm(a) ** 2
    fd = bf.import_csm((d['level'] * (np.outer(a, a.conj()) + d['noise'] * power_ / nm * np.eye(nm)))[None], [d['f']])
    steer = at(np.array([[0.0, 0, 0.5]]).T)
    b = ac.BeamformerGridlessOrth(freq_data=fd, steer=steer, r_diag=d['r_diag'], bounds=[(-0.6, 0.6), (-0.6, 0.6), (0.3, 0.7)], n=1)
    res = np.array(b.result[0])
    ctx.close(res, [d['level'] * power_ * (1 + d['noise'] / nm) / nm], 'level', rtol=1e-9)
    v = np.array(fd.eve[0], complex)[:, -1:]

    def value(p):
        h = bf.vectors(at(p), d['f'])
        m = power(h, v)[:, 0]
        return (m - (np.abs(h) ** 2) @ (np.abs(v[:, 0]) ** 2) if d['r_diag'] else m)[0]

    pos = np.array(b.pos)
    ctx.check(value(pos) >= 0.97 * value(src), f'the map is {value(pos)} at the position found {pos.T} and {value(src)} at the source')
    if d['type'] == 'true location' and not d['r_diag']:
        ctx.check(value(pos) <= value(src) * (1 + 1e-5), 'true location: larger than at the source')
    ctx.interesting(True)

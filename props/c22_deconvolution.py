"""C22 deconvolution methods obey their constraints and their defining iteration or optimisation problem."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog, nnls
from sklearn.linear_model import LassoLars, LassoLarsIC, OrthogonalMatchingPursuitCV

import acoular as ac
from vlib import bf, zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C22'
warnings.simplefilter('ignore')


@st.composite
def scene(draw, nf=(1, 2), lo=2, hi=6, gmax=9, own=True, source=None, spread=False):
    """Microphones, grid, and matrices either random or from sources on grid points."""
    nm = draw(st.integers(lo, hi))
    ng = draw(st.integers(1, gmax))
    d = {'nm': nm, 'seed': draw(zoo.seeds), 'type': draw(st.sampled_from(['true level', 'true level', 'inverse', 'classic', 'true location'])), 'f': draw(bf.freqs(*nf)), 'own': own and draw(st.integers(0, 3)) == 0,
         'aperture': draw(st.sampled_from([0.3, 1.0])), 'ref': draw(st.sampled_from([0.0, 1.0])), 'r_diag': draw(st.booleans()), 'scale': draw(st.sampled_from([1.0, 1e-5, 30.0]))}
    d['grid'] = {'n': ng, 'seed': draw(zoo.seeds), 'size': draw(st.sampled_from([0.2, 0.5])), 'z': draw(st.sampled_from([0.3, 1.0]))}
    kind = source or draw(st.sampled_from(['sources', 'sources', 'random']))
    if kind == 'sources':
        q = [0.0] * ng
        for _ in range(draw(st.integers(1, min(3, ng)))):
            q[draw(st.integers(0, ng - 1))] = draw(st.sampled_from([1.0, 0.5, 0.1, 2.0]))
        d['q'] = q
        d['noise'] = draw(st.sampled_from([0, 0, 0.1]))
    else:
        d['rank'] = draw(st.integers(1, nm))
        d['noise'] = draw(st.sampled_from([0, 0.1]))
    return d


class Scene:
    def __init__(self, d):
        r = np.random.RandomState(d['seed'])
        self.mics = ac.MicGeom(pos_total=r.uniform(-0.5, 0.5, (3, d['nm'])) * d['aperture'] * [[1], [1], [0.1]])
        r = np.random.RandomState(d['grid']['seed'])
        pos = r.uniform(-0.5, 0.5, (3, d['grid']['n'])) * d['grid']['size'] + [[0], [0], [d['grid']['z']]]
        self.steer = (bf.OwnSteer if d['own'] else ac.SteeringVector)(mics=self.mics, grid=ac.ImportGrid(pos=pos), steer_type=d['type'], ref=d['ref'])
        self.d, self.f, self.nm, self.ng = d, d['f'], d['nm'], d['grid']['n']
        self.norm = 1.0 if not d['r_diag'] else self.nm / (self.nm - 1)
        c = []
        r = np.random.RandomState(d['seed'] + 1)
        for f in self.f:
            if 'q' in d:
                a = bf.transfer(self.steer, f)
                m = np.einsum('g,gi,gj->ij', d['q'], a, a.conj())
            else:
                x = r.standard_normal((self.nm, d['rank'])) + 1j * r.standard_normal((self.nm, d['rank']))
                m = x @ x.conj().T
            m = m + d['noise'] * np.trace(m).real / self.nm * np.eye(self.nm)
            c.append(d['scale'] * (m + m.conj().T) / 2)
        self.c = np.array(c)
        self.fd = bf.import_csm(self.c, self.f)

    def kw(self, **kw):
        return dict(freq_data=self.fd, steer=self.steer, r_diag=self.d['r_diag'], **kw)

    def map(self, c, f, clip=True):
        """Delay and sum with the vectors the library uses."""
        h = self.steer.steer_vector(f)
        cc = c * (1 - np.eye(self.nm)) if self.d['r_diag'] else c
        m = bf.quadratic(h, cc) * self.norm
        return np.maximum(m, 0) if clip and self.d['r_diag'] else m

    def psf(self, f):
        h, a = self.steer.steer_vector(f), self.steer.transfer(f)
        return np.abs(h.conj() @ a.T) ** 2

    def dirty(self):
        """The library's own map and point spread function, which C20 checks."""
        y = np.array(ac.BeamformerBase(**self.kw()).result[:])
        p = ac.PointSpreadFunction(steer=self.steer, calcmode='full')
        for i, f in enumerate(self.f):
            p.freq = f
            yield i, f, y[i].copy(), np.array(p.psf)

    def labels(self, ctx):
        ctx.label(self.d['type'], 'own steering' if self.d['own'] else 'plain', 'sources' if 'q' in self.d else 'random', 'r_diag' if self.d['r_diag'] else 'full')


def valid(ctx, x, what='result', slack=0):
    ctx.check(np.isfinite(x).all(), f'{what} not finite: {x}')
    ctx.check((x >= -slack * np.abs(x).max()).all(), f'{what} negative: {x}')


# ------------------------------------------------------------------------------ DAMAS


@st.composite
def damas(draw):
    return draw(scene()) | {'n_iter': draw(st.sampled_from([0, 1, 2, 5, 20, 60])), 'damp': draw(st.sampled_from([1.0, 1.0, 0.5, 0.9])), 'mode': draw(st.sampled_from(['full', 'single', 'block'])), 'psf_precision': draw(st.sampled_from(['float64', 'float64', 'float32'])), 'precision': draw(st.sampled_from(['float64', 'float64', 'float32']))}


@subcheck(P, 'damas', damas(), quick=250, rule='several grid points, more than one iteration')
def damas_(d, ctx):
    s = Scene(d)
    b = ac.BeamformerDamas(**s.kw(n_iter=d['n_iter'], damp=d['damp'], calcmode=d['mode'], psf_precision=d['psf_precision'], precision=d['precision']))
    res = np.array(b.result[:], float)
    valid(ctx, res)
    for i, f, y, a in s.dirty():
        a = a.astype(d['psf_precision']).astype(float)
        x = y.copy()
        for _ in range(d['n_iter']):
            for n in range(s.ng):
                new = (1 - d['damp']) * x[n] + d['damp'] * (y[n] - (a[n] @ x - a[n, n] * x[n]))
                x[n] = max(new, 0)
        if not np.isfinite(x).all() or x.max() > 100 * max(y.max(), 1e-300):
            ctx.label('diverged')
            continue
        tol = 1e-6 if d['precision'] == d['psf_precision'] == 'float64' else 1e-3
        ctx.close(res[i], x, f'result at {f} Hz', rtol=0, atol=tol * max(y.max(), 1e-300))
    s.labels(ctx)
    ctx.interesting(s.ng > 1 and d['n_iter'] > 1)


@st.composite
def exact(draw):
    """Sources far enough apart for the point spread function to be diagonally dominant."""
    d = draw(scene(lo=5, hi=9, gmax=5, source='sources'))
    d |= {'type': draw(st.sampled_from(['true level', 'inverse'])), 'r_diag': False, 'noise': 0, 'f': [draw(fl(1500, 8000, 1))], 'aperture': 1.0, 'method': draw(st.sampled_from(['damas', 'nnls', 'damas']))}
    d['grid']['size'] = 0.8
    return d


@subcheck(P, 'damas_sources', exact(), quick=200, rule='diagonally dominant point spread function, several grid points')
def exact_(d, ctx):
    """The strengths of sources at grid points are found where the model guarantees it."""
    s = Scene(d)
    a = s.psf(s.f[0])
    rho = (a - np.diag(np.diag(a))).sum(1).max()
    if rho > 0.8:
        ctx.label('not dominant')
        return
    q = d['scale'] * np.array(d['q'])
    b = ac.BeamformerDamas(**s.kw(n_iter=150)) if d['method'] == 'damas' else ac.BeamformerDamasPlus(**s.kw(method='NNLS'))
    ctx.close(b.result[0], q, 'strengths of the sources', rtol=0, atol=q.max() * 1e-4)
    ctx.interesting(s.ng > 1)


def nonneg_kkt(a, y, x, alpha=0.0, tol=1e-6):
    """Why x >= 0 does not minimise |y - a x|^2 / 2 / n + alpha sum(x), '' if it does."""
    r = y - a @ x
    g = a.T @ r / len(y)
    size = np.abs(a).T @ np.abs(y) / len(y)
    bound = tol * size.max() + 1e-300
    act = x > 1e-9 * x.max() if x.max() > 0 else x > 0
    if (g > alpha + bound).any() or (np.abs(g - alpha)[act] > bound).any():
        return f'not optimal, gradient {g}, weight {alpha}, accuracy {bound}, result {x}'
    return ''


def centred(a, y):
    """The system with an additional constant, which the models of scikit-learn have."""
    return a - a.mean(0), y - y.mean()


def any_optimal(ctx, what, systems, x, alpha=0.0, tol=1e-4):
    bad = [nonneg_kkt(a, y, x, alpha, tol) for a, y in systems]
    if all(bad):
        # the solver of scipy is not exact in all cases
        for a, y in systems:
            ref = nnls(a, y)[0]
            if np.abs(a @ (x - ref)).max() <= tol * np.abs(y).max():
                ctx.label('as the solver')
                return
    ctx.check(not all(bad), f'{what}: {bad[:1]}')


def weight(d, a, y):
    """Lasso weight relative to the one that suppresses everything."""
    a, y = centred(a / np.linalg.norm(a, axis=0), y)
    return min(1.0, d['alpha'] * np.abs(a.T @ y).max() / len(y))


def sk(method, alpha, n_iter, a, y, unit):
    """What scikit-learn makes of the equations with unit columns."""
    model = {'LassoLars': lambda: LassoLars(alpha=alpha * unit, max_iter=n_iter, positive=True), 'LassoLarsBIC': lambda: LassoLarsIC(criterion='bic', max_iter=n_iter, positive=True), 'OMPCV': OrthogonalMatchingPursuitCV}[method]()
    norms = np.linalg.norm(a, axis=0)
    model.fit(a / norms, y * unit)
    return model.coef_ / norms / unit


def same_quality(ctx, what, got, ref, a, y, alpha=0.0):
    """Results may differ where the problem is degenerate, but not in what they achieve."""
    ac_, yc = centred(a, y)
    norms = np.linalg.norm(a, axis=0)
    cost = lambda z: ((yc - ac_ @ z) ** 2).sum() / 2 / len(y) + alpha * np.abs(z * norms).sum()
    size = (y**2).sum() / 2 / len(y)
    ctx.check(abs(cost(got) - cost(ref)) <= 1e-5 * size + 1e-300, f'{what}: cost {cost(got)}, expected {cost(ref)}, of {size}; {got}, expected {ref}')
    if np.linalg.cond(ac_) < 100:
        ctx.label('well-conditioned')
        ctx.close(got, ref, what, rtol=0, atol=1e-2 * np.abs(ref).max() + 1e-300)


def calc(ctx, b):
    try:
        return np.array(b.result[:], float)
    except ValueError as e:
        # the cross validation of scikit-learn does not accept every system of equations
        if b.method == 'OMPCV' and 'argmin of an empty sequence' in str(e):
            ctx.discard()
        raise


@st.composite
def damas_plus(draw):
    return draw(scene()) | {'method': draw(st.sampled_from(['NNLS', 'LP', 'LassoLars', 'OMPCV'])), 'alpha': draw(st.sampled_from([0.0, 0.02, 0.1, 0.5, 1.2])), 'unit': draw(st.sampled_from([1e9, 1e9, 1.0, 1e5]))}


@subcheck(P, 'damas_plus', damas_plus(), quick=250, rule='several grid points')
def damas_plus_(d, ctx):
    s = Scene(d)
    if d['method'] == 'OMPCV' and (s.ng < 5 or d['r_diag']):
        ctx.discard()
    alpha = max(weight(d, a, y) for _, _, y, a in s.dirty()) if d['method'] == 'LassoLars' else 0.5
    b = ac.BeamformerDamasPlus(**s.kw(method=d['method'], alpha=alpha, unit_mult=d['unit']))
    res = calc(ctx, b)
    if d['method'] == 'OMPCV':
        ctx.check(np.isfinite(res).all(), 'result not finite')
    elif d['method'] == 'LP':
        ctx.check((res >= -1e-5 * np.abs(res).max() - 1e-6 / d['unit']).all(), f'LP: {res}')
    else:
        valid(ctx, res, d['method'], 1e-9 if d['method'] == 'LassoLars' else 0)
    for i, f, y, a in s.dirty():
        x = res[i]
        if d['method'] == 'NNLS':
            any_optimal(ctx, 'NNLS', [(a, y)], x)
        elif d['method'] == 'LP':
            small = 1e-6 * y.max() + 1e-6 / d['unit']  # accuracy of the solver
            ctx.check((a @ x <= y + small).all(), f'LP: constraint not met, {a @ x}, {y}')
            # strong duality
            dual = linprog(c=y / max(y.max(), 1e-300), A_ub=-a.T, b_ub=-a.sum(1))
            if dual.status == 0:
                ctx.close(a.sum(1) @ x, dual.fun * y.max(), 'LP: objective', rtol=1e-4, atol=10 * s.ng * small)
        elif s.ng > 1:
            same_quality(ctx, d['method'], x, sk(d['method'], alpha, 500, a, y, d['unit']), a, y, alpha if d['method'] == 'LassoLars' else 0)
    s.labels(ctx)
    ctx.label(d['method'])
    ctx.interesting(s.ng > 1)


# ------------------------------------------------------------------------------ CLEAN


@st.composite
def clean(draw):
    return draw(scene()) | {'n_iter': draw(st.sampled_from([1, 2, 10, 100])), 'damp': draw(st.sampled_from([0.6, 1.0, 0.2])), 'mode': draw(st.sampled_from(['full', 'single', 'block'])), 'psf_precision': draw(st.sampled_from(['float64', 'float64', 'float32']))}


@subcheck(P, 'clean', clean(), quick=250, rule='several grid points, more than one iteration')
def clean_(d, ctx):
    s = Scene(d)
    b = ac.BeamformerClean(**s.kw(n_iter=d['n_iter'], damp=d['damp'], calcmode=d['mode'], psf_precision=d['psf_precision']))
    res = np.array(b.result[:], float)
    valid(ctx, res)
    done = 0
    for i, f, y, a in s.dirty():
        a = a.astype(d['psf_precision']).astype(float)
        x, dirty, sure = np.zeros(s.ng), y.copy(), True
        tol = (1e-9 if d['psf_precision'] == 'float64' else 1e-5) * y.max()
        for _ in range(d['n_iter']):
            before = np.abs(dirty).sum()
            n = dirty.argmax()
            sure &= (dirty >= dirty[n] - tol).sum() == 1
            amp = d['damp'] * dirty[n]
            x[n] += amp
            dirty = dirty - a[:, n] * amp
            after, top = np.abs(dirty).sum(), dirty.max()
            done += 1
            sure &= abs(before - after) > tol and abs(top) > tol
            if after >= before or top <= 0:
                break
        if not sure:
            ctx.label('undecided')
            continue
        ctx.close(res[i], x, f'result at {f} Hz', rtol=0, atol=max(1e-6 * y.max(), 100 * tol, 1e-300))
    s.labels(ctx)
    ctx.interesting(s.ng > 1 and done > 2)


@st.composite
def cleansc(draw):
    return draw(scene(lo=3)) | {'n_iter': draw(st.sampled_from([0, 1, 3, 8])), 'damp': draw(st.sampled_from([0.6, 1.0, 0.3])), 'stopn': draw(st.sampled_from([3, 3, 1, 6]))}


@subcheck(P, 'clean_sc', cleansc(), quick=250, rule='several grid points, more than one iteration')
def cleansc_(d, ctx):
    s = Scene(d)
    b = ac.BeamformerCleansc(**s.kw(n_iter=d['n_iter'], damp=d['damp'], stopn=d['stopn']))
    res = np.array(b.result[:], float)
    valid(ctx, res)
    done = 0
    for i, f in enumerate(s.f):
        c = s.c[i].copy()
        w = s.steer.steer_vector(f) * np.sqrt(s.norm)
        off = 1 - np.eye(s.nm)
        size = np.linalg.norm(c, 2) * (np.abs(w) ** 2).sum(1).max()
        tol = (1e-7 + 20 * s.nm * bf.phase_tol(s.steer, f)) * size
        # contributions of coherent components are subtracted, with the map of the remaining ones kept in step
        h = bf.quadratic(w, c * off if d['r_diag'] else c)
        x, powers, sure = np.zeros(s.ng), [], True
        for j in range(d['n_iter'] or 2 * s.nm):
            n = h.argmax()
            top = h[n]
            powers.append(top)
            sure &= (h >= top - 10 * tol).sum() == 1 and abs(top) > 1000 * tol
            if top <= 0:
                break
            x[n] += d['damp'] * top
            if j > d['stopn']:
                sure &= abs(top - powers[j - d['stopn']]) > 10 * tol
                if top > powers[j - d['stopn']]:
                    ctx.label('stopped')
                    break
                if top > powers[j - 1]:
                    ctx.label('increase')
            v = w[n]
            g = v.copy()
            if not d['r_diag']:
                g = c @ v / top
            else:
                for _ in range(20):
                    g = ((c * off) @ v / top + np.abs(g) ** 2 * v) / np.sqrt(1 + (np.abs(v) ** 2) @ (np.abs(g) ** 2))
            comp = top * np.outer(g, g.conj())
            part = bf.quadratic(w, comp * off if d['r_diag'] else comp)
            h = h - d['damp'] * part
            c = c - d['damp'] * comp
            done += 1
        if not sure:
            ctx.label('undecided')
            continue
        ctx.close(res[i], x, f'result at {f} Hz', rtol=1e-4, atol=1e-3 * x.max() + 100 * tol)
    s.labels(ctx)
    ctx.interesting(s.ng > 1 and done > 2)


@st.composite
def clean_one(draw):
    d = draw(scene(lo=3, source='sources', nf=(1, 1)))
    q = [0.0] * d['grid']['n']
    q[draw(st.integers(0, len(q) - 1))] = draw(st.sampled_from([1.0, 3.0]))
    d |= {'q': q, 'noise': 0, 'damp': draw(st.sampled_from([0.6, 1.0, 0.3])), 'n_iter': draw(st.sampled_from([1, 3, 10]))}
    return d


@subcheck(P, 'one_source', clean_one(), quick=150, rule='several grid points, the maximum of the map is at the source')
def clean_one_(d, ctx):
    """A single source at a grid point is all that is left in the map of CLEAN and CLEAN-SC when the map has its maximum there."""
    s = Scene(d)
    q = d['scale'] * np.array(d['q'])
    n = q.argmax()
    y = s.map(s.c[0], s.f[0])
    if (np.delete(y, n) > 0.99 * y[n]).any():
        ctx.label('maximum elsewhere')
        return
    if y[n] < 0.1 * q[n]:
        ctx.label('level too low')
        return
    expect = np.zeros(s.ng)
    expect[n] = y[n] * (1 - (1 - d['damp']) ** d['n_iter'])
    got = ac.BeamformerCleansc(**s.kw(n_iter=d['n_iter'], damp=d['damp'], stopn=100)).result[0]
    # the coherent part is found by a fixed number of steps of an iteration that converges slowly for few microphones
    ctx.close(got, expect, 'CLEAN-SC', rtol=0, atol=(1e-2 * q.max() if s.nm > 6 else 0.1 * y[n]))
    if not d['r_diag'] and d['type'] in ('true level', 'inverse'):
        got = ac.BeamformerClean(**s.kw(n_iter=d['n_iter'], damp=d['damp'])).result[0]
        ctx.close(got, expect, 'CLEAN', rtol=0, atol=1e-3 * q.max())
    ctx.interesting(s.ng > 1)


# ------------------------------------------------------------------------------ inverse methods


def system(s, c, f):
    """Real linear equations for the lower triangle of the matrix."""
    a = s.steer.transfer(f)
    il, jl = np.tril_indices(s.nm, -1)
    off = (a[:, il] * a[:, jl].conj()).T
    rows, rhs = [off.real, off.imag], [c[il, jl].real, c[il, jl].imag]
    if not s.d['r_diag']:
        rows.append((np.abs(a) ** 2).T)
        rhs.append(np.diag(c).real)
    return np.vstack(rows), np.hstack(rhs)


@st.composite
def cmf(draw):
    return draw(scene(lo=3)) | {'method': draw(st.sampled_from(['NNLS', 'LassoLars', 'LassoLarsBIC', 'OMPCV', 'fmin_l_bfgs_b', 'FISTA', 'Split_Bregman'])), 'alpha': draw(st.sampled_from([0.0, 0.02, 0.1, 0.5, 1.2])), 'unit': draw(st.sampled_from([1e9, 1e9, 1e5]))}


@subcheck(P, 'cmf', cmf(), quick=250, rule='several grid points')
def cmf_(d, ctx):
    s = Scene(d)
    m = d['method']
    alpha = max(weight(d, *system(s, s.c[i], f)) for i, f in enumerate(s.f)) if m == 'LassoLars' else min(d['alpha'], 1.0)
    if m in ('OMPCV', 'FISTA', 'Split_Bregman') and s.ng < 2 or m == 'LassoLarsBIC' and s.nm * (s.nm - d['r_diag']) < s.ng + 2:
        ctx.discard()
    kw = {'n_iter': 100} if m in ('FISTA', 'Split_Bregman') else {}
    b = ac.BeamformerCMF(**s.kw(method=m, alpha=alpha, unit_mult=d['unit'], **kw))
    res = calc(ctx, b)
    ctx.check(np.isfinite(res).all(), f'{m}: result not finite')
    if m in ('NNLS', 'LassoLars', 'LassoLarsBIC', 'fmin_l_bfgs_b'):
        valid(ctx, res, m, 1e-9 if 'Lars' in m else 0)
    for i, f in enumerate(s.f):
        a, r = system(s, s.c[i], f)
        x = res[i]
        norms = np.linalg.norm(a, axis=0)
        an = a / norms
        # the same equations for the other triangle have other signs
        sign = np.ones(len(r))
        sign[s.nm * (s.nm - 1) // 2 : s.nm * (s.nm - 1)] = -1
        easy = an.shape[0] >= an.shape[1] and np.linalg.cond(an) < 30
        systems = [centred(sign[:, None] * an, sign * r), centred(an, r), (an, r)]
        cost = lambda z: ((r - a @ z) ** 2).sum()
        costc = lambda z: ((systems[0][1] - systems[0][0] @ (z * norms)) ** 2).sum()
        if m == 'NNLS':
            any_optimal(ctx, m, systems, x * norms)
        elif m == 'LassoLars' or m == 'LassoLarsBIC' and easy:
            same_quality(ctx, m, x, sk(m, alpha, 500, sign[:, None] * a, sign * r, d['unit']), sign[:, None] * a, sign * r, alpha if m == 'LassoLars' else 0)
        elif m == 'fmin_l_bfgs_b':
            best = nnls(a, r)[1] ** 2
            if d['unit'] * d['scale'] < 100:  # the accuracy of the solver is absolute
                best, easy = (r**2).sum(), False
            ctx.check(cost(x) <= best + (0.03 if easy else 0.2) * (r**2).sum(), f'{m}: remaining {cost(x)} of {(r**2).sum()}, smallest possible {best}')
        else:
            ctx.check(min(cost(x), costc(x)) <= (r**2).sum() * (1 + 1e-9), f'{m}: remaining {cost(x)} of {(r**2).sum()}')
        easy &= m not in ('FISTA', 'Split_Bregman') or np.linalg.cond(an) < 5
        if easy and 'q' in d and not d['noise'] and not alpha and m not in ('LassoLarsBIC', 'OMPCV'):
            ctx.label('sources recovered')
            q = d['scale'] * np.array(d['q'])
            ctx.close(x, q, f'{m}: strengths of the sources', rtol=0, atol=0.05 * q.max())
    s.labels(ctx)
    ctx.label(m)
    ctx.interesting(s.ng > 1)


@st.composite
def sodix(draw):
    d = draw(scene(lo=2, hi=4, gmax=4, nf=(2, 3))) | {'n_iter': draw(st.sampled_from([1, 5, 200])), 'reads': draw(st.sampled_from(['all', 'last', 'each', 'back']))}
    return d


@subcheck(P, 'sodix', sodix(), quick=120, rule='several grid points')
def sodix_(d, ctx):
    """Directivities are positive, and explain the matrix better than the starting values."""
    s = Scene(d)
    b = ac.BeamformerSODIX(**s.kw(n_iter=d['n_iter']))
    n = len(s.f)
    if d['reads'] == 'last':
        b.result[n - 1]
    elif d['reads'] == 'each':
        for i in range(n):
            b.result[i]
    elif d['reads'] == 'back':
        for i in reversed(range(n)):
            b.result[i]
    res = np.array(b.result[:])
    ctx.shape(res, (n, s.ng * s.nm), 'result')
    valid(ctx, res)
    for i in range(1, n):  # the first frequency is a known finding
        h = s.steer.transfer(s.f[i])

        def cost(x):
            p = h * np.sqrt(x).reshape(s.ng, s.nm)
            return (np.abs(s.c[i] - p.T @ p.conj()) ** 2).sum()

        start = np.ones(s.ng * s.nm)
        if i > 1:
            start = res[i - 1] * np.trace(s.c[i]).real / np.trace(s.c[i - 1]).real
        ctx.check(cost(res[i]) <= cost(start) * (1 + 1e-6) + 1e-12 * np.linalg.norm(s.c[i]) ** 2, f'{cost(res[i])} remains at {s.f[i]} Hz, starting from {cost(start)}')
        if d['n_iter'] == 200 and 'q' in d and not d['noise']:
            c = cost(res[i]) / np.linalg.norm(s.c[i]) ** 2
            ctx.label('explained' if c < 1e-3 else 'not explained')
            if sum(q > 0 for q in d['q']) == 1 and s.ng == 1:
                ctx.check(c < 1e-3, f'part {c} of the matrix not explained')
    ctx.close(np.array(b.synthetic(s.f[1], 0)), res[1].reshape(s.ng, s.nm), 'shape of the directivities', rtol=0)
    ctx.interesting(s.ng > 1)


@subcheck(P, 'sodix_first_frequency', scene(lo=2, hi=4, gmax=4, nf=(1, 2)), quick=0)
def sodix_first_(d, ctx):
    """Witness of a known finding: the first frequency is never calculated."""
    s = Scene(d)
    res = np.array(ac.BeamformerSODIX(**s.kw()).result[:])
    ctx.check(res[0].any(), 'no directivities at the first frequency')


@st.composite
def gib(draw):
    d = draw(scene(lo=3, hi=6, gmax=9)) | {'method': draw(st.sampled_from(['Suzuki', 'Suzuki', 'InverseIRLS', 'InverseIRLS', 'NNLS', 'LassoLars'])), 'n_iter': draw(st.sampled_from([1, 1, 2, 4])), 'beta': draw(st.sampled_from([0.9, 0.5, 1.0])),
                                           'eps': draw(st.sampled_from([0.05, 0.5, 0.2])), 'pnorm': draw(st.sampled_from([1.0, 1.0, 1.5, 0.5])), 'm': draw(st.sampled_from([0, 0, 1])), 'float_eps': False}
    d['n'] = draw(st.integers(1, d['nm'] - 1 - d['m']))
    return d


def suzuki(d, a, e, exact):
    """Iteratively reweighted and regularised solution of a q = e on a shrinking set of points."""
    nm, ng = a.shape
    pts, w, q = np.arange(ng), np.ones(ng), np.zeros(ng, complex)
    for it in range(d['n_iter']):
        b = a[:, pts]
        m = (b * w) @ b.conj().T if nm <= len(pts) else b.conj().T @ b
        eps = np.abs(np.linalg.eigvals(m)).max() * d['eps']
        if not exact:
            eps = np.floor(eps)
        if np.linalg.cond(m + eps * (np.eye(nm) if nm <= len(pts) else np.diag(1 / w))) > 1e8:
            return np.full(ng, np.nan), pts
        if nm <= len(pts):
            x = w * (b.conj().T @ np.linalg.solve(m + eps * np.eye(nm), e))
        else:
            x = np.linalg.solve(m + eps * np.diag(1 / w), b.conj().T @ e)
        q[pts] = x
        if d['beta'] < 1 and it > 1:
            keep = max(int(round(ng * d['beta'] ** (it + 1))), 1)
            pts = np.sort(pts[np.argsort(-np.abs(q[pts]), kind='stable')[:keep]])
            w = np.abs(q[pts]) ** (2 - d['pnorm'])
        else:
            w = np.abs(q) ** (2 - d['pnorm'])
    out = np.zeros(ng)
    out[pts] = np.abs(q[pts]) ** 2
    return out, pts


def irls(d, a, e):
    w = np.ones(a.shape[1])
    for _ in range(d['n_iter']):
        b = a / w**2
        q = b.conj().T @ np.linalg.solve(b @ a.conj().T, e)
        w = np.abs(q) ** ((2 - d['pnorm']) / 2)
        w = w / w.sum()
    return np.abs(q) ** 2


def reference(d, s, i, exact=False, change=0.0):
    a = s.steer.transfer(s.f[i]).T
    w, v = np.linalg.eigh(s.c[i])
    w, v = w[::-1], v[:, ::-1]
    v = v * (1 + change * np.cos(np.arange(v.size).reshape(v.shape)))
    total = np.zeros(s.ng)
    pts = np.arange(s.ng)
    for k in range(d['m'], d['m'] + d['n']):
        if w[k] < w[0] * 1e-12:
            continue
        e = np.sqrt(w[k]) * v[:, k]
        if d['method'] == 'Suzuki':
            x, pts = suzuki(d, a, e, exact)
        elif d['method'] == 'InverseIRLS':
            x = irls(d, a, e)
        total += x
    return total, w, pts


@subcheck(P, 'generalised_inverse', gib(), quick=200, rule='several grid points, an underdetermined or overdetermined problem of good condition')
def gib_(d, ctx):
    s = Scene(d)
    kw = {'alpha': 0.1} if d['method'] == 'LassoLars' else {}
    if d['method'] in ('NNLS', 'LassoLars') or s.ng < 1:
        kw['n_iter'] = 500
    b = ac.BeamformerGIB(freq_data=s.fd, steer=s.steer, method=d['method'], **({'n_iter': d['n_iter'], 'beta': d['beta'], 'eps_perc': d['eps'], 'pnorm': d['pnorm'], 'm': d['m'], 'n': d['n']} | kw))
    for i, f in enumerate(s.f):
        w = np.linalg.eigvalsh(s.c[i])[::-1]
        a = s.steer.transfer(f).T
        if not w[d['m']] > w[0] * 1e-10 or np.linalg.cond(a) > 100 or (np.abs(w / w[0] - 1e-12) < 1e-11).any():
            ctx.label('ill-conditioned')
            continue
        if (-np.diff(w)[max(d['m'] - 1, 0) : d['m'] + d['n']] < 1e-6 * w[0]).any():
            ctx.label('eigenvectors not unique')
            continue
        if d['method'] == 'InverseIRLS' and s.nm > s.ng:
            ctx.label('fails (known finding)')
            continue
        if d['method'] == 'Suzuki' and d['n_iter'] > 3 and d['n'] > 1:
            ctx.label('point sets of several eigenvectors')
            continue
        res = np.array(b.result[i])
        valid(ctx, res)
        if d['method'] in ('Suzuki', 'InverseIRLS'):
            if d['method'] == 'InverseIRLS' and d['n_iter'] > 1:
                # repeated reweighting squeezes points to zero; only the single step has a simple answer
                ctx.label('reweighted')
                continue
            refs = [reference(d, s, i, exact)[0] for exact in (True, False)]
            size = w[d['m']] / (np.abs(a) ** 2).sum(0).max()
            other = [reference(d, s, i, exact, 1e-9)[0] for exact in (True, False)]
            if not all(np.isfinite(r).all() and np.abs(r - o).max() <= 1e-6 * r.max() for r, o in zip(refs, other)):
                ctx.label('sensitive')
                continue
            bad = [np.abs(res - r).max() > 1e-5 * r.max() + 1e-9 * size for r in refs]
            ctx.check(not all(bad), f'{d["method"]}: got {res}, expected {refs[0]}')
            if d['method'] == 'InverseIRLS' and d['n_iter'] == 1:
                v = np.linalg.eigh(s.c[i])[1][:, ::-1]
                q = np.linalg.pinv(a) @ (v * np.sqrt(np.maximum(w, 0)))[:, d['m'] : d['m'] + d['n']]
                ctx.close(res, (np.abs(q) ** 2).sum(1), 'pseudo-inverse', rtol=0, atol=1e-5 * res.max() + 1e-9 * size)
        ctx.label(d['method'])
    ctx.interesting(s.ng > 1)


@subcheck(P, 'gib_overdetermined', gib(), quick=0)
def gib_over_(d, ctx):
    """Witness of a known finding: fewer grid points than microphones."""
    s = Scene(d)
    a = s.steer.transfer(s.f[0]).T
    w, v = np.linalg.eigh(s.c[0])
    e = (v * np.sqrt(np.maximum(w, 0)))[:, ::-1][:, : d['n']]
    res = ac.BeamformerGIB(freq_data=s.fd, steer=s.steer, method='InverseIRLS', n_iter=1, n=d['n']).result[0]
    ctx.close(res, (np.abs(np.linalg.pinv(a) @ e) ** 2).sum(1), 'least squares solution', rtol=1e-5)


@subcheck(P, 'gib_regularisation', gib(), quick=0)
def gib_reg_(d, ctx):
    """Witness of a known finding: the regularisation is rounded to an integer."""
    s = Scene(d)
    res = ac.BeamformerGIB(freq_data=s.fd, steer=s.steer, method='Suzuki', n_iter=1, n=1, eps_perc=d['eps']).result[0]
    ctx.close(res, reference(d | {'method': 'Suzuki', 'n_iter': 1, 'n': 1, 'm': 0}, s, 0, True)[0], 'regularised solution', rtol=1e-4)

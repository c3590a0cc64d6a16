"""C18 arrays and grids enumerate their positions consistently."""

import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import pdist

import acoular as ac
from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C18'


# ------------------------------------------------------------------------------------ microphones
@st.composite
def arrays(draw):
    n = draw(st.integers(1, 12))
    pos = [[draw(fl(-2, 2, 2)) for _ in range(n)] for _ in range(3)]
    inv = draw(st.lists(st.integers(0, n + 2), max_size=n - 1 if n > 1 else 0, unique=True))
    return {'pos': pos, 'inv': inv, 'later': draw(st.booleans())}


@subcheck(P, 'microphones', arrays(), quick=600, rule='some invalid channels')
def microphones(d, ctx):
    pos = np.array(d['pos'])
    n = pos.shape[1]
    keep = [i for i in range(n) if i not in d['inv']]
    if d['later']:
        m = ac.MicGeom(pos_total=pos)
        m.num_mics, m.center, m.aperture, m.digest  # noqa: B018
        m.invalid_channels = d['inv']
    else:
        m = ac.MicGeom(pos_total=pos, invalid_channels=d['inv'])
    valid = pos[:, keep]
    ctx.same(m.pos, valid, 'MicGeom.pos')
    ctx.same(m.pos_total, pos, 'MicGeom.pos_total')
    ctx.equal(m.num_mics, len(keep), 'MicGeom.num_mics')
    if valid.any():
        ctx.close(m.center, valid.mean(1), 'MicGeom.center', rtol=1e-12, scale=4)
        ctx.close(np.array(m.aperture), np.array(pdist(valid.T).max() if len(keep) > 1 else 0.0), 'MicGeom.aperture', rtol=1e-12, scale=4)
    ctx.interesting(len(keep) < n)


# ------------------------------------------------------------------------------------ regular grids
def nsteps(lo, hi, inc):
    """Admissible numbers of steps along an axis (two if the extent is a half-integer multiple)."""
    inc = abs(inc)
    if inc == 0:
        return {1}
    q = abs(hi - lo) / inc
    if abs(q - np.floor(q) - 0.5) < 1e-6:
        return {int(np.floor(q)) + 1, int(np.floor(q)) + 2}
    return {round(q) + 1}


@st.composite
def axis(draw, maxn=9):
    inc = draw(st.one_of(st.sampled_from([0.1, 0.25, 0.5, 0.3, 1.0]), fl(0.05, 1, 2)))
    lo = draw(fl(-2, 2, 2))
    if draw(st.booleans()):
        ext = (draw(st.integers(0, maxn))) * inc
    else:
        ext = draw(fl(0, maxn, 2)) * inc
    return lo, round(lo + ext, 6), inc


@st.composite
def rect(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    ax = [draw(axis(9 if dim == 2 else 4)) for _ in range(dim)]
    vec = dim == 3 and draw(st.booleans())
    if not vec:
        inc = ax[0][2]
        ax = [(a, a + min(round((b - a) / i, 4), 9) * inc if dim == 2 else a + min(round((b - a) / i, 4), 4) * inc, inc) for a, b, i in ax]
    a = {}
    for (lo, hi, _), n in zip(ax, 'xyz'):
        a[n + '_min'], a[n + '_max'] = lo, hi
    if dim == 2:
        a['z'] = draw(fl(-1, 3, 2))
        a['increment'] = ax[0][2] * draw(st.sampled_from([1, 1, 1, -1]))
    else:
        a['increment'] = {'lit': [v[2] for v in ax]} if vec else ax[0][2]
    if draw(st.integers(0, 19)) == 0:
        if isinstance(a['increment'], dict):
            a['increment']['lit'][draw(st.integers(0, 2))] = 0.0
        else:
            a['increment'] = 0.0
    q = [[draw(fl(0, 1)) for _ in range(dim)] for _ in range(5)]
    return {'spec': S('RectGrid' if dim == 2 else 'RectGrid3D', **a), 'q': q, 'out': draw(st.tuples(st.integers(0, dim - 1), st.booleans())), 'r': draw(fl(0, 2)), 'corners': draw(st.integers(3, 5))}


@subcheck(P, 'rectgrid', rect(), quick=1200, shards=2, rule='more than one point along every axis')
def rectgrid(d, ctx):
    spec = d['spec']
    k, a = spec['k'], spec['a']
    dim = 2 if k == 'RectGrid' else 3
    g = zoo.build(spec)
    inc = a['increment']
    inc = [inc] * dim if not isinstance(inc, dict) else inc['lit']
    lo = [a[n + '_min'] for n in 'xyz'[:dim]]
    hi = [a[n + '_max'] for n in 'xyz'[:dim]]
    steps = [g.nxsteps, g.nysteps] + ([g.nzsteps] if dim == 3 else [])
    for i in range(dim):
        ctx.check(steps[i] in nsteps(lo[i], hi[i], inc[i]), lambda i=i: f'{k}: {steps[i]} steps along axis {i} from {lo[i]} to {hi[i]} with increment {inc[i]}')
    ctx.equal(tuple(g.shape), tuple(steps), f'{k}.shape')
    n = int(np.prod(steps))
    ctx.equal(g.size, n, f'{k}.size')
    ax = [np.linspace(lo[i], hi[i], steps[i]) for i in range(dim)]
    want = np.array(np.meshgrid(*ax, indexing='ij')).reshape(dim, n)
    pos = g.pos
    ctx.shape(pos, (3, n), f'{k}.pos')
    ctx.close(pos[:dim], want, f'{k}.pos', rtol=1e-9, scale=10)
    if dim == 2:
        ctx.close(pos[2], np.full(n, a['z']), f'{k}.pos, z', rtol=1e-12, scale=10)
    ctx.equal(tuple(g.extend()), (lo[0], hi[0], lo[1], hi[1]), f'{k}.extend()')
    if 0 in inc:  # a single point along this axis; look-up is not defined
        ctx.label('zero increment')
        return
    # look-up: every point finds itself, every other position the nearest point
    clip = [np.clip(pos[i], lo[i], hi[i]) for i in range(dim)]
    for j in range(0, n, max(1, n // 12)):
        got = g.index(*[float(c[j]) for c in clip])
        ctx.equal(tuple(int(v) for v in got), tuple(int(v) for v in np.unravel_index(j, steps)), f'{k}.index of grid point {j}')
    for q in d['q']:
        x = [min(max(lo[i] + q[i] * (hi[i] - lo[i]), lo[i]), hi[i]) for i in range(dim)]
        got = g.index(*x)
        for i in range(dim):
            ctx.check(0 <= got[i] < steps[i], lambda i=i, got=got, x=x: f'{k}.index{tuple(x)} = {got} is outside the shape {steps}')
            ctx.check(abs(ax[i][got[i]] - x[i]) <= np.abs(ax[i] - x[i]).min() + 1e-7, lambda i=i, got=got, x=x: f'{k}.index{tuple(x)} = {got} is not the nearest grid point')
    i, up = d['out']
    x = list(lo)
    x[i] = hi[i] + 0.01 if up else lo[i] - 0.01
    try:
        got = g.index(*x)
    except ValueError:
        pass
    else:
        ctx.fail(f'{k}.index of {x} outside of the grid returns {got}')
    # sub-domains
    q1, q2 = d['q'][:2]
    c1 = [min(max(lo[i] + q1[i] * (hi[i] - lo[i]), lo[i]), hi[i]) for i in range(dim)]
    c2 = [min(max(lo[i] + q2[i] * (hi[i] - lo[i]), lo[i]), hi[i]) for i in range(dim)]
    sl = g.indices(*c1, *c2)
    for i in range(dim):
        near = [int(np.abs(ax[i] - v).argmin()) for v in sorted((c1[i], c2[i]))]
        tie = any(len(ax[i]) > 1 and np.diff(np.sort(np.abs(ax[i] - v))[:2])[0] < 1e-7 for v in (c1[i], c2[i]))
        if not tie:
            ctx.equal((sl[i].start, sl[i].stop), (near[0], near[1] + 1), f'{k}.indices along axis {i}')
    if dim == 2:
        r = d['r']
        dist = np.hypot(pos[0] - c1[0], pos[1] - c1[1])
        if np.abs(dist - r).min() > 1e-7:
            got = g.indices(c1[0], c1[1], r)
            inside = np.flatnonzero(dist < r)
            if len(inside):
                have = sorted(int(v) for v in np.ravel_multi_index((np.array(got[0]), np.array(got[1])), steps))
                ctx.equal(have, sorted(int(v) for v in inside), f'{k}.indices in a circle')
            elif len(dist) == 1 or np.diff(np.sort(dist)[:2])[0] > 1e-7:
                ctx.equal(int(np.ravel_multi_index((int(got[0]), int(got[1])), steps)), int(dist.argmin()), f'{k}.indices in an empty circle: nearest point')
        # polygon around the centre of three to five positions, which may reach beyond the grid
        v = np.array([[lo[i] + (1.4 * q[i] - 0.2) * (hi[i] - lo[i]) for i in range(2)] for q in d['q']])[: d['corners']]
        v += np.array([0.0123, -0.0171])  # off the lattice
        mid = v.mean(0)
        v = v[np.argsort(np.arctan2(*(v - mid).T[::-1]), kind='stable')]
        inside, margin = in_polygon(v, pos[:2])
        if margin > 1e-6 and (inside.any() or d['corners'] == 3):
            near = [min(max(mid[i], lo[i]), hi[i]) for i in range(2)]
            dist = np.hypot(pos[0] - mid[0], pos[1] - mid[1])
            if inside.any():
                got = g.indices(*[float(x) for x in v.ravel()])
                have = sorted(int(x) for x in np.ravel_multi_index((np.array(got[0]), np.array(got[1])), steps))
                ctx.equal(have, [int(x) for x in np.flatnonzero(inside)], f'{k}.indices in a polygon of {len(v)} corners')
                ctx.label(f'polygon, {len(v)} corners')
            elif np.abs(near - mid).max() == 0 and (n == 1 or np.diff(np.sort(dist)[:2])[0] > 1e-7):
                got = g.indices(*[float(x) for x in v.ravel()])
                ctx.equal(int(np.ravel_multi_index((int(got[0]), int(got[1])), steps)), int(dist.argmin()), f'{k}.indices in an empty polygon: point next to the centre')
                ctx.label('empty polygon')
    ctx.label(k)
    ctx.interesting(min(steps) > 1)


def in_polygon(v, p):
    """Even-odd rule, and the smallest distance of any point to an edge; 0 if the polygon is degenerate."""
    inside = np.zeros(p.shape[1], bool)
    margin = np.inf
    for a, b in zip(v, np.roll(v, -1, 0)):
        e = b - a
        if np.hypot(*e) < 1e-3:
            return inside, 0
        t = np.clip(((p - a[:, None]) * e[:, None]).sum(0) / (e @ e), 0, 1)
        margin = min(margin, np.hypot(*(p - a[:, None] - t * e[:, None])).min())
        with np.errstate(divide='ignore', invalid='ignore'):
            inside ^= ((a[1] > p[1]) != (b[1] > p[1])) & (p[0] < a[0] + (p[1] - a[1]) * e[0] / e[1])
    area = abs((v[:, 0] * np.roll(v[:, 1], -1) - v[:, 1] * np.roll(v[:, 0], -1)).sum()) / 2
    return inside, margin if area > 1e-3 else 0


# ------------------------------------------------------------------------------------ point sets
@st.composite
def line(draw):
    dr = [draw(st.integers(-4, 4)) for _ in range(3)]
    if not any(dr):
        dr[draw(st.integers(0, 2))] = 1
    return S('LineGrid', loc={'tup': [draw(fl(-2, 2, 2)) for _ in range(3)]}, direction={'tup': [float(v) for v in dr]}, length=draw(fl(0, 5, 2)), num_points=draw(st.integers(1, 30)))


@subcheck(P, 'linegrid', line(), quick=300, rule='more than one point')
def linegrid(spec, ctx):
    a = spec['a']
    g = zoo.build(spec)
    n = a['num_points']
    ctx.equal(g.size, n, 'LineGrid.size')
    ctx.equal(tuple(g.shape), (n,), 'LineGrid.shape')
    u = np.array(a['direction']['tup'])
    u = u / np.sqrt((u**2).sum())
    s = np.linspace(0, a['length'], n) if n > 1 else np.zeros(1)
    ctx.close(g.pos, np.array(a['loc']['tup'])[:, None] + u[:, None] * s, 'LineGrid.pos', rtol=1e-10, scale=10)
    ctx.interesting(n > 1)


@st.composite
def merged(draw):
    gs = draw(st.lists(st.one_of(zoo.rect_grid(), zoo.rect_grid3d(), zoo.line_grid(), zoo.import_grid()), min_size=1, max_size=3))
    if draw(st.booleans()):
        gs.append(gs[0])
    if draw(st.booleans()):
        # a grid that shares some points with the first one
        p = zoo.build(gs[0]).pos
        gs.append(S('ImportGrid', pos={'lit': p[:, :: draw(st.integers(1, 3))].tolist()}))
    return {'grids': gs, 'how': draw(st.sampled_from(['init', 'set', 'append']))}


@subcheck(P, 'mergegrid', merged(), quick=300, rule='the grids share points')
def mergegrid(d, ctx):
    gs = [zoo.build(g) for g in d['grids']]
    if d['how'] == 'init':
        m = ac.MergeGrid(grids=gs)
    else:
        m = ac.MergeGrid(grids=[])
        m.digest  # noqa: B018
        if d['how'] == 'set':
            m.grids = gs
        else:
            for g in gs:
                m.grids.append(g)
                m.size  # noqa: B018
    allp = np.concatenate([g.pos for g in gs], axis=1)
    want = sorted({tuple(p) for p in allp.T})
    ctx.equal(sorted(tuple(p) for p in m.pos.T), want, 'points of the MergeGrid')
    ctx.equal(m.size, len(want), 'MergeGrid.size')
    ctx.equal(tuple(m.shape), (len(want),), 'MergeGrid.shape')
    names = np.ravel(m.subgrids)
    ctx.equal(len(names), len(want), 'number of names in MergeGrid.subgrids')
    for p, nm in zip(m.pos.T, names):
        owners = [g.__class__.__name__ + g.digest for g in gs if (g.pos.T == p).all(1).any()]
        ctx.check(str(nm) in owners, lambda p=p, nm=nm, owners=owners: f'point {p} is said to belong to {nm}, but is in {owners}')
    ctx.interesting(allp.shape[1] > len(want))


@st.composite
def imported(draw):
    n = draw(st.integers(1, 9))
    return {'pos': [[draw(fl(-5, 5, 4)) for _ in range(n)] for _ in range(3)], 'names': [draw(st.sampled_from(['a', 'b', 'left wing', ''])) for _ in range(n)], 'file': draw(st.booleans())}


@subcheck(P, 'importgrid', imported(), quick=200, rule='read from a file')
def importgrid(d, ctx):
    pos = np.array(d['pos'])
    if d['file']:
        f = ctx.path('grid.xml')
        with open(f, 'w', encoding='utf-8') as fh:
            fh.write('<?xml version="1.1" encoding="utf-8"?><Grid name="g">\n')
            for (x, y, z), nm in zip(pos.T, d['names']):
                fh.write(f'<pos subgrid="{nm}" x="{x!r}" y="{y!r}" z="{z!r}"/>\n'.replace('np.float64(', '').replace(')', ''))
            fh.write('</Grid>')
        g = ac.ImportGrid(file=f)
        ctx.equal([str(v) for v in g.subgrids], d['names'], 'ImportGrid.subgrids')
    else:
        g = ac.ImportGrid(pos=pos)
    ctx.same(g.pos, pos, 'ImportGrid.pos')
    ctx.equal(g.size, pos.shape[1], 'ImportGrid.size')
    ctx.equal(tuple(g.shape), (pos.shape[1],), 'ImportGrid.shape')
    ctx.interesting(d['file'])

"""C19 sectors select, and integration sums, exactly the grid points inside."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C19'
FAR, ON = 1e-6, 1e-13


# --------------------------------------------------------------------------------- geometry oracle
def seg_dist(p, a, b):
    d = b - a
    t = np.clip(((p - a[:, None]) * d[:, None]).sum(0) / (d @ d), 0, 1)
    return np.hypot(*(p - a[:, None] - d[:, None] * t))


def poly_oracle(v, p):
    """inside (even-odd ray casting), distance to the border"""
    n = len(v)
    inside = np.zeros(p.shape[1], bool)
    dist = np.full(p.shape[1], np.inf)
    for i in range(n):
        a, b = v[i], v[(i + 1) % n]
        if np.allclose(a, b):
            continue
        dist = np.minimum(dist, seg_dist(p, a, b))
        cond = (a[1] > p[1]) != (b[1] > p[1])
        with np.errstate(all='ignore'):
            x = a[0] + (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
        inside ^= cond & (p[0] < x)
    return inside, dist


def convex_hull(v):
    """monotone chain"""
    pts = sorted({tuple(p) for p in v})
    def half(seq):
        h = []
        for q in seq:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (q[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (q[0] - h[-2][0]) <= 1e-12:
                h.pop()
            h.append(q)
        return h[:-1]
    return np.array(half(pts) + half(pts[::-1]))


def area(v):
    x, y = np.array(v).T
    return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)


def centroid(v):
    x, y = np.array(v).T
    c = x * np.roll(y, -1) - np.roll(x, -1) * y
    return np.array([((x + np.roll(x, -1)) * c).sum(), ((y + np.roll(y, -1)) * c).sum()]) / (3 * c.sum())


# --------------------------------------------------------------------------------- generators
@st.composite
def sector(draw, kinds=('RectSector', 'RectSector3D', 'CircSector', 'PolySector', 'ConvexSector')):
    k = draw(st.sampled_from(kinds))
    a = dict(include_border=draw(st.booleans()), default_nearest=draw(st.booleans()))
    if draw(st.integers(0, 3)) == 0:
        a.pop('include_border')
    if k in ('RectSector', 'RectSector3D'):
        for ax in 'xy' if k == 'RectSector' else 'xyz':
            off = 1.5 if ax == 'z' else 0
            a[ax + '_min'], a[ax + '_max'] = (round(off + draw(fl(-1.2, 1.2, 2)), 2) for _ in range(2))
    elif k == 'CircSector':
        a.update(x=draw(fl(-1, 1, 2)), y=draw(fl(-1, 1, 2)), r=draw(fl(0.01, 1.2, 2)))
    elif k == 'PolySector':
        n = draw(st.integers(3, 7))
        c = np.array([draw(fl(-0.5, 0.5, 2)), draw(fl(-0.5, 0.5, 2))])
        rad = [draw(fl(0.1, 1, 2)) for _ in range(n)]
        ph = draw(fl(0, 6, 2))
        v = [[round(float(c[0] + r * np.cos(ph + 2 * np.pi * i / n)), 2), round(float(c[1] + r * np.sin(ph + 2 * np.pi * i / n)), 2)] for i, r in enumerate(rad)]
        if draw(st.booleans()):
            v = v[::-1]
        if draw(st.booleans()):
            v.append(v[0])
        a['edges'] = [x for p in v for x in p]
    else:
        n = draw(st.integers(3, 7))
        a['edges'] = [draw(fl(-1, 1, 2)) for _ in range(2 * n)]
    return S(k, **a)


def border_points(spec):
    """Some points on the border of the region."""
    a, k = spec['a'], spec['k']
    if k in ('RectSector', 'RectSector3D'):
        x, y = [a['x_min'], a['x_max']], [a['y_min'], a['y_max']]
        return [[x[0], y[0]], [x[1], y[0]], [np.mean(x), y[1]], [x[0], np.mean(y)]]
    if k == 'CircSector':
        return [[a['x'] + a['r'], a['y']], [a['x'], a['y'] - a['r']]]
    v = np.array(a['edges']).reshape(-1, 2)
    if k == 'ConvexSector':
        v = convex_hull(v)
    return [*v.tolist(), *((v + np.roll(v, -1, 0)) / 2).tolist()]


@st.composite
def cases(draw):
    s = draw(sector())
    n = draw(st.integers(1, 12))
    pts = [[draw(fl(-1.3, 1.3, 2)), draw(fl(-1.3, 1.3, 2)), round(1.5 + draw(fl(-1.2, 1.2, 2)), 2)] for _ in range(n)]
    if draw(st.booleans()):
        zc = 1.5 if s['k'] != 'RectSector3D' else round((s['a']['z_min'] + s['a']['z_max']) / 2, 4)
        pts += [[float(x), float(y), zc] for x, y in border_points(s)]
    if draw(st.integers(0, 3)) == 0:
        pts = [[x + 3, y, z] for x, y, z in pts]
    return {'spec': s, 'pts': pts}


def region(spec, p):
    """(inside, distance from the border) of points p, (3, N); None if the region is degenerate."""
    a, k = spec['a'], spec['k']
    if k in ('RectSector', 'RectSector3D'):
        d = []
        for i, ax in enumerate('xy' if k == 'RectSector' else 'xyz'):
            lo, hi = sorted((a[ax + '_min'], a[ax + '_max']))
            d.append(np.minimum(p[i] - lo, hi - p[i]))
        m = np.min(d, axis=0)  # > 0 inside, < 0 outside
        return m > 0, np.abs(m)
    if k == 'CircSector':
        r = np.hypot(p[0] - a['x'], p[1] - a['y'])
        return r < a['r'], np.abs(r - a['r'])
    v = np.array(a['edges']).reshape(-1, 2)
    if k == 'ConvexSector':
        v = convex_hull(v)
    elif np.array_equal(v[0], v[-1]):
        v = v[:-1]
    if len(v) < 3 or abs(area(v)) < 1e-2:
        return None
    for i in range(len(v)):
        if np.hypot(*(v[i] - v[i - 1])) < 5e-3:
            return None
    return poly_oracle(v, p[:2])


def centers(spec):
    """Admissible centers of the region."""
    a, k = spec['a'], spec['k']
    if k in ('RectSector', 'RectSector3D'):
        return [np.array([(a[ax + '_min'] + a[ax + '_max']) / 2 for ax in ('xy' if k == 'RectSector' else 'xyz')])]
    if k == 'CircSector':
        return [np.array([a['x'], a['y']])]
    v = np.array(a['edges']).reshape(-1, 2)
    out = [v.mean(0)]
    if k == 'ConvexSector':
        h = convex_hull(v)
        return [*out, h.mean(0), centroid(h)]
    if np.array_equal(v[0], v[-1]):
        out.append(v[:-1].mean(0))
        v = v[:-1]
    return [*out, centroid(v)]


def expected(spec, p):
    """True/False/None (undecided) per point; second value: the result may be a fallback point."""
    reg = region(spec, p)
    if reg is None:
        return None, None
    inside, dist = reg
    border = spec['a'].get('include_border', True)
    exp = np.where(dist > FAR, inside, np.where(dist < ON, border, None))
    fall = None
    if not any(e is not False and e is not np.False_ and e != False for e in exp) and spec['a']['default_nearest']:  # noqa: E712
        cand = set()
        for c in centers(spec):
            d = np.sqrt(((p[: len(c)] - c[:, None]) ** 2).sum(0))
            cand |= {int(i) for i in np.flatnonzero(d < d.min() + 1e-9)}
        fall = cand
    return exp, fall


@subcheck(P, 'contains', cases(), quick=2500, shards=3, rule='points inside and outside, or the fallback to the nearest point')
def contains(d, ctx):
    spec, p = d['spec'], np.array(d['pts']).T
    k = spec['k']
    exp, fall = expected(spec, p)
    if exp is None:
        ctx.discard()
    sec = zoo.build(spec)
    p0 = p.copy()
    got = sec.contains(p)
    ctx.shape(got, (p.shape[1],), f'{k}.contains')
    ctx.check(got.dtype == bool, f'{k}.contains: dtype {got.dtype}')
    ctx.same(p, p0, 'positions after contains')
    if fall is not None:
        hit = set(np.flatnonzero(got).tolist())
        ctx.check(len(hit) == 1 and hit <= fall, lambda: f'{k}: no point inside, contains returns {sorted(hit)}, nearest to the center is {sorted(fall)}')
        ctx.label('nearest')
        ctx.interesting()
    else:
        if any(e is None for e in exp) and not any(e is not None and e for e in exp) and spec['a']['default_nearest']:
            return  # undecided border points decide whether there is a fallback
        for i, e in enumerate(exp):
            if e is not None and bool(e) != bool(got[i]):
                ctx.fail(f'{k}.contains: point {p[:, i].tolist()} is {"outside" if got[i] else "inside"}, expected {"inside" if e else "outside"}')
        ctx.interesting(len({bool(e) for e in exp if e is not None}) == 2)
    ctx.label(k)


@st.composite
def tolerances(draw):
    s = draw(sector(('RectSector', 'RectSector3D', 'CircSector', 'PolySector')))
    tol = draw(st.sampled_from([0.02, 0.1, 0.3]))
    s['a'].update(abs_tol=tol, default_nearest=False)
    n = draw(st.integers(1, 10))
    pts = [[draw(fl(-1.3, 1.3, 2)), draw(fl(-1.3, 1.3, 2)), round(1.5 + draw(fl(-1.2, 1.2, 2)), 2)] for _ in range(n)]
    zc = 1.5 if s['k'] != 'RectSector3D' else round((s['a']['z_min'] + s['a']['z_max']) / 2, 4)
    pts += [[float(x + draw(fl(-tol, tol, 3))), float(y + draw(fl(-tol, tol, 3))), zc] for x, y in border_points(s)]
    return {'spec': s, 'pts': pts}


@subcheck(P, 'tolerance', tolerances(), quick=800, shards=1, rule='points within the tolerance on both sides of the border')
def tolerance(d, ctx):
    """points up to abs_tol from the border count as border points"""
    spec, p = d['spec'], np.array(d['pts']).T
    k, a = spec['k'], spec['a']
    reg = region(spec, p)
    if reg is None:
        ctx.discard()
    inside, dist = reg
    border, tol = a.get('include_border', True), a['abs_tol']
    near, far = dist < tol - 1e-9, dist > tol + 1e-9
    if k == 'CircSector':  # the tolerance may concern the radius or its square
        d2 = np.abs((p[0] - a['x']) ** 2 + (p[1] - a['y']) ** 2 - a['r'] ** 2)
        near, far = near & (d2 < tol - 1e-9), far & (d2 > tol + 1e-9)
    got = zoo.build(spec).contains(p)
    ctx.shape(got, (p.shape[1],), f'{k}.contains')
    for i in range(p.shape[1]):
        want = border if near[i] else bool(inside[i]) if far[i] else None
        if want is not None and bool(got[i]) != want:
            ctx.fail(f'{k}.contains, include_border={border}, abs_tol={tol}: point {p[:, i].tolist()} at {dist[i]:.4g} from the border ({"inside" if inside[i] else "outside"}) is taken as {"inside" if got[i] else "outside"}')
    ctx.interesting((near & inside).any() and (near & ~inside).any())
    ctx.label(k)


@st.composite
def multi(draw):
    return {'secs': draw(st.lists(sector(), min_size=0, max_size=3)), 'grid': draw(st.one_of(zoo.rect_grid(maxn=5), zoo.rect_grid3d(), zoo.line_grid(), zoo.import_grid())),
            'seed': draw(zoo.seeds), 'nf': draw(st.integers(1, 3)), 'nest': draw(st.booleans())}


@subcheck(P, 'multi_integrate', multi(), quick=700, shards=2, rule='some, but not all points selected')
def multi_integrate(d, ctx):
    g = zoo.build(d['grid'])
    secs = [zoo.build(s) for s in d['secs'] if region(s, g.pos) is not None]
    m = ac.MultiSector(sectors=secs)
    if d['nest']:
        m = ac.MultiSector(sectors=[m])
    want = np.zeros(g.size, bool)
    for s in secs:
        want |= s.contains(g.pos)
    ctx.same(m.contains(g.pos), want, 'MultiSector.contains against the union')
    ctx.same(ac.Sector.contains(m, g.pos), np.ones(g.size, bool), 'Sector.contains')
    sub = np.zeros(tuple(g.shape), bool)
    sub[g.subdomain(m)] = True
    ctx.same(sub.reshape(-1), want, f'{d["grid"]["k"]}.subdomain')
    r = np.random.RandomState(d['seed'])
    data = r.standard_normal(g.size)
    ctx.close(ac.integrate(data, g, m), data[want].sum(), 'integrate', rtol=1e-12, scale=g.size * 4)
    ctx.close(ac.integrate(data.reshape(g.shape), g, m), data[want].sum(), 'integrate, map in grid shape', rtol=1e-12, scale=g.size * 4)
    nf = d['nf'] + (1 if d['nf'] == 1 else 0)
    maps = r.standard_normal((nf, g.size))
    m0 = maps.copy()
    if maps.size != g.size:
        ctx.close(ac.integrate(maps, g, m), maps[:, want].sum(1), 'integrate, several maps', rtol=1e-12, scale=g.size * 4)
    ctx.same(maps, m0, 'maps after integrate')
    if d['grid']['k'] == 'RectGrid' and len(secs):
        # sector given as tuple: circle around a grid point, rectangle
        p = g.pos[:, r.randint(g.size)]
        rad = abs(r.standard_normal()) * 0.4
        dist = np.hypot(g.pos[0] - p[0], g.pos[1] - p[1])
        if np.abs(dist - rad).min() > 1e-7:
            ctx.close(ac.integrate(data, g, (p[0], p[1], rad)), data[dist < rad].sum(), 'integrate over a circle given as tuple', rtol=1e-12, scale=g.size * 4)
        q = g.pos[:, r.randint(g.size)]
        box = np.all([(g.pos[i] > min(p[i], q[i]) - 1e-9) & (g.pos[i] < max(p[i], q[i]) + 1e-9) for i in (0, 1)], axis=0)
        corners = [min(max(v, lo), hi) for v, lo, hi in zip((p[0], p[1], q[0], q[1]), (g.x_min, g.y_min) * 2, (g.x_max, g.y_max) * 2)]
        ctx.close(ac.integrate(data, g, corners), data[box].sum(), 'integrate over a rectangle given as tuple', rtol=1e-12, scale=g.size * 4)
    if d['grid']['k'] in ('LineGrid', 'ImportGrid'):
        try:
            h = ac.integrate(data, g, (0.0, 0.0, 1.0))
        except NotImplementedError:
            pass
        else:
            ctx.fail(f'integrate over a tuple on a {d["grid"]["k"]} returns {h}')
    ctx.interesting(0 < want.sum() < want.size)
    ctx.label(d['grid']['k'])

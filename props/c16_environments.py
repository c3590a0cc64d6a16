"""C16 environments return the acoustic distance."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import S, fl

P = 'C16'
coord = st.one_of(fl(-3, 3, 2), st.sampled_from([0.0, 1.0, 1e-3, 100.0]))


@st.composite
def points(draw, n):
    if draw(st.booleans()):
        return [[draw(coord) for _ in range(n)] for _ in range(3)]
    return draw(zoo.arrays([3, n], kinds=('uniform', 'normal'), scales=(1.0, 10.0, 0.01)))


def pts(d):
    return np.array(d, dtype=float) if isinstance(d, list) else zoo.arr(d)


@st.composite
def case(draw):
    n, m = draw(st.integers(1, 6)), draw(st.integers(1, 5))
    d = {'g': draw(points(n)), 'm': draw(st.one_of(st.none(), points(m))), 'c': draw(fl(200, 1500, 1)), 'ma': draw(fl(0, 0.9)),
         'fdv': [draw(st.integers(-5, 5)), draw(st.integers(-5, 5)), draw(st.integers(1, 5))], 'perm': draw(st.integers(0, 2)),
         'dtype': draw(st.sampled_from(['float64', 'float64', 'float32'])), 'F': draw(st.booleans()), 'scale': draw(st.sampled_from([0.01, 0.5, 7.0])),
         'shift': [draw(fl(-2, 2)) for _ in range(3)]}
    return d


def naive_r(g, m):
    return np.array([[np.sqrt(sum((g[k, i] - m[k, j]) ** 2 for k in range(3))) for j in range(m.shape[1])] for i in range(g.shape[1])])


def convected(g, m, ma, fdv):
    """c times the travel time from g to m in a uniform flow: |m - g - U t| = c t."""
    d = m[:, None, :] - g[:, :, None]
    df = np.einsum('knm,k->nm', d, fdv)
    r2 = (d**2).sum(0)
    return (-ma * df + np.sqrt((ma * df) ** 2 + (1 - ma**2) * r2)) / (1 - ma**2)


@subcheck(P, 'closed_form', case(), quick=900, shards=2, rule='flow, or several microphones')
def closed_form(d, ctx):
    g = pts(d['g']).astype(d['dtype'])
    m = None if d['m'] is None else pts(d['m']).astype(d['dtype'])
    if d['F']:
        g = np.asfortranarray(g)
    g0, m0 = g.copy(), None if m is None else m.copy()
    m64 = np.zeros((3, 1)) if m is None else m.astype(float)
    g64 = g.astype(float)
    fdv = np.roll(np.array(d['fdv'], float), d['perm'])
    rt = 1e-9 if d['dtype'] == 'float64' else 3e-5
    size = np.abs(g64).max() + np.abs(m64).max()
    args = (g,) if m is None else (g, m)

    def shaped(r):
        return r[:, 0] if m64.shape[1] == 1 else r

    direct = naive_r(g64, m64)
    ctx.close(ac.Environment(c=d['c'])._r(*args), shaped(direct), 'Environment distance', rtol=rt, scale=size)
    f = fdv / np.linalg.norm(fdv)
    if np.all(direct > 1e-6 * size):
        want = shaped(convected(g64, m64, d['ma'], f))
        got = ac.UniformFlowEnvironment(c=d['c'], ma=d['ma'], fdv=fdv)._r(*args)
        ctx.close(got, want, f'UniformFlowEnvironment distance (ma={d["ma"]}, fdv={d["fdv"]})', rtol=rt * 10, scale=size * 10)
        ctx.close(ac.UniformFlowEnvironment(c=d['c'], ma=d['ma'], fdv=fdv * d['scale'])._r(*args), got, 'scaled flow direction', rtol=rt, scale=size * 10)
        ctx.close(ac.UniformFlowEnvironment(ma=0.0, fdv=fdv)._r(*args), shaped(direct), 'UniformFlowEnvironment without flow', rtol=rt * 10, scale=size)
        s = np.array(d['shift'])[:, None]
        ctx.close(ac.UniformFlowEnvironment(ma=d['ma'], fdv=fdv)._r((g64 + s), (m64 + s)), want, 'shifted origin', rtol=rt * 10, scale=size * 10)
        ctx.interesting(d['ma'] > 0)
    ctx.same(g, g0, 'grid positions after the call')
    if m is not None:
        ctx.same(m, m0, 'microphone positions after the call')
    ctx.interesting(m64.shape[1] > 1)


# ------------------------------------------------------------------------------------ flow fields
@st.composite
def field(draw):
    k = draw(st.sampled_from(['SlotJet', 'OpenJet', 'RotatingFlow']))
    o = [draw(fl(-1, 1, 2)) for _ in range(3)]
    if k == 'RotatingFlow':
        spec = S(k, rps=draw(fl(-20, 20, 1)), v0=draw(fl(-30, 30, 1)), origin={'lit': o})
    elif k == 'OpenJet':
        spec = S(k, v0=draw(fl(-80, 80, 1)), origin={'lit': o}, D=draw(fl(0.05, 0.8, 2)), l=draw(fl(1, 10, 1)))
    else:
        fl_, pl = draw(st.sampled_from([([1, 0, 0], [0, 1, 0]), ([0, 0, 2], [0, 3, 0]), ([1, 1, 0], [0, 0, 1]), ([0.5, -0.5, 1], [1, 1, 0]), ([0, -1, 0], [1, 0, 0])]))
        spec = S(k, v0=draw(fl(-80, 80, 1)), origin={'lit': o}, flow={'lit': fl_}, plane={'lit': pl}, B=draw(fl(0.05, 0.8, 2)), l=draw(fl(1, 10, 1)))
    # local coordinates: downstream, and across
    return {'spec': spec, 'x': [draw(fl(0.05, 6, 2)), draw(fl(-1, 1, 3)), draw(fl(-1, 1, 3))]}


@subcheck(P, 'flow_field', field(), quick=700, rule='a point inside the shear layer, or a rotating flow')
def flow_field(d, ctx):
    spec = d['spec']
    k, a = spec['k'], spec['a']
    ff = zoo.build(spec)
    o = np.array(a['origin']['lit'])
    x = np.array(d['x'])
    if k == 'SlotJet':
        e1 = np.array(a['flow']['lit'], float)
        e1 /= np.linalg.norm(e1)
        e2 = np.array(a['plane']['lit'], float)
        e2 /= np.linalg.norm(e2)
        e3 = np.cross(e1, e2)  # across the slot
        xx = o + x[0] * e1 + x[1] * e3 + x[2] * e2
        lat = abs(x[1])
        x1 = 0.5668 / a['l'] * x[0]
        h = lat + np.sqrt(np.pi) / 2 * x1 - a['B'] / 2
        want = a['v0'] * (1 if h < 0 else np.exp(-(h**2) / (2 * x1**2))) * e1
    elif k == 'OpenJet':
        xx = o + x
        lat = np.hypot(x[1], x[2])
        x1 = 0.5022 / a['l'] * x[0]
        h = lat + x1 - a['D'] / 2
        want = np.array([a['v0'] * (1 if h < 0 else np.exp(-(h**2) / (2 * x1**2))), 0, 0])
    else:
        xx, lat, h = o + x, 1.0, 1.0
        w = 2 * np.pi * a['rps']
        want = np.array([-w * x[1], w * x[0], a['v0']])
    v, dv = ff.v(xx)
    vs = abs(a['v0']) + 1e-9
    ctx.close(v, want, f'{k}.v', rtol=1e-9, scale=vs + np.abs(want).max())
    if abs(h) < 1e-3 or lat < 1e-3:
        return  # kink of the profile
    step = 1e-6
    num = np.array([(ff.v(xx + step * e)[0] - ff.v(xx - step * e)[0]) / (2 * step) for e in np.eye(3)]).T
    ctx.close(dv, num, f'{k}: velocity gradient against finite differences', rtol=3e-5, scale=max(1e-3, np.abs(num).max()) + vs)
    ctx.interesting(k == 'RotatingFlow' or 0 < h < 3 * x1)
    ctx.label(k)


# ------------------------------------------------------------------------------------ ray tracing
@st.composite
def rays(draw):
    nm = draw(st.integers(1, 2))
    z = draw(fl(1, 2, 1))
    c = draw(fl(330, 350, 0))
    ma = draw(st.sampled_from([0.0, 0.1, -0.1, 0.2]))
    n = draw(st.integers(2, 5))
    g = [[round(v, 2) for v in np.random.RandomState(draw(zoo.seeds)).uniform(-0.5, 0.5, n)] for _ in range(2)]
    return {'c': c, 'ma': ma, 'z': z, 'gx': g[0], 'gy': g[1], 'gz': [draw(fl(-0.2, 0.2, 2)) for _ in range(n)],
            'm': [[draw(fl(-0.3, 0.3, 2)) for _ in range(nm)] for _ in range(2)], 'roi': draw(st.booleans())}


@subcheck(P, 'ray_tracing', rays(), quick=24, shards=4, rule='flow')
def ray_tracing(d, ctx):
    n = len(d['gx'])
    g = np.array([d['gx'], d['gy'], [d['z'] + v for v in d['gz']]])
    m = np.array([*d['m'], [0.0] * len(d['m'][0])])
    env = ac.GeneralFlowEnvironment(c=d['c'], N=100, Om=2.0, ff=ac.RotatingFlow(rps=0.0, v0=d['ma'] * d['c']))
    if d['roi']:
        env.roi = np.array([[x, y, d['z'] + z] for x in (-0.6, 0.6) for y in (-0.6, 0.6) for z in (-0.25, 0.25)]).T
    r = env._r(g, m)
    ctx.shape(r, (n,) if m.shape[1] == 1 else (n, m.shape[1]), 'GeneralFlowEnvironment distance')
    want = convected(g, m, d['ma'], np.array([0.0, 0, 1.0]))
    rel = r.reshape(want.shape) / want - 1
    ctx.check(np.abs(rel).max() < 0.05, lambda: f'ray-traced distance in uniform flow ma={d["ma"]} deviates by {np.abs(rel).max():.3f} from the closed form')
    ctx.check(-0.05 < rel.mean() < 0.03, lambda: f'mean deviation {rel.mean()}')
    ctx.same(env._r(g, m), r, 'distance asked for again')
    # other points: not served from what was stored for the first ones
    g2 = g * 1.5
    if not d['roi']:
        r2 = env._r(g2, m).reshape(want.shape)
        ctx.check(np.all(np.abs(r2 / convected(g2, m, d['ma'], np.array([0.0, 0, 1.0])) - 1) < 0.05), 'ray-traced distance for a second set of points')
    env.c = d['c'] * 1.2
    r3 = env._r(g, m)
    fresh = ac.GeneralFlowEnvironment(c=d['c'] * 1.2, N=100, Om=2.0, ff=ac.RotatingFlow(rps=0.0, v0=d['ma'] * d['c']), roi=env.roi)
    ctx.same(r3, fresh._r(g, m), 'distance after a change of the speed of sound')
    ctx.interesting(d['ma'] != 0)

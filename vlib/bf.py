"""Shared by the beamforming properties: generated cross spectral matrices and a dense linear algebra reference."""

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import zoo
from vlib.zoo import S, fl


class OwnSteer(ac.SteeringVector):
    """A user-defined steering vector class: makes the library use its general (slower) code path."""


ac.OwnSteer = OwnSteer  # so that specs can name it


@st.composite
def freqs(draw, lo=1, hi=4):
    n = draw(st.integers(lo, hi))
    f = draw(st.lists(fl(0, 4000, 1), min_size=n, max_size=n, unique=True))
    return sorted(f)


@st.composite
def csm(draw, nf, nm, rank=None, full=False):
    """Description of an (nf, nm, nm) stack of Hermitian positive semidefinite matrices."""
    return {'nf': nf, 'nm': nm, 'rank': nm if full else draw(st.integers(1, nm)) if rank is None else rank, 'seed': draw(zoo.seeds), 'noise': draw(st.sampled_from([0.1, 1.0, 0.01])) if full else draw(st.sampled_from([0, 0, 0.1, 1.0])),
            'scale': draw(st.sampled_from([1.0, 1.0, 1e-6, 1e4]))}


def make(d):
    r = np.random.RandomState(d['seed'])
    q = r.standard_normal((2, d['nf'], d['nm'], d['rank']))
    q = q[0] + 1j * q[1]
    c = q @ q.conj().transpose(0, 2, 1) / d['rank']
    c = (c + c.conj().transpose(0, 2, 1)) / 2
    return (c + d['noise'] * np.eye(d['nm'])) * d['scale']


def import_csm(c, f):
    return ac.PowerSpectraImport(csm=np.array(c), frequencies=np.array(f, float))


def geometry(steer):
    """Distances to the reference and to the microphones."""
    env, g, m = steer.env, np.array(steer.grid.pos, float), np.array(steer.mics.pos, float)
    if type(env) is ac.Environment:
        rm = np.sqrt(((g[:, :, None] - m[:, None, :]) ** 2).sum(0))
    else:
        rm = np.asarray(env._r(g, m)).reshape(g.shape[1], m.shape[1])
    ref = steer.ref
    if np.isscalar(ref) and ref > 0:
        r0 = np.full(g.shape[1], float(ref))
    else:
        p = np.zeros(3) if np.isscalar(ref) else np.asarray(ref, float)
        r0 = np.sqrt(((g - p[:, None]) ** 2).sum(0)) if type(env) is ac.Environment else np.asarray(env._r(g, p[:, None])).reshape(-1)
    return r0, rm


def transfer(steer, f):
    r0, rm = geometry(steer)
    k = 2 * np.pi * f / steer.env.c
    return r0[:, None] / rm * np.exp(-1j * k * (rm - r0[:, None]))


def vectors(steer, f):
    a = transfer(steer, f)
    n = a.shape[1]
    e = (np.abs(a) ** 2).sum(1)[:, None]
    return {'classic': a / np.abs(a) / n, 'inverse': 1 / a.conj() / n, 'true level': a / e, 'true location': a / np.sqrt(e * n)}[steer.steer_type]


def phase_tol(steer, f):
    """Accuracy of the single precision phases the library uses."""
    r0, rm = geometry(steer)
    return 1e-7 * (1 + 2 * np.pi * f / steer.env.c * (rm.max() + r0.max()))


def quadratic(h, c):
    """h^H C h for every row of h."""
    return np.einsum('gi,ij,gj->g', h.conj(), c, h).real


def as_own(spec):
    return {'k': 'OwnSteer', 'a': spec['a']}


@st.composite
def scene(draw, full=False, nf=(1, 3), own=True, g=None, e=None, lo=2, hi=6, types=None, rank=None):
    """Steering vector, frequencies and matrices that fit together."""
    s = draw(zoo.steer(lo=lo, hi=hi, g=g, e=zoo.env() if e is None else e, types=types))
    if own and draw(st.booleans()):
        s = as_own(s)
    f = draw(freqs(*nf))
    return {'steer': s, 'f': f, 'csm': draw(csm(len(f), zoo.nmics(s), full=full, rank=rank))}


def setup(d):
    steer = zoo.build(d['steer'])
    c = make(d['csm'])
    return steer, c, import_csm(c, d['f'])


CLEANT = ['BeamformerCleant', 'BeamformerCleantSq', 'BeamformerCleantTraj', 'BeamformerCleantSqTraj']


def rings(steer):
    """Power weights are not defined without at least two rings of microphones (nor where rounding decides about them)."""
    r = np.asarray(steer.env._r(np.zeros((3, 1)), np.array(steer.mics.pos))).reshape(-1)
    q = r / r.max() * 10
    return len(set(np.round(r / r.max(), 1))) >= 2 and not (np.abs(q - np.floor(q) - 0.5) < 1e-6).any()


@st.composite
def time_beamformer(draw):
    kind = draw(st.sampled_from(['BeamformerTime', 'BeamformerTimeSq', 'BeamformerTimeTraj', 'BeamformerTimeSqTraj'] * 2 + CLEANT))
    s = draw(zoo.steer(lo=2, hi=4, g=zoo.rect_grid(maxn=3)))
    c = zoo.nmics(s)
    fs = draw(st.sampled_from([500.0, 1500.0, 3000.0]))
    n = draw(st.integers(60, 140))
    a = {'source': draw(zoo.timesamples(n, c, fs)), 'steer': s, 'weights': draw(st.sampled_from(['none', 'none', 'power'])) if c > 2 else 'none'}
    if a['weights'] == 'power' and not rings(zoo.build(s)):
        a['weights'] = 'none'
    if 'Sq' in kind:
        a['r_diag'] = draw(st.booleans())
    if kind in CLEANT:
        a |= {'n_iter': 3, 'damp': 0.6}
    if 'Traj' in kind:
        rot = draw(st.booleans())
        # a rotating grid needs a velocity that is never parallel to the rotation vector
        a['trajectory'] = draw(zoo.traj(dur=2 * n / fs, forward=rot))
        a['conv_amp'] = draw(st.booleans())
        a['rvec'] = {'lit': [0, 0, 1.0] if rot else [0, 0, 0]}
    return {'spec': zoo.S(kind, **a), 'n': n, 'nums': draw(st.lists(st.integers(1, n + 5), min_size=2, max_size=3, unique=True))}

"""Input files of generated content, in the formats that acoular reads."""

import os

import h5py
import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import zoo

KINDS = ['TimeSamples', 'TimeSamples', 'MaskedTimeSamples', 'MicGeom', 'Calib', 'ImportGrid']


@st.composite
def contents(draw, kind):
    """What the files hold: an array and, for signals, a sampling rate."""
    if 'Samples' in kind:
        shape = [draw(st.one_of(st.integers(1, 12), st.integers(128, 300))), draw(st.integers(1, 3))]
    elif kind == 'Calib':
        shape = [draw(st.integers(1, 4))]
    else:
        shape = [3, draw(st.integers(1, 5))]
    return {'data': draw(zoo.arrays(shape, kinds=('normal', 'int'))), 'fs': draw(st.sampled_from([100.0, 8000.0]))}


@st.composite
def edits(draw, kind):
    """A change of the contents."""
    how = draw(st.sampled_from(['value', 'value', 'value', 'size', 'none'] + ['fs'] * ('Samples' in kind)))
    return {'how': how, 'at': draw(st.integers(0, 40)), 'by': draw(st.sampled_from([1.0, -0.5, 1e-3, 1e-6]))}


def edited(c, kind, e):
    x, fs = np.array(zoo.arr(c['data']), float), c['fs']
    if e['how'] == 'value':
        x.flat[e['at'] % x.size] += e['by']
    elif e['how'] == 'size':
        x = np.concatenate((x, x[:1])) if x.ndim == 1 or 'Samples' in kind else np.concatenate((x, x[:, :1] + 1), axis=1)
    elif e['how'] == 'fs':
        fs *= 1 + abs(e['by'])
    return x, fs


def write(path, kind, x, fs):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if 'Samples' in kind:
        with h5py.File(path, 'w') as f:
            f['time_data'] = x
            f['time_data'].attrs['sample_freq'] = fs
        return
    with open(path, 'w') as f:
        if kind == 'Calib':
            f.write('<?xml version="1.0"?><Calib>' + ''.join(f'<pos Name="Point {i + 1}" factor="{v!r}"/>' for i, v in enumerate(x.tolist())) + '</Calib>')
        else:
            sub = ' subgrid="a"' if kind == 'ImportGrid' else ''
            f.write('<?xml version="1.0"?><MicArray name="x">' + ''.join(f'<pos Name="Point {i + 1}"{sub} x="{v[0]!r}" y="{v[1]!r}" z="{v[2]!r}"/>' for i, v in enumerate(x.T.tolist())) + '</MicArray>')


def content(o):
    """What an object read from its file, and what it tells about it."""
    if isinstance(o, ac.TimeSamples):
        return {'samples': zoo.cat(zoo.collect(o, 7), o.num_channels), 'sample_freq': o.sample_freq, 'num_samples': o.num_samples, 'num_channels': o.num_channels}
    if isinstance(o, ac.Calib):
        return {'data': np.array(o.data), 'num_mics': o.num_mics}
    if isinstance(o, ac.MicGeom):
        return {'pos': np.array(o.pos), 'pos_total': np.array(o.pos_total), 'num_mics': o.num_mics, 'center': o.center, 'aperture': o.aperture}
    return {'pos': np.array(o.pos), 'size': o.size, 'shape': o.shape}

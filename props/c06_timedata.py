"""C06 time data input delivers exactly the selected samples and channels."""

import os

import h5py
import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import zoo
from vlib.core import subcheck
from vlib.zoo import fl

P = 'C06'


def write_h5(path, data, fs, dtype='float64', chunks=False):
    with h5py.File(path, 'w') as f:
        ds = f.create_dataset('time_data', data=data.astype(dtype), chunks=True if chunks and data.size else None)
        ds.attrs['sample_freq'] = fs


@st.composite
def selection(draw, n, c):
    """start, stop, invalid channels; mostly possible ones."""
    if draw(st.integers(0, 3)):
        start = draw(st.one_of(st.just(0), st.integers(0, n - 1)))
        stop = draw(st.one_of(st.none(), st.integers(start + 1, n + 3)))
        if draw(st.integers(0, 4)) == 0 and stop is not None and stop < n:
            start, stop = start - n, stop - n
        inv = draw(st.lists(st.integers(0, c - 1), max_size=c - 1, unique=True)) if draw(st.booleans()) else []
        return start, stop, inv
    i = st.integers(-n - 2, n + 3)
    start = draw(st.one_of(st.just(0), i))
    stop = draw(st.one_of(st.none(), i))
    inv = draw(st.lists(st.integers(0, c - 1), max_size=c, unique=True)) if draw(st.booleans()) else []
    return start, stop, inv


@st.composite
def cases(draw):
    n, c = draw(st.integers(1, 40)), draw(st.integers(1, 5))
    start, stop, inv = draw(selection(n, c))
    return {
        'data': draw(zoo.arrays([n, c], kinds=('normal', 'int', 'ramp'))), 'fs': draw(st.sampled_from(zoo.FS)),
        'src': draw(st.sampled_from(['array', 'h5', 'h5', 'blocks'])), 'dtype': draw(st.sampled_from(['float64', 'float32', 'int16'])),
        'lib': draw(st.sampled_from(['tables', 'h5py'])), 'chunks': draw(st.booleans()), 'cls': draw(st.sampled_from(['TimeSamples', 'MaskedTimeSamples', 'MaskedTimeOut', 'MaskedTimeSamples', 'MaskedTimeOut'])),
        'start': start, 'stop': stop, 'inv': inv, 'late': draw(st.booleans()),
        'nums': draw(st.lists(st.integers(1, n + 4), min_size=1, max_size=3, unique=True)),
        'calib': draw(st.sampled_from([None, None, None, None, 'total', 'total', 'valid', 'wrong'])), 'cseed': draw(zoo.seeds),
    }


@subcheck(P, 'selection', cases(), quick=1800, shards=4, rule='a proper part of the samples or channels, or a calibration')
def selection_(d, ctx):
    x = np.round(zoo.arr(d['data']) * 8)
    n, c = x.shape
    cls = d['cls']
    lib = d['lib']
    ac.config.h5library = lib if (lib == 'h5py' or ac.config.have_tables) else 'h5py'
    try:
        if d['src'] == 'h5':
            f = ctx.path('td.h5')
            write_h5(f, x, d['fs'], d['dtype'], d['chunks'])
            args = {'file': f}
        else:
            args = {'data': x, 'sample_freq': d['fs']}
        if cls == 'MaskedTimeOut':
            src = ac.TimeSamples(**args)
            if d['src'] == 'blocks':
                src = ac.TimePower(source=src)
                x = x**2
            obj = ac.MaskedTimeOut(source=src)
        else:
            obj = getattr(ac, cls)(**args)
        if d['late'] and cls != 'TimeSamples':
            obj.num_samples, obj.num_channels, obj.digest  # noqa: B018
        sel, keep = x, list(range(c))
        if cls != 'TimeSamples':
            obj.start, obj.stop, obj.invalid_channels = d['start'], d['stop'], d['inv']
            keep = [i for i in range(c) if i not in d['inv']]
            sel = x[d['start'] : d['stop']][:, keep]
        impossible = sel.shape[0] == 0 or sel.shape[1] == 0
        factors = None
        if d['calib'] and cls != 'MaskedTimeOut':
            k = {'total': c, 'valid': len(keep), 'wrong': c + 1}[d['calib']]
            if k == 0:
                k = c
            factors = np.round(np.random.RandomState(d['cseed']).uniform(0.5, 2, k), 2)
            obj.calib = ac.Calib(data=factors)
            if k == c:
                factors = factors[keep]
            elif not (cls == 'MaskedTimeSamples' and k == len(keep)):
                impossible = True
        ctx.equal(obj.sample_freq, d['fs'], f'{cls}.sample_freq')
        if sel.shape[1]:
            ctx.equal(obj.num_channels, sel.shape[1], f'{cls}.num_channels')
            ctx.equal(obj.num_samples, sel.shape[0], f'{cls}.num_samples for start={d["start"]}, stop={d["stop"]} of {n}')
        if impossible:
            try:
                out = zoo.collect(obj, d['nums'][0])
            except (OSError, ValueError, IndexError):
                ctx.label('rejected')
                return
            ctx.fail(f'{cls}: impossible selection start={d["start"]}, stop={d["stop"]}, invalid={d["inv"]}, calib={d["calib"]} of {x.shape} delivers {[b.shape for b in out]}')
        want = sel if factors is None else sel * factors
        for num in d['nums']:
            blocks = zoo.collect(obj, num)
            ctx.check(all(len(b) == num for b in blocks[:-1]) and 0 < len(blocks[-1]) <= num, lambda: f'{cls}.result({num}): block lengths {[len(b) for b in blocks]}')
            ctx.close(zoo.cat(blocks), want, f'{cls}.result({num}), start={d["start"]}, stop={d["stop"]}, invalid={d["inv"]}', rtol=1e-12)
        ctx.interesting(sel.size < x.size or factors is not None)
        ctx.label(cls, d['src'])
    finally:
        ac.config.h5library = 'tables' if ac.config.have_tables else 'h5py'


@st.composite
def switch(draw):
    """A history of assigning files and arrays to one object."""
    steps = []
    for _ in range(draw(st.integers(2, 4))):
        n, c = draw(st.integers(1, 9)), draw(st.integers(1, 3))
        steps.append({'kind': draw(st.sampled_from(['file', 'otherfolder', 'array'])), 'data': draw(zoo.arrays([n, c], kinds=('int',))), 'fs': draw(st.sampled_from(zoo.FS)), 'read': draw(st.booleans())})
    return {'cls': draw(st.sampled_from(['TimeSamples', 'MaskedTimeSamples'])), 'steps': steps}


@subcheck(P, 'replace', switch(), quick=400, shards=2, rule='the data is replaced')
def replace(d, ctx):
    obj = getattr(ac, d['cls'])()
    for i, s in enumerate(d['steps']):
        x = zoo.arr(s['data'])
        if s['kind'] == 'array':
            obj.data, obj.sample_freq = x, s['fs']
        else:
            name = f'f{i}.h5'
            if s['kind'] == 'otherfolder':
                os.makedirs(ctx.path(str(i)), exist_ok=True)
                name = f'{i}/same.h5'
            write_h5(ctx.path(name), x, s['fs'])
            obj.file = ctx.path(name)
        if s['read'] or i == len(d['steps']) - 1:
            ctx.equal((obj.num_samples, obj.num_channels), x.shape, f'{d["cls"]}: announced shape after replacing the data')
            ctx.same(zoo.full(obj, 4), x, f'{d["cls"]}: samples after replacing the data')
            ctx.equal(obj.sample_freq, s['fs'], f'{d["cls"]}.sample_freq after replacing the data')
    ctx.interesting()


@st.composite
def calibs(draw):
    c = draw(st.integers(1, 6))
    n = draw(st.integers(1, 20))
    k = draw(st.integers(1, 7))
    inv = draw(st.lists(st.integers(0, k - 1), max_size=k - 1, unique=True)) if k > 1 else []
    if draw(st.integers(0, 2)):
        k = c + len(inv)
        inv = [i for i in inv if i < k]
        k = c + len(inv)
    return {'data': draw(zoo.arrays([n, c])), 'k': k, 'inv': inv, 'cal': [draw(fl(-3, 3)) for _ in range(k)], 'num': draw(st.integers(1, n + 2)), 'chain': draw(st.sampled_from([None, 'TimePower', 'MaskedTimeOut', 'Cache']))}


@subcheck(P, 'calib', calibs(), quick=500, rule='the calibration fits the source')
def calib(d, ctx):
    x = zoo.arr(d['data'])
    src = ac.TimeSamples(data=x, sample_freq=1.0)
    if d['chain'] == 'TimePower':
        src, x = ac.TimePower(source=src), x**2
    elif d['chain'] == 'Cache':
        src = ac.Cache(source=src)
    elif d['chain'] == 'MaskedTimeOut' and x.shape[1] > 1:
        src, x = ac.MaskedTimeOut(source=src, invalid_channels=[0]), x[:, 1:]
    f = np.array(d['cal'])
    keep = [i for i in range(d['k']) if i not in d['inv']]
    cal = ac.Calib(source=src, data=f, invalid_channels=d['inv'])
    ctx.equal(cal.num_mics, d['k'], 'Calib.num_mics')
    if len(keep) != x.shape[1]:
        try:
            out = zoo.full(cal, d['num'])
        except ValueError:
            ctx.label('rejected')
            return
        ctx.fail(f'calibration of {len(keep)} channels is applied to {x.shape[1]} channels, output {out.shape}')
    ctx.close(zoo.full(cal, d['num']), x * f[keep], 'Calib.result', rtol=1e-12)
    ctx.equal(cal.num_channels, x.shape[1], 'Calib.num_channels')
    ctx.equal(cal.num_samples, x.shape[0], 'Calib.num_samples')
    ctx.interesting()
    if d['inv']:
        ctx.label('invalid channels')


# ---------------------------------------------------------------------------------- sound device
class Device:
    """Stand-in for the sound device library: a device that delivers numbered frames."""

    def __init__(self, devices, lost):
        self.devices, self.lost, self.open, self.calls = devices, lost, 0, []

    def query_devices(self, i=None, kind=None):
        return self.devices[i]

    def InputStream(self, **kw):  # noqa: N802
        self.calls.append(kw)
        return Stream(self, kw)


class Stream:
    def __init__(self, dev, kw):
        self.dev, self.kw, self.k, self.reads = dev, kw, 0, 0

    def __enter__(self):
        self.dev.open += 1
        return self

    def __exit__(self, *a):
        self.dev.open -= 1

    def read(self, num):
        c = self.kw['channels']
        i = np.arange(self.k, self.k + num)[:, None] * c + np.arange(c)
        self.k += num
        self.reads += 1
        return (i % 100).astype(self.kw['dtype']), self.reads in self.dev.lost


@st.composite
def sounds(draw):
    devs = [{'max_input_channels': draw(st.integers(1, 8)), 'default_samplerate': draw(st.sampled_from([44100.0, 48000.0, 8000.0]))} for _ in range(3)]
    return {'devs': devs, 'dev': draw(st.integers(0, 2)), 'c': draw(st.integers(1, 10)), 'n': draw(st.one_of(st.integers(1, 60), st.just(-1))), 'num': draw(st.integers(1, 20)),
            'stop': draw(st.integers(1, 6)), 'fs': draw(st.sampled_from([None, None, 44100.0, 1000.0])), 'precision': draw(st.sampled_from(['float32', 'float16', 'int32', 'int16', 'int8', 'uint8'])),
            'lost': draw(st.lists(st.integers(1, 8), max_size=3)), 'runs': draw(st.integers(1, 2)), 'late': draw(st.booleans())}


@subcheck(P, 'sounddevice', sounds(), quick=150, rule='more than one block')
def sounddevice(d, ctx):
    """The recorded frames in their order, as many as were asked for, from a stream opened as configured."""
    import contextlib
    import io

    from acoular import sdinput

    if not hasattr(sdinput, 'sd'):
        ctx.discard()
    dev = Device(d['devs'], d['lost'])
    old, sdinput.sd = sdinput.sd, dev
    try:
        a = {'num_samples': d['n'], 'precision': d['precision']}
        if d['fs']:
            a['sample_freq'] = d['fs']
        if d['late']:
            g = ac.SoundDeviceSamplesGenerator(**a)
            ctx.equal(g.sample_freq, d['fs'] or d['devs'][0]['default_samplerate'], 'sample_freq of the first device')
            g.device = d['dev']
            g.num_channels = d['c']
        else:
            g = ac.SoundDeviceSamplesGenerator(device=d['dev'], num_channels=d['c'], **a)
        most = d['devs'][d['dev']]['max_input_channels']
        ctx.check(1 <= g.num_channels <= most, lambda: f'{g.num_channels} channels of a device with {most}')
        if not d['late'] and d['c'] <= min(x['max_input_channels'] for x in d['devs']) or d['late']:
            ctx.equal(g.num_channels, min(d['c'], most), 'num_channels')
        fs = d['fs'] or d['devs'][d['dev']]['default_samplerate']
        ctx.equal(g.sample_freq, fs, 'sample_freq')
        for _ in range(d['runs']):
            g.collect_samples = True
            dev.calls.clear()
            blocks, flags = [], []
            with contextlib.redirect_stdout(io.StringIO()):
                for b in g.result(d['num']):
                    ctx.equal(g.running, True, 'running while samples are delivered')
                    ctx.equal(dev.open, 1, 'number of open streams')
                    blocks.append(np.array(b))
                    flags.append(g.overflow)
                    if d['n'] == -1 and len(blocks) == d['stop']:
                        g.collect_samples = False
                    ctx.check(len(blocks) < 200, 'the stream does not end')
            ctx.equal(g.running, False, 'running at the end')
            ctx.equal(dev.open, 0, 'number of open streams at the end')
            ctx.equal(len(dev.calls), 1, 'number of streams opened')
            kw = dev.calls[0]
            ctx.equal((kw['device'], kw['channels'], kw['samplerate'], kw['dtype']), (d['dev'], g.num_channels, g.sample_freq, d['precision']), 'parameters of the stream')
            n = d['n'] if d['n'] > 0 else d['stop'] * d['num']
            c = g.num_channels
            want = ((np.arange(n)[:, None] * c + np.arange(c)) % 100).astype(d['precision'])
            ctx.same(np.concatenate(blocks), want, 'samples')
            ctx.equal(blocks[0].dtype, np.dtype(d['precision']), 'type of the samples')
            ctx.equal([len(b) for b in blocks[:-1]], [d['num']] * (len(blocks) - 1), 'sizes of the blocks')
            ctx.equal(flags, [i + 1 in d['lost'] for i in range(len(blocks))], 'overflow flags')
            ctx.interesting(len(blocks) > 1)
    finally:
        sdinput.sd = old

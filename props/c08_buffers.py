"""C08 buffers and splitters hand on every sample once, in order, to every consumer."""

import sys
import threading
import time
import warnings
from collections import deque
from itertools import islice

import numpy as np
from hypothesis import strategies as st

import acoular as ac
from vlib import bf, zoo
from vlib.core import subcheck

P = 'C08'


# ------------------------------------------------------------------------------ SamplesBuffer
@st.composite
def buf(draw):
    n, c = draw(st.integers(1, 80)), draw(st.integers(1, 3))
    snum = draw(st.integers(1, 12))
    num = draw(st.integers(1, 12))
    shift = draw(st.sampled_from(['result_num', 'num']))
    same = draw(st.booleans())  # source blocks of the size of the requested blocks
    if same:
        snum = num
    rnum = draw(st.one_of(st.none(), st.integers(1, 20)))
    r = num if rnum is None else rnum
    if same and shift == 'num' and draw(st.booleans()):
        length = -(-max(r, num) // num) * num + num * draw(st.integers(0, 2))  # a multiple of the shift
    else:
        length = max(snum, r + snum - 1) + draw(st.integers(0, 10))
    return {
        'data': draw(zoo.arrays([n, c], kinds=('normal', 'ramp'))), 'cplx': draw(st.booleans()), 'snum': None if same and draw(st.booleans()) else snum, 'num': num, 'rnum': rnum,
        'length': length, 'shift': shift, 'stop': draw(st.one_of(st.none(), st.integers(1, 4))),
    }


def windows(x, num, rnum, shift):
    """The windows of the complete signal that the buffer stands for."""
    step = num if shift == 'num' else rnum
    return [x[i:i + rnum] for i in range(0, len(x), step)]


@subcheck(P, 'buffer', buf(), quick=2500, shards=2, rule='more than one window and source block')
def buffer_(d, ctx):
    x = zoo.arr(d['data'])
    dt = 'complex128' if d['cplx'] else 'float64'
    src = ac.TimeSamples(data=x * (1 + 2j) if d['cplx'] else x, sample_freq=1.0)
    ref = windows(np.array(src.data), d['num'], d['num'] if d['rnum'] is None else d['rnum'], d['shift'])
    b = ac.process.SamplesBuffer(source=src, length=d['length'], source_num=d['snum'], result_num=d['rnum'], shift_index_by=d['shift'], dtype=dt)
    if d['stop']:  # an abandoned run before
        for _, _ in zip(range(d['stop']), b.result(d['num'])):
            pass
    got = zoo.collect(b, d['num'], limit=500)
    ctx.equal([len(g) for g in got], [len(r) for r in ref], 'lengths of the windows')
    for i, (g, r) in enumerate(zip(got, ref)):
        ctx.same(g, r, f'window {i}')
    ctx.label(d['shift'])
    ctx.interesting(len(ref) > 1 and len(x) > (d['snum'] or d['num']))


@st.composite
def dyn(draw):
    num = draw(st.integers(1, 8))
    n = draw(st.integers(1, 80))
    return {'data': draw(zoo.arrays([n, draw(st.integers(1, 3))], kinds=('ramp', 'normal'))), 'num': num, 'k': draw(st.integers(1, 4)), 'r': draw(st.lists(st.integers(1, 30), min_size=1, max_size=30)), 'explicit': draw(st.booleans())}


@subcheck(P, 'buffer-growing', dyn(), quick=1200, rule='the buffer has to grow')
def dyn_(d, ctx):
    """The number of samples needed changes from block to block, as for moving focus points."""
    x = zoo.arr(d['data'])
    num = d['num']
    b = ac.process.SamplesBuffer(source=ac.TimeSamples(data=x, sample_freq=1.0), length=d['k'] * num, shift_index_by='num', dtype='float64')
    if d['explicit']:
        b.source_num = num
    gen = b.result(num)
    i = 0
    while True:
        r = d['r'][i % len(d['r'])]
        b.result_num = r
        try:
            g = next(gen)
        except StopIteration:
            break
        ctx.same(np.array(g), x[i * num:i * num + r], f'window {i} of {r} samples, shift {num}')
        i += 1
    ctx.equal(i, -(-len(x) // num), 'number of windows')
    ctx.interesting(max(d['r'][:i]) > d['k'] * num)


# ------------------------------------------------------------------------------ SampleSplitter
class Reuse(ac.TimeOut):
    """A source that delivers every block in the same memory."""

    def result(self, num):
        mem = np.empty((num, self.num_channels))
        for b in self.source.result(num):
            mem[:len(b)] = b
            yield mem[:len(b)]


KINDS = ['TimePower', 'Cache', 'MaskedTimeOut', 'TimeReverse', 'Average']


@st.composite
def split(draw):
    n, c = draw(st.integers(1, 60)), draw(st.integers(1, 3))
    k = draw(st.integers(1, 4))
    num = draw(st.integers(1, 12))
    nb = -(-n // num)
    return {
        'data': draw(zoo.arrays([n, c], kinds=('ramp', 'normal'))), 'num': num, 'kinds': draw(st.lists(st.sampled_from(['TimePower', 'Cache', 'MaskedTimeOut']), min_size=k, max_size=k)),
        'size': draw(st.one_of(st.none(), st.integers(1, nb + 2))), 'sizes': [draw(st.one_of(st.none(), st.none(), st.integers(1, nb + 2))) for _ in range(k)],
        'treat': [draw(st.sampled_from([None, 'error', 'warning', 'none'])) for _ in range(k)], 'reuse': draw(st.booleans()),
        'order': draw(st.lists(st.integers(0, k - 1), max_size=3 * nb + 6)), 'late': draw(st.booleans()),
        'remove': draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3 * nb), st.integers(0, k - 1)))),
    }


@subcheck(P, 'splitter', split(), quick=1500, shards=2, rule='several consumers that are not in step')
def splitter_(d, ctx):
    """Every interleaving of consumers, against one queue per consumer."""
    x = zoo.arr(d['data'])
    num = d['num']
    src = ac.TimeSamples(data=x, sample_freq=1.0)
    src0 = Reuse(source=src) if d['reuse'] else src
    s = ac.SampleSplitter(source=src0)
    if d['size'] is not None and not d['late']:
        s.buffer_size = d['size']
    k = len(d['kinds'])
    cons = [getattr(ac, n)(source=s) for n in d['kinds']]
    fns = [np.square if n == 'TimePower' else np.array for n in d['kinds']]
    for o, bs, t in zip(cons, d['sizes'], d['treat']):
        kw = {}
        if bs is not None:
            kw['buffer_size'] = bs
        if t is not None:
            kw['buffer_overflow_treatment'] = t
        s.register_object(o, **kw)
    maxlen = [bs or d['size'] or 100 for bs in d['sizes']]
    if d['late'] and d['size'] is not None:
        s.buffer_size = d['size']  # replaces all sizes
        maxlen = [d['size']] * k
    treat = [t or 'error' for t in d['treat']]
    blocks = [x[i:i + num] for i in range(0, len(x), num)]
    q = [deque(maxlen=m) for m in maxlen]
    alive = set(range(k))
    gens = [o.result(num) for o in cons]
    pos, broken = 0, False
    done = set()
    # in step first: everyone has to start before the first one has finished
    order = [*range(k), *d['order'], *[i for _ in range(len(blocks) + 1) for i in range(k)]]
    spread = False
    for stepno, i in enumerate(order):
        if d['remove'] and d['remove'][0] == stepno - k and d['remove'][1] in alive and stepno >= k:
            s.remove_object(cons[d['remove'][1]])
            alive.discard(d['remove'][1])
            continue
        if i not in alive or i in done:
            continue
        # model
        expect = None
        warned = False
        if broken:
            expect = 'error'
        elif q[i]:
            expect = q[i].popleft()
        else:
            over = {j for j in alive if len(q[j]) == q[j].maxlen}
            warned = any(treat[j] == 'warning' for j in over)
            if any(treat[j] == 'error' for j in over) and pos < len(blocks):
                broken = True
                expect = 'error'
            elif any(treat[j] == 'error' for j in over):
                expect = 'any'
            elif pos < len(blocks):
                for j in alive:
                    q[j].append(blocks[pos])
                pos += 1
                expect = q[i].popleft()
            else:
                expect = 'end'
        # implementation
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                got = np.array(next(gens[i]))
            except StopIteration:
                got = 'end'
            except OSError:
                got = 'error'
        if isinstance(expect, str):
            if expect == 'any':
                if isinstance(got, str):
                    return
                ctx.fail(f'consumer {i} got a block after the end of the source')
            ctx.check(isinstance(got, str) and got == expect, lambda: f'step {stepno}: consumer {i} got {got!r}, expected {expect}')
            if expect == 'error':
                ctx.label('overflow')
                return
            done.add(i)
            continue
        ctx.check(not isinstance(got, str), lambda: f'step {stepno}: consumer {i} got {got!r}, expected a block')
        ctx.same(got, fns[i](expect), f'step {stepno}: block for consumer {i} ({d["kinds"][i]})')
        if warned:
            ctx.check(any('overfilled' in str(v.message) for v in w), f'step {stepno}: overflow without the warning asked for')
            ctx.label('overflow warning')
        spread = spread or len({len(v) for j, v in enumerate(q) if j in alive}) > 1
        if len(done) and len(done) == len(alive):
            break
    ctx.label(f'{k} consumers')
    ctx.interesting(k > 1 and spread)


@st.composite
def chains(draw):
    n, c = draw(st.integers(1, 60)), draw(st.integers(1, 3))
    k = draw(st.integers(1, 4))
    return {'data': draw(zoo.arrays([n, c], kinds=('ramp', 'normal'))), 'num': draw(st.integers(1, 8)), 'kinds': draw(st.lists(st.sampled_from(KINDS), min_size=k, max_size=k)), 'order': draw(st.lists(st.integers(0, k - 1), max_size=40)), 'again': draw(st.booleans()), 'stop': [0] + [draw(st.one_of(st.just(0), st.integers(1, 5))) for _ in range(k - 1)]}


@subcheck(P, 'splitter-rounds', chains(), quick=400, rule='two complete rounds or more than one consumer')
def chains_(d, ctx):
    """Runs one after the other deliver everything every time, also after runs that some consumers left early."""
    x = zoo.arr(d['data'])
    s = ac.SampleSplitter(source=ac.TimeSamples(data=x, sample_freq=1.0), buffer_size=1000)
    cons = [ac.TimePower(source=s) for _ in d['kinds']]
    s.register_object(*cons)
    try:
        s.register_object(cons[0])
        ctx.fail('an object can be registered twice')
    except OSError:
        pass
    for rnd in range(2 if d['again'] else 1):
        stop = d['stop'] if d['again'] and not rnd else [0] * len(cons)  # one consumer takes everything in any case
        gens = [o.result(d['num']) for o in cons]
        out = [[] for _ in cons]
        live = list(range(len(cons)))
        order = [*range(len(cons)), *d['order']]
        for i in order:
            if i in live:
                b = next(gens[i], None) if not stop[i] or len(out[i]) < stop[i] else None
                if b is None:
                    live.remove(i)
                else:
                    out[i].append(np.array(b))
        for i in live:
            for b in gens[i] if not stop[i] else islice(gens[i], max(stop[i] - len(out[i]), 0)):
                out[i].append(np.array(b))
        for i, o in enumerate(out):
            ctx.same(np.concatenate(o), x[:stop[i] * d['num'] or None]**2, f'signal of consumer {i} in round {rnd}')
        if any(stop):
            ctx.label('left early')
            for g in gens:
                g.close()
    u = ac.TimePower(source=s)
    try:
        next(u.result(3))
        ctx.fail('an object that is not registered gets samples')
    except OSError:
        pass
    ctx.interesting(len(cons) > 1 or d['again'])


class Slow(ac.TimeOut):
    """Passes the source on and lets other threads run in between."""

    def result(self, num):
        for i, b in enumerate(self.source.result(num)):
            time.sleep(0.0003 * (i % 3))
            yield Copy(b)
        time.sleep(0.0005)


class Copy(np.ndarray):
    def __new__(cls, a):
        return np.asarray(a).view(cls)

    def copy(self, *a, **k):
        time.sleep(0.0005 * (int(abs(float(np.asarray(self).flat[0]))) % 3))
        return np.asarray(self).copy()


@st.composite
def threads(draw):
    n = draw(st.integers(1, 40))
    k = draw(st.integers(2, 4))
    return {'n': n, 'num': draw(st.integers(1, 6)), 'k': k, 'delay': [draw(st.integers(0, 3)) for _ in range(k)], 'first': [draw(st.integers(0, 2)) for _ in range(k)]}


@subcheck(P, 'splitter-threads', threads(), quick=120, shards=2, rule='every case')
def threads_(d, ctx):
    """Consumers in threads of their own; all of them start before the source has ended."""
    x = np.arange(1.0, d['n'] + 1)[:, np.newaxis]
    s = ac.SampleSplitter(source=Slow(source=ac.TimeSamples(data=x, sample_freq=1.0)), buffer_size=1000)
    cons = [ac.Cache(source=s) for _ in range(d['k'])]
    s.register_object(*cons)
    out = [[] for _ in cons]
    err = []
    bar = threading.Barrier(d['k'])

    def work(i):
        try:
            g = cons[i].result(d['num'])
            bar.wait(20)
            time.sleep(0.0002 * d['first'][i])
            b = next(g, None)
            if b is not None:
                out[i].append(np.array(b))
            bar.wait(20)
            for b in g:
                out[i].append(np.array(b))
                if d['delay'][i]:
                    time.sleep(0.0002 * d['delay'][i])
        except BaseException as e:  # noqa: BLE001
            err.append(e)
            bar.abort()

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(d['k'])]
        for t in ts:
            t.start()
        for t in ts:
            t.join(30)
    finally:
        sys.setswitchinterval(old)
    if err:
        raise err[0]
    ctx.check(not any(t.is_alive() for t in ts), 'a consumer never gets to the end of the signal')
    for i, o in enumerate(out):
        y = np.concatenate(o) if o else np.zeros((0, 1))
        ctx.same(np.asarray(y), x, f'signal of consumer {i} in a thread of its own')
    ctx.interesting()


# --------------------------------------------------------------------- any block behind a splitter
@st.composite
def behind(draw):
    how = draw(st.sampled_from(['pipe', 'pipe', 'beam', 'spectra', 'reverse']))
    if how == 'beam':
        b = draw(bf.time_beamformer())
        spec = b['spec']
        num = draw(st.sampled_from(b['nums']))
    else:
        n, c, fs = draw(st.integers(1, 60)), draw(st.integers(1, 3)), draw(st.sampled_from([100.0, 8000.0]))
        src = draw(zoo.timesamples(n, c, fs))
        if how == 'spectra':
            spec = zoo.S('RFFT', source=src, block_size=draw(st.sampled_from([2, 8, 16])), overlap=draw(st.sampled_from(['None', '50%', '75%'])))
        elif how == 'reverse':
            spec = zoo.S('TimeReverse', source=src)
        else:
            spec = draw(zoo.time_block(src, n, c, fs))[0]
        num = draw(st.integers(1, n + 5))
    k = draw(st.integers(1, 3))
    return {'spec': spec, 'num': num, 'k': k, 'nested': draw(st.lists(st.booleans(), min_size=k, max_size=k)), 'order': draw(st.lists(st.integers(0, k - 1), max_size=12))}


def attach(spec, splitter, nested):
    """Build the block with the splitter (or another one registered there) in place of its first source."""
    obj = zoo.build(spec)
    o = obj
    while not isinstance(o.source, ac.TimeSamples):
        o = o.source
    if nested:
        inner = ac.SampleSplitter(source=splitter, buffer_size=1000)
        splitter.register_object(inner)
        splitter = inner
    o.source = splitter
    splitter.register_object(o)
    return obj


@subcheck(P, 'splitter-blocks', behind(), quick=500, shards=3, rule='several consumers or several blocks')
def behind_(d, ctx):
    """Any processing block delivers the same behind a splitter as behind the source of the splitter."""
    what = d['spec']['k']
    ref = zoo.collect(zoo.build(d['spec']), d['num'])
    s = zoo.root_channels(d['spec'])
    splitter = ac.SampleSplitter(source=zoo.build(s), buffer_size=1000)
    cons = [attach(d['spec'], splitter, nest) for nest in d['nested']]
    gens = [o.result(d['num']) for o in cons]
    out = [[] for _ in cons]
    for i in list(range(d['k'])) + d['order']:
        b = next(gens[i], None)
        if b is not None:
            out[i].append(np.array(b))
    for i, g in enumerate(gens):
        out[i].extend(np.array(b) for b in g)
    for i, o in enumerate(out):
        ctx.equal([len(b) for b in o], [len(b) for b in ref], f'{what}: lengths of the blocks of consumer {i}')
        for j, (a, b) in enumerate(zip(o, ref)):
            ctx.close(a, b, f'{what}: block {j} of consumer {i} behind a splitter', rtol=1e-9, atol=1e-300)
    ctx.interesting(d['k'] > 1 or len(ref) > 1)
    ctx.label(what + (' (nested)' if any(d['nested']) else ''))

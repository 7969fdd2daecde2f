"""
One function per property: runs a case on the real biggus, compares it with
the reference, and raises CheckFailure if the property does not hold.

Each returns {'nt': <non-trivial by the property's rule>, 'labels': [...]}.
"""
import copy
import gc
import os
import sys
import threading
import time
import traceback
import weakref
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import numpy.ma as ma

import biggus
import core
from core import (CheckFailure, Program, Recorder, RefError, chunk_limit,
                  compare, decode_key, decode_keys, decode_value, describe,
                  fail, oindex, realise)

CHECKS = {}


def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco


def guarded(what, f, *args, **kwargs):
    """Call biggus code: any exception is a failure of the property."""
    try:
        return f(*args, **kwargs)
    except CheckFailure:
        raise
    except BaseException as e:
        fail('{}: raised {}: {} @ {}', what, type(e).__name__, e,
             traceback.format_exc()[-900:])


def built(case, recorder=None):
    p = Program(case, recorder, build=False)
    build(p)
    return p


def build(p):
    try:
        p.build()
    except Exception:
        try:
            p.nd(len(p.arr))
        except RefError as e:
            # NumPy can't do that either.
            raise core.Undefined(str(e))
        guarded('building the expression', p.build)
        fail('building the expression failed at first')


def full_key(k, size=None):
    return k[0] == 'e' or k[0] == 's' and k[1:4] == [None, None, None]


def ops_of(case):
    return sorted({n['op'] for n in case['nodes']} - {'src', 'const'})


def reaches(nodes, out):
    """The nodes which contribute to the given nodes."""
    seen = set()
    todo = list(out)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(operands(nodes[i]))
    return seen


def operands(node):
    return [j for j in (node.get('a'), node.get('b'))
            if isinstance(j, int)] + list(node.get('items', ()))


def check_node(p, i, masked, chunk, what):
    """Realise node i and compare with the reference.  False if no reference
    is defined for it."""
    try:
        want = p.ref(i, masked)
    except RefError:
        return None
    with chunk_limit(chunk):
        got = guarded('{}: realising'.format(what), realise, p.arr[i], masked)
    compare(got, want, masked, what, atol=p.err(i, masked))
    return want


def check_declared(p, i, want, what):
    a = p.arr[i]
    if tuple(a.shape) != want.shape:
        fail('{}: declared shape {} but realises to {}', what, a.shape,
             want.shape)
    if a.dtype != want.dtype:
        fail('{}: declared dtype {} but realises to {}', what, a.dtype,
             want.dtype)


def modes(case):
    m = case.get('masked', 'both')
    return (False, True) if m == 'both' else (m,)


# ------------------------------------------------------------ C01 - C03

def indexing(case):
    p = built(case)
    nt = False
    for i in case['out']:
        node = p.nodes[i]
        for masked in modes(case):
            what = 'node {} ({})'.format(i, 'masked' if masked else 'plain')
            want = check_node(p, i, masked, case.get('chunk'), what)
            if want is None:
                continue
            if node['op'] != 'idx':
                nt = nt or want.size > 0
                continue
            # The same again, from what the parent realises to.
            with chunk_limit(case.get('chunk')):
                parent = guarded('realising the parent', realise,
                                 p.arr[node['a']], masked)
                got = guarded('realising', realise, p.arr[i], masked)
            keys = decode_keys(node['keys'], node.get('bare'))
            compare(got, oindex(parent, keys), masked,
                    what + ' against its parent',
                    atol=2 * p.err(i, masked))
            if want.size and not all(full_key(k) for k in node['keys']):
                nt = True
            if case.get('iterate'):
                # What iterating gives is its selections.
                with chunk_limit(case.get('chunk')):
                    items = guarded('iterating', list, p.arr[i])
                    if len(items) != len(want):
                        fail('{}: iterating gave {} items, not {}', what,
                             len(items), len(want))
                    for k, item in enumerate(items):
                        got = guarded('an item', realise, item, masked)
                        compare(got, oindex(want, k), masked,
                                what + ' item %d' % k,
                                atol=p.err(i, masked))
    return {'nt': nt, 'labels': ops_of(case)}


@check('C01')
def c01(case):
    return indexing(case)


def _chain(array, histories, ref=False):
    for keys in histories:
        ks = decode_keys(keys)
        array = oindex(array, ks) if ref else array[ks]
    return array


@check('C02')
def c02(case):
    rec = Recorder()
    p = built(case, rec)
    conc = p.pristine[0]
    src = p.sources.get(0)
    kind = case['nodes'][0]['kind']
    hist = case['history']
    if case.get('init'):
        keys = decode_keys(hist[0], case['init'] == 'bare')
        a = guarded('wrapping', type(p.arr[0]), p.arr[0].concrete, keys)
        a = guarded('indexing', _chain, a, hist[1:])
    else:
        a = guarded('indexing', _chain, p.arr[0], hist)
    if rec.n_reads:
        fail('indexing read data: {}', rec.reads)
    nt = False
    for masked in (False, True):
        base = p.ref(0, masked)
        want = _chain(base, hist, ref=True)
        if src is not None:
            src.counts[...] = 0
            rec.reads = []
        got = guarded('realising masked={}'.format(masked), realise, a,
                      masked)
        compare(got, want, masked, 'masked={}'.format(masked))
        if tuple(a.shape) != want.shape:
            fail('declared shape {} != {}', a.shape, want.shape)
        if a.dtype != want.dtype:
            fail('declared dtype {} != {}', a.dtype, want.dtype)
        ids = _chain(np.arange(conc.size).reshape(conc.shape), hist, ref=True)
        wanted = np.zeros(conc.size, dtype=int)
        wanted[np.unique(ids)] = 1
        if src is not None and kind == 'ortho':
            if len(rec.reads) != 1:
                fail('{} reads for one realisation', len(rec.reads))
            if not np.array_equal(src.counts.reshape(-1), wanted):
                fail('elements read {} differ from those selected {}; keys '
                     '{}', np.nonzero(src.counts.reshape(-1))[0].tolist(),
                     np.nonzero(wanted)[0].tolist(), rec.reads[0][1])
        elif src is not None and np.any(src.counts.reshape(-1) < wanted):
            fail('selected elements were never read')
        nt = nt or want.size > 0
    keyed = any(not full_key(k) for ks in hist for k in ks)
    kinds = sorted({k[0] for ks in hist for k in ks})
    return {'nt': nt and keyed, 'labels': [kind, 'depth%d' % len(hist)] +
            ['key-' + k for k in kinds]}


@check('C03')
def c03(case):
    res = indexing(case)
    return res


# ------------------------------------------------------------ C04, C05

@check('C04')
def c04(case):
    p = built(case)
    nt = False
    for i in case['out']:
        want = check_node(p, i, False, case.get('chunk'), 'node %d' % i)
        if want is None:
            continue
        check_declared(p, i, want, 'node %d' % i)
        nt = nt or want.size > 0
    fns = sorted({n['fn'] for n in p.nodes if n['op'] in ('ew1', 'ew2')})
    return {'nt': nt and bool(fns), 'labels': fns}


@check('C05')
def c05(case):
    p = built(case)
    nt = False
    labels = set()
    for i in case['out']:
        try:
            want = p.ref(i, True)
        except RefError as e:
            if 'no masked operation' not in str(e):
                continue
            labels.add('refused')
            nt = True
            try:
                with chunk_limit(case.get('chunk')):
                    got = p.arr[i].masked_array()
            except TypeError:
                continue
            except Exception as e2:
                node = p.nodes[i]
                if node['op'] in ('ew1', 'ew2') and \
                        core.ma_fn(node['fn']) is None:
                    fail('node {}: expected TypeError, raised {!r}', i, e2)
                continue
            fail('node {}: no masked operation is defined, but gave {}', i,
                 describe(got))
        check_node(p, i, True, case.get('chunk'), 'node %d' % i)
        if want.size and ma.getmaskarray(want).any():
            nt = True
    labels |= {n['fn'] for n in p.nodes if n['op'] in ('ew1', 'ew2')}
    return {'nt': nt, 'labels': sorted(labels)}


# ------------------------------------------------------------ C06, C07

def n_chunks(shape, chunk):
    """1, or more if an array of the given shape exceeds the limit."""
    size = 1
    for s in shape:
        size *= s
    return 1 if chunk is None else max(1, -(-size // chunk))


def aggregation(case, masked):
    p = built(case)
    nt = False
    labels = []
    for i in case['out']:
        want = check_node(p, i, masked, case.get('chunk'), 'node %d' % i)
        if want is None:
            continue
        check_declared(p, i, want, 'node %d' % i)
        nt = nt or want.size > 0
    for n in p.nodes:
        if n['op'] == 'agg':
            labels.append(n['fn'])
            if n_chunks(p.arr[n['a']].shape, case.get('chunk')) > 1:
                labels.append('chunked')
            if n.get('kw'):
                labels.extend('%s' % k for k in n['kw'])
            try:
                src = p.ref(n['a'], masked)
            except RefError:
                continue
            if masked and not ma.getmaskarray(src).any():
                nt = False
    return {'nt': nt, 'labels': sorted(set(labels))}


@check('C06')
def c06(case):
    return aggregation(case, False)


@check('C07')
def c07(case):
    return aggregation(case, True)


# ------------------------------------------------------------ C08, C09

@check('C08')
def c08(case):
    p = built(case)
    nt = False
    labels = set()
    for i in case['out']:
        for masked in (False, True):
            try:
                p.ref(i, masked)
            except RefError:
                continue
            err = p.err(i, masked)
            with chunk_limit(None):
                base = guarded('unlimited', realise, p.arr[i], masked)
            for chunk in case['chunks']:
                what = 'node {} masked={} limit={}'.format(i, masked, chunk)
                with chunk_limit(chunk):
                    got = guarded(what, realise, p.arr[i], masked)
                    compare(got, base, masked, what, atol=2 * err)
                    # The reduction in chunks of a saved result.
                    target = (ma.masked_all if masked else np.empty)(
                        p.arr[i].shape, p.arr[i].dtype)
                    guarded(what + ' save', biggus.save, [p.arr[i]],
                            [target], masked=masked)
                compare(target, base, masked, what + ' saved',
                        atol=2 * err)
                if any(n_chunks(p.arr[j].shape, chunk) > 1
                       for j in reaches(p.nodes, [i])
                       if not isinstance(p.arr[j], np.ndarray)):
                    nt = True
                    labels.add('chunked')
    return {'nt': nt, 'labels': sorted(labels) + ops_of(case)}


@check('C09')
def c09(case):
    p = built(case)
    out = case['out']
    masked = case['masked']
    wants = []
    for i in out:
        try:
            wants.append(p.ref(i, masked))
        except RefError:
            return {'nt': False, 'labels': ['noref']}
    arrays = [p.arr[i] for i in out]
    joint_fn = biggus.masked_arrays if masked else biggus.ndarrays
    with chunk_limit(case.get('chunk')):
        joint = guarded('joint evaluation', joint_fn, arrays)
        if len(joint) != len(arrays):
            fail('{} results for {} arrays', len(joint), len(arrays))
        for k, i in enumerate(out):
            what = 'result {} (node {})'.format(k, i)
            compare(joint[k], wants[k], masked, what,
                    atol=p.err(i, masked))
            alone = guarded(what + ' alone', realise, p.arr[i], masked)
            compare(joint[k], alone, masked, what + ' against alone',
                    atol=2 * p.err(i, masked))
        again = guarded('joint evaluation, repeated', joint_fn, arrays)
        for k, i in enumerate(out):
            compare(again[k], wants[k], masked, 'repeated result %d' % k,
                    atol=p.err(i, masked))
    reach = [reaches(p.nodes, [i]) for i in out]
    shared = any(p.nodes[j]['op'] != 'const'
                 for x in range(len(out)) for y in range(x)
                 for j in reach[x] & reach[y])
    labels = ops_of(case) + ['chunk' if case.get('chunk') else 'whole']
    if len(set(out)) < len(out):
        labels.append('duplicates')
    return {'nt': shared, 'labels': labels}


# ------------------------------------------------------------ C10

@check('C10')
def c10(case):
    p = built(case)
    nt = False
    for i in range(len(p.nodes)):
        a = p.arr[i]
        if isinstance(a, np.ndarray):
            continue
        if len(p.nodes) > 6 and i not in case['out']:
            continue
        before = (tuple(a.shape), a.dtype, a.ndim, a.nbytes, str(a), repr(a),
                  biggus.size(a))
        for masked in (False, True):
            try:
                want = p.ref(i, masked)
            except RefError:
                continue
            what = 'node {} masked={}'.format(i, masked)
            with chunk_limit(case.get('chunk')):
                got = guarded(what, realise, a, masked)
            kind = ma.MaskedArray if masked else np.ndarray
            if not isinstance(got, kind) or \
                    not masked and isinstance(got, ma.MaskedArray):
                fail('{}: realised to a {}', what, type(got))
            if got is ma.masked:
                fail('{}: realised to the masked constant', what)
            if before[0] != got.shape:
                fail('{}: declared shape {} but realised {}', what,
                     before[0], got.shape)
            if before[1] != got.dtype:
                fail('{}: declared dtype {} but realised {}', what,
                     before[1], got.dtype)
            if before[1] != want.dtype:
                fail('{}: declared dtype {} but expected {}', what,
                     before[1], want.dtype)
            if before[2] != got.ndim or int(before[2]) != len(before[0]):
                fail('{}: declared ndim {} but realised {}', what, before[2],
                     got.ndim)
            if before[3] != got.nbytes:
                fail('{}: declared nbytes {} but realised {}', what,
                     before[3], got.nbytes)
            if not all(isinstance(s, (int, np.integer)) for s in before[0]):
                fail('{}: shape is not integers: {!r}', what, before[0])
            nt = nt or len(p.nodes) > 1
        after = (tuple(a.shape), a.dtype, a.ndim, a.nbytes, str(a), repr(a),
                 biggus.size(a))
        if after != before:
            fail('node {}: declarations changed from {} to {}', i, before,
                 after)
        dims = ', '.join(str(s) for s in a.shape)
        if 'shape=({})'.format(dims) not in str(a) or \
                repr(a.dtype) not in str(a):
            fail('node {}: misdescribed as {}', i, str(a))
    for i in case['out']:
        # The array protocol.
        try:
            want = p.ref(i, False)
        except RefError:
            continue
        got = guarded('np.asarray', np.asarray, p.arr[i])
        compare(got, want, False, 'np.asarray', atol=p.err(i, False))
        to = {'b': 'i2', 'u': 'f8', 'i': 'f8', 'f': 'c16'}.get(
            want.dtype.kind)
        if to:
            got = guarded('np.asarray', np.asarray, p.arr[i], dtype=to)
            compare(got, want.astype(to), False, 'np.asarray(dtype)',
                    atol=p.err(i, False))
    return {'nt': nt, 'labels': ops_of(case)}


# ------------------------------------------------------------ C11

NONE = frozenset()


class Provenance(Program):
    """The reference evaluation, of which source elements each depends on."""

    def prov(self, i):
        if not hasattr(self, '_prov'):
            self._prov = {}
        if i not in self._prov:
            self._prov[i] = self._provenance(i, self.nodes[i])
        return self._prov[i]

    def _provenance(self, i, node):
        op = node['op']
        if op in ('src', 'const'):
            shape = tuple(node['shape'])
            out = np.empty(shape, dtype=object)
            flat = out.reshape(-1)
            for k in range(out.size):
                flat[k] = frozenset([(i, k)]) if op == 'src' else NONE
            return out
        if op == 'idx':
            return oindex(self.prov(node['a']),
                          decode_keys(node['keys'], node.get('bare')))
        if op == 'T':
            a = self.prov(node['a'])
            return a.transpose(node.get('axes') or
                               list(range(a.ndim))[::-1])
        if op == 'bcast':
            a = self.prov(node['a'])
            shape = list(a.shape)
            for k, v in node['dims'].items():
                shape[int(k)] = v
            return np.broadcast_to(a, tuple(node.get('lead', ())) +
                                   tuple(shape))
        if op in ('astype', 'maskeq', 'ew1', 'box'):
            return self.prov(node['a'])
        if op in ('stack', 'mdstack'):
            items = [self.prov(j) for j in node['items']]
            shape = tuple(node['shape'])
            res = np.empty((len(items),) + items[0].shape, dtype=object)
            for k, it in enumerate(items):
                res[k] = it if it.ndim else it.reshape(1)[0]
            pos = np.arange(len(items)).reshape(
                shape, order=node.get('order', 'C').upper())
            return res[pos.reshape(-1)].reshape(shape + items[0].shape)
        if op == 'mosaic':
            return np.concatenate([self.prov(j) for j in node['items']],
                                  node['axis'])
        if op == 'ew2':
            ops = [self.prov(j) for j in (node['a'], node['b'])
                   if not isinstance(j, dict)]
            if len(ops) == 1:
                return ops[0]
            shape = np.broadcast(*ops).shape
            both = [np.broadcast_to(o, shape).reshape(-1) for o in ops]
            out = np.empty(len(both[0]), dtype=object)
            for k in range(len(out)):
                out[k] = both[0][k] | both[1][k]
            return out.reshape(shape)
        if op == 'agg':
            a = self.prov(node['a'])
            a = np.moveaxis(a, node['axis'], -1)
            lanes = a.reshape(-1, a.shape[-1])
            out = np.empty(lanes.shape[0], dtype=object)
            for k in range(len(out)):
                out[k] = NONE.union(*lanes[k].tolist())
            return out.reshape(a.shape[:-1])
        raise ValueError(op)


def describe_all(p):
    for a in p.arr:
        if isinstance(a, np.ndarray):
            continue
        (a.shape, a.dtype, a.ndim, a.nbytes, a.fill_value, str(a), repr(a),
         biggus.size(a))


@check('C11')
def c11(case):
    rec = Recorder()
    p = Provenance(case, rec, build=False)
    build(p)
    guarded('describing', describe_all, p)
    if rec.n_reads:
        fail('building or describing the arrays read data: {}',
             [(r[0], r[1]) for r in rec.reads[:5]])
    out = case['out']
    masked = case['masked']
    for i in out:
        try:
            p.ref(i, masked)
        except RefError:
            return {'nt': True, 'labels': ['lazy-only']}
    labels = ops_of(case) + [case['kind']]
    if case['kind'] == 'needed':
        i = out[0]
        needed = NONE.union(*p.prov(i).reshape(-1).tolist())
        if any(p.ref(j, masked).size == 0 for j in reaches(p.nodes, [i])):
            # What is broadcast to nothing, or stacked with nothing, may
            # still be read.
            return {'nt': False, 'labels': labels + ['empty']}
        with chunk_limit(case.get('chunk')):
            guarded('realising', realise, p.arr[i], masked)
        for s, src in p.sources.items():
            counts = src.counts.reshape(-1)
            for k in range(counts.size):
                if counts[k] and (s, k) not in needed:
                    fail('element {} of source {} was read, but does not '
                         'contribute to the result', k, s)
                if not counts[k] and (s, k) in needed:
                    fail('element {} of source {} contributes to the result '
                         'but was never read', k, s)
        total = builtins_sum(s.counts.size for s in p.sources.values())
        return {'nt': 0 < len(needed) < total, 'labels': labels}
    # Joint evaluation reads shared sources once.
    arrays = [p.arr[i] for i in out]
    with chunk_limit(case.get('chunk')):
        guarded('joint', biggus.masked_arrays if masked else biggus.ndarrays,
                arrays)
    used = reaches(p.nodes, out)
    for s, src in p.sources.items():
        if s in used and src.counts.size and \
                (src.counts.min(), src.counts.max()) != (1, 1):
            fail('elements of source {} were read between {} and {} times '
                 'for one joint evaluation', s, src.counts.min(),
                 src.counts.max())
        if s not in used and src.counts.any():
            fail('source {} was read but is not involved', s)
    uses = {}
    for i in set(out):
        for j in reaches(p.nodes, [i]):
            uses[j] = uses.get(j, 0) + 1
    return {'nt': any(uses.get(s, 0) > 1 for s in p.sources),
            'labels': labels}


def builtins_sum(it):
    n = 0
    for v in it:
        n += v
    return n


# ------------------------------------------------------------ C12

@check('C12')
def c12(case):
    if case['kind'] == 'ahead':
        return read_ahead(case)
    if case['kind'] == 'memory':
        return memory_use(case)
    rec = Recorder()
    p = built(case, rec)
    i = case['out'][0]
    masked = case['masked']
    limit = case['chunk']
    try:
        want = p.ref(i, masked)
    except RefError:
        return {'nt': False, 'labels': ['noref']}
    if any(p.ref(j, masked).size == 0 for j in reaches(p.nodes, [i])):
        # Nothing to divide.
        return {'nt': False, 'labels': ['empty']}
    with chunk_limit(limit):
        if case['how'] == 'save':
            target = (ma.masked_all if masked else np.empty)(want.shape,
                                                             want.dtype)
            guarded('save', biggus.save, [p.arr[i]], [target], masked=masked)
        elif case['how'] == 'joint':
            guarded('joint', biggus.masked_arrays if masked else
                    biggus.ndarrays, [p.arr[i]])
        else:
            guarded('realise', realise, p.arr[i], masked)
    for ident, keys, n in rec.reads:
        if n > limit:
            fail('a read of {} elements {} of source {} exceeds the limit of '
                 '{}', n, keys, ident, limit)
    big = any(src.counts.size > limit for src in p.sources.values())
    return {'nt': big and len(rec.reads) > 1,
            'labels': ops_of(case) + [case['how']]}


def read_ahead(case):
    """Two sources of different speeds feeding one operation."""
    n, depth, slow, delay = (case['n'], case['depth'], case['slow'],
                             case['delay'])
    order = []
    lock = threading.Lock()

    class Src(core.OrthoSource):
        def __getitem__(self, keys):
            if self.ident == slow:
                time.sleep(delay / 1000.0)
            with lock:
                order.append(self.ident)
            return core.OrthoSource.__getitem__(self, keys)

    rec = Recorder()
    step = case['width']
    srcs = [Src(k, np.arange(n * step, dtype=float).reshape(n, step), rec)
            for k in range(2)]
    ops = []
    for s, d in zip(srcs, depth):
        a = biggus.OrthoArrayAdapter(s)
        for _ in range(d):
            a = biggus.negative(a)
        ops.append(a)
    res = ops[0] + ops[1]
    if case['agg']:
        res = biggus.mean(res, axis=0)
    with chunk_limit(step):
        if case['masked']:
            got = guarded('evaluating', biggus.masked_arrays, [res])[0]
        else:
            got = guarded('evaluating', biggus.ndarrays, [res])[0]
    base = np.arange(n * step, dtype=float).reshape(n, step)
    want = (-1) ** depth[0] * base + (-1) ** depth[1] * base
    if case['agg']:
        want = want.mean(axis=0)
    compare(np.asarray(got), want, False, 'read-ahead result', atol=1e-9 * n)
    ahead = worst = 0
    for ident in order:
        ahead += 1 if ident != slow else -1
        worst = max(worst, ahead)
    # Each edge of the graph may hold a few chunks.
    allowed = 8 * (max(depth) + 2)
    if worst > allowed:
        fail('the faster source was read {} chunks ahead of the slower', worst)
    return {'nt': n > allowed, 'labels': ['ahead']}


def held(least):
    """How many elements there are in all the arrays of any size."""
    gc.collect()
    gc.collect()
    owners = {}
    for a in gc.get_objects():
        if isinstance(a, np.ndarray) and a.size >= least:
            while isinstance(a.base, np.ndarray):
                a = a.base
            owners[id(a)] = a.size
    return sum(owners.values())


class BulkSource(object):
    """Makes up its data; looks at what is in memory now and then."""
    ndim = 2

    def __init__(self, shape, masked, every=None, sizes=None):
        self.shape = shape
        self.dtype = np.dtype('f8')
        self.masked = masked
        self.every = every
        self.sizes = sizes
        self.n = 0

    def __getitem__(self, keys):
        self.n += 1
        if self.every and self.n % self.every == 0:
            self.sizes.append(held(self.shape[1]))
        rows = np.arange(self.shape[0])[:, np.newaxis] % 5 + 1.0
        out = oindex(np.broadcast_to(rows, self.shape), keys).copy()
        if self.masked:
            mask = oindex(np.broadcast_to(np.arange(self.shape[1]) < 2,
                                          self.shape), keys)
            out = ma.array(out, mask=mask.copy())
        return out


class Sink(object):
    def __init__(self):
        self.n = 0

    def __setitem__(self, keys, value):
        self.n += value.size


def memory_use(case):
    """The memory in use doesn't grow with the number of chunks."""
    n, width, masked = case['n'], case['width'], case['masked']
    sizes = []
    axis = case['axis']
    # One row to a chunk.
    srcs = [BulkSource((n, width), case['mask'])
            for k in range(case['srcs'])]
    srcs[0].every, srcs[0].sizes = n // 3 - 1, sizes
    a = None
    for s, depth in zip(srcs, case['depth']):
        b = biggus.OrthoArrayAdapter(s)
        for _ in range(depth):
            b = biggus.negative(b)
        a = b if a is None else a + b
    sink = None
    with chunk_limit(width):
        if case['fn'] == 'save':
            sink = Sink()
            guarded('save', biggus.save, [a], [sink], masked=masked)
            if sink.n != n * width:
                fail('{} elements saved instead of {}', sink.n, n * width)
        else:
            res = [getattr(biggus, fn)(a, axis=axis)
                   for fn in case['fn'].split('+')]
            got = guarded('evaluating', biggus.masked_arrays if masked else
                          biggus.ndarrays, res)
            sign = sum((-1) ** d for d, _ in zip(case['depth'], srcs))
            rows = np.arange(n) % 5 + 1.0
            for fn, r in zip(case['fn'].split('+'), got):
                want = getattr(np, fn)(sign * rows) if fn != 'count' else n
                if axis == 0 and not np.allclose(r[5:], want, atol=1e-9):
                    fail('{} is {!r} instead of {!r}', fn, r[5:8], want)
            del got, res
    # NB. There may be a few chunks on each edge of the graph.
    grown = (sizes[-1] - sizes[0]) / width
    if grown > n / 2:
        fail('after {} chunks there are {} more in memory than after {}',
             3 * srcs[0].every, grown, srcs[0].every)
    return {'nt': True, 'labels': ['memory']}


# ------------------------------------------------------------ C13

class TargetError(Exception):
    pass


class Target(object):
    fail_at = None
    failed = False

    def __init__(self, shape, dtype, masked, events):
        self.shape = shape
        self.counts = np.zeros(shape, dtype=int)
        self.data = np.zeros(shape, dtype=dtype)
        self.mask = np.zeros(shape, dtype=bool)
        self.masked = masked
        self.events = events

    def __setitem__(self, keys, value):
        if not isinstance(keys, tuple):
            keys = (keys,)
        for k in keys:
            if isinstance(k, (bool, np.bool_)) or \
                    not isinstance(k, (int, np.integer, slice)):
                fail('saved with the key {!r}', keys)
        part = self.counts[keys]
        if not isinstance(value, np.ndarray):
            fail('saved a {}', type(value))
        if self.masked != isinstance(value, ma.MaskedArray):
            fail('masked={} saved a {}', self.masked, type(value))
        if np.shape(part) != value.shape:
            fail('saved a chunk of shape {} to {} of shape {}', value.shape,
                 keys, np.shape(part))
        if self.fail_at is not None:
            if self.fail_at == 0:
                self.failed = True
                raise TargetError()
            self.fail_at -= 1
        self.counts[keys] += 1
        if self.masked:
            self.data[keys] = value.data
            self.mask[keys] = ma.getmaskarray(value)
        else:
            self.data[keys] = value
        self.events.append(('write', int(np.size(part))))


class EventRecorder(Recorder):
    def __init__(self, events):
        Recorder.__init__(self)
        self.events = events

    def on_read(self, source, keys, n):
        self.events.append(('read', n))
        return Recorder.on_read(self, source, keys, n)


def reads_per_element(p, i):
    """The most that computing one element of a node may read."""
    node = p.nodes[i]
    n = sum(reads_per_element(p, j) for j in operands(node))
    if node['op'] == 'src':
        n += 1
    elif node['op'] == 'agg':
        n *= max(1, p.arr[node['a']].shape[node['axis']])
    return n


@check('C13')
def c13(case):
    events = []
    p = built(case, EventRecorder(events))
    i = case['out'][0]
    masked = case['masked']
    try:
        want = p.ref(i, masked)
    except RefError:
        return {'nt': False, 'labels': ['noref']}
    a = p.arr[i]
    target = Target(want.shape, want.dtype, masked, events)
    limit = case.get('chunk')
    with chunk_limit(limit):
        if masked:
            kw = {'masked': True}
        else:
            kw = {'masked': False} if case.get('explicit') else {}
        if case.get('fail_at') is not None and want.size:
            # A target which can't be written to, to begin with.
            broken = Target(want.shape, want.dtype, masked, [])
            broken.fail_at = case['fail_at']
            try:
                biggus.save([a], [broken], **kw)
            except TargetError:
                done = broken.counts != 0
                if broken.counts.max() > 1:
                    fail('elements of the target were written {} times',
                         broken.counts.max())
                if done.all():
                    fail('writing more than there is to write')
            else:
                if broken.failed:
                    fail('a write failed, but the save did not')
                done = np.ones(want.shape, dtype=bool)
            part = ma.array(broken.data, mask=broken.mask) if masked \
                else broken.data
            done = done.reshape(-1)
            compare(part.reshape(-1)[done], want.reshape(-1)[done], masked,
                    'saved in part', atol=p.err(i, masked))
            del events[:]
        guarded('save', biggus.save, [a], [target], **kw)
    if target.counts.size and (target.counts.min(),
                               target.counts.max()) != (1, 1):
        fail('elements of the target were written between {} and {} times',
             target.counts.min(), target.counts.max())
    got = ma.array(target.data, mask=target.mask) if masked else target.data
    compare(got, want, masked, 'saved', atol=p.err(i, masked))
    writes = [e for e in events if e[0] == 'write']
    if limit:
        for _, n in writes:
            if n > limit:
                fail('a chunk of {} elements exceeds the limit of {}', n,
                     limit)
    # Nothing is read ahead of what is written.
    each = reads_per_element(p, i)
    recorded = all(isinstance(s, core.OrthoSource)
                   for s in p.sources.values())
    if recorded and want.size:
        held = 0
        for kind, n in events:
            if kind == 'read':
                held += n
            else:
                if held > each * n:
                    fail('{} elements were read to write {}, each of which '
                         'depends on at most {}', held, n, each)
                held = 0
    structural = all(p.nodes[j]['op'] in ('src', 'idx', 'T', 'const')
                     for j in reaches(p.nodes, [i]))
    if structural and all(s.__class__ is core.OrthoSource
                          for s in p.sources.values()):
        held = 0
        for kind, n in events:
            if kind == 'read':
                held += 1
                if held > 1:
                    fail('two chunks were read before one was written')
            else:
                held = 0
    return {'nt': len(writes) > 1, 'labels': ops_of(case) +
            ['masked' if masked else 'plain']}


# ------------------------------------------------------------ C14

def settle(baseline, patience=15.0):
    """Wait for evaluation threads to end."""
    end = time.time() + patience
    while time.time() < end:
        extra = [t for t in threading.enumerate() if t not in baseline]
        if not extra:
            return []
        time.sleep(0.002)
    return extra


@check('C14')
def c14(case):
    masked = case['masked']
    out = case['out']
    chunk = case.get('chunk')
    probe = built(case)
    undefined = case.get('undefined')
    try:
        wants = [probe.ref(i, masked) for i in out if i != undefined]
    except RefError:
        return {'nt': False, 'labels': ['noref']}

    def evaluate(p):
        arrays = [p.arr[i] for i in out]
        how = case['how']
        if how == 'joint':
            return (biggus.masked_arrays if masked else
                    biggus.ndarrays)(arrays)
        if how == 'save':
            res = []
            for a in arrays:
                target = (ma.masked_all if masked else np.zeros)(a.shape,
                                                                 a.dtype)
                biggus.save([a], [target], masked=masked)
                res.append(target)
            return res
        return [realise(a, masked) for a in arrays]

    baseline = set(threading.enumerate())
    if undefined is not None:
        with chunk_limit(chunk):
            try:
                got = evaluate(probe)
            except Exception:
                pass
            else:
                fail('an expression which cannot be computed '
                     'was evaluated: {}', [describe(g) for g in got
                                           if isinstance(g, np.ndarray)])
            extra = settle(baseline)
            if extra:
                fail('{} evaluation threads remain after a failure ({})',
                     len(extra), [t.name for t in extra][:6])
            for i, want in zip([i for i in out if i != undefined], wants):
                compare(guarded('afterwards', realise, probe.arr[i], masked),
                        want, masked, 'node %d afterwards' % i,
                        atol=probe.err(i, masked))
        return {'nt': len(out) > 1,
                'labels': ops_of(case) + [case['how'], 'undefined']}
    with chunk_limit(chunk):
        guarded('evaluation without a fault', evaluate, probe)
        if settle(baseline):
            fail('threads remain after a successful evaluation')
        total = probe.rec.n_reads
        if total == 0:
            return {'nt': False, 'labels': ['no-reads']}
        k = case['fault'] % total
        rec = Recorder(fault_at=k, fault_kind=case['fault_kind'])
        p = built(case, rec)
        try:
            got = evaluate(p)
        except BaseException as e:
            error = e
        else:
            error = None
        if rec.n_reads > k and error is None:
            fail('read {} of {} failed with {}, but the evaluation returned '
                 '{}', k, total, case['fault_kind'],
                 [describe(g) if isinstance(g, np.ndarray) else g
                  for g in got])
        if error is None:
            # The reads of this run did not include the one to fail.
            fail('only {} of {} reads happened', rec.n_reads, total)
        extra = settle(baseline)
        if extra:
            fail('{} evaluation threads remain after a failure ({})',
                 len(extra), [t.name for t in extra][:6])
        rec.armed = False
        again = guarded('evaluating again', evaluate, p)
        for i, got, want in zip(out, again, wants):
            compare(got, want, masked, 'node %d evaluated again' % i,
                    atol=p.err(i, masked))
        # And afterwards something new.
        fresh = biggus.mean(biggus.NumpyArrayAdapter(np.arange(6.)) + 1,
                            axis=0)
        if fresh.ndarray() != 3.5:
            fail('a later evaluation is wrong')
    return {'nt': total > 1, 'labels': ops_of(case) + [
        case['how'], case['fault_kind'],
        'fault-first' if k == 0 else
        'fault-last' if k == total - 1 else 'fault-middle']}


# ------------------------------------------------------------ C15

@check('C15')
def c15(case):
    masked = case['masked']
    out = case['out']
    rec = Recorder(delays=case['delays'])
    p = built(case, rec)
    try:
        wants = {i: p.ref(i, masked) for i in out}
    except RefError:
        return {'nt': False, 'labels': ['noref']}
    for i in out:
        p.err(i, masked)
    results = []
    lock = threading.Lock()
    start = threading.Event()

    def work(request):
        start.wait()
        how = None
        if isinstance(request, dict):
            how, request = request['how'], request['r']
        try:
            arrays = [p.arr[i] for i in request]
            if how == 'rebuild':
                # The same again, of the same operands.
                arrays = [a if p.nodes[i]['op'] == 'src' else
                          p._build(i, p.nodes[i])
                          for i, a in zip(request, arrays)]
            if how == 'describe':
                for a, i in zip(arrays, request):
                    text = str(a), repr(a), biggus.size(a)
                    if (a.shape, a.ndim, a.nbytes) != (
                            wants[i].shape, wants[i].ndim, wants[i].nbytes):
                        fail('node {} declares {}, but its shape is {}', i,
                             text, wants[i].shape)
                got = []
            elif how == 'save':
                got = []
                for a, i in zip(arrays, request):
                    target = (ma.masked_all if masked else np.zeros)(
                        wants[i].shape, wants[i].dtype)
                    biggus.save([a], [target], masked=masked)
                    got.append(target)
            elif len(arrays) == 1 or how == 'each':
                got = [realise(a, masked) for a in arrays]
            else:
                got = (biggus.masked_arrays if masked else
                       biggus.ndarrays)(arrays)
        except BaseException as e:
            got = e
        with lock:
            results.append((request, got))

    requests = case['requests']
    old = sys.getswitchinterval() if hasattr(sys, 'getswitchinterval') \
        else None
    threads = [threading.Thread(target=work, args=(r,)) for r in requests]
    try:
        if old is not None:
            sys.setswitchinterval(case['switch'])
        with chunk_limit(case.get('chunk')):
            for t in threads:
                t.daemon = True
                t.start()
            start.set()
            for t in threads:
                t.join(40)
            if any(t.is_alive() for t in threads):
                fail('hang: an evaluation has not finished')
    finally:
        if old is not None:
            sys.setswitchinterval(old)
    for request, got in results:
        if isinstance(got, CheckFailure):
            raise got
        if isinstance(got, BaseException):
            fail('request {}: raised {!r}', request, got)
        for i, g in zip(request, got):
            compare(g, wants[i], masked, 'request {} node {}'.format(
                request, i), atol=p.err(i, masked))
    return {'nt': rec.n_reads > 1, 'labels': [
        'threads%d' % len(requests),
        'delayed' if any(case['delays']) else 'immediate'] +
        (['preempted'] if case.get('trace') else []) + sorted(
            {r['how'] for r in requests if isinstance(r, dict)}) +
        ops_of(case)}


# ------------------------------------------------------------ C16

@check('C16')
def c16(case):
    if case['kind'] == 'group':
        return key_groups(case)
    from biggus.experimental.dask_engine import DaskEngine
    import dask.threaded
    p = built(case)
    masked = case['masked']
    out = case['out']
    try:
        wants = [p.ref(i, masked) for i in out]
    except RefError:
        return {'nt': False, 'labels': ['noref']}
    arrays = [p.arr[i] for i in out]
    getter = {'threaded': None, 'sync': dask.get}[case['getter']]
    if getter is None and case.get('trace'):
        # New threads, which can be preempted.
        pool = ThreadPoolExecutor(4)
        weakref.finalize(p, pool.shutdown, wait=False)

        def getter(graph, keys):
            # NB. An evaluation within an evaluation needs other threads.
            main = threading.current_thread() is threading.main_thread()
            return dask.threaded.get(graph, keys, pool=pool if main else None)
    engine = DaskEngine(getter)
    with chunk_limit(case.get('chunk')):
        base = guarded('threaded engine', biggus.masked_arrays if masked
                       else biggus.ndarrays, arrays)
        got = guarded('dask engine', engine.masked_arrays if masked
                      else engine.ndarrays, *arrays)
        if len(got) != len(arrays):
            fail('{} results for {} arrays', len(got), len(arrays))
        for k, i in enumerate(out):
            compare(got[k], wants[k], masked, 'dask result %d' % k,
                    atol=p.err(i, masked))
            compare(got[k], base[k], masked, 'dask result %d against the '
                    'threaded engine' % k, atol=2 * p.err(i, masked))
        if case.get('default'):
            # As the engine that is used by default.
            old = biggus.engine
            biggus.engine = engine
            try:
                got = guarded('default engine', biggus.masked_arrays if masked
                              else biggus.ndarrays, arrays)
            finally:
                biggus.engine = old
            for k, i in enumerate(out):
                compare(got[k], wants[k], masked, 'default result %d' % k,
                        atol=p.err(i, masked))
    chunked = any(n_chunks(p.arr[j].shape, case.get('chunk')) > 1
                  for j in reaches(p.nodes, out)
                  if not isinstance(p.arr[j], np.ndarray))
    return {'nt': all(w.size for w in wants),
            'labels': ops_of(case) + ['chunked' if chunked else 'whole']}


def cut(length, points, style):
    if points and points[0] == 'every':
        points = range(points[2], length, points[1])
    edges = sorted({0, length} | {q for q in points if 0 < q < length})
    out = []
    for lo, hi in zip(edges, edges[1:]):
        if style and lo == 0:
            lo = None
        if style and hi == length:
            hi = None
        out.append(slice(lo, hi))
    return out


def slice_ids(s, length):
    return list(range(*s.indices(length)))


def key_groups(case):
    from biggus.experimental import key_grouper
    length = case['length']
    inputs = [cut(length, pts, style) for pts, style in case['cuts']]
    orders = [list(inp) for inp in inputs]
    for keys, perm in zip(orders, case['perms']):
        ranked = sorted(range(len(keys)), key=lambda j: perm[j % len(perm)])
        keys[:] = [keys[j] for j in ranked]
    groups = guarded('grouping', key_grouper.dimension_group_to_lowest_common,
                     length, [list(k) for k in orders])
    common = set(range(0, length + 1))
    for keys in orders:
        common &= {slice_ids(s, length)[0] for s in keys} | {length}
    edges = sorted(common)
    want = list(zip(edges, edges[1:]))
    got = []
    for (lo, hi, step), per_input in groups.items():
        rng = slice_ids(slice(lo, hi, step), length)
        got.append((rng[0], rng[-1] + 1))
        if len(per_input) != len(orders):
            fail('group {} has {} inputs', (lo, hi), len(per_input))
        for keys, all_keys in zip(per_input, orders):
            ids = []
            for s in keys:
                ids += slice_ids(s, length)
            if sorted(ids) != rng:
                fail('group {} of length {} has keys {} for {}', (lo, hi),
                     length, keys, all_keys)
    if sorted(got) != want:
        fail('groups {} are not the common pieces {} of {}', sorted(got),
             want, orders)
    return {'nt': len(want) > 1, 'labels': ['group']}


# ------------------------------------------------------------ C17

def snapshot(p):
    out = {}
    for i, c in p.concrete.items():
        if ma.isMaskedArray(c):
            out[i] = (np.array(c.data), ma.getmaskarray(c).copy(),
                      c._mask is ma.nomask, np.array(c.fill_value),
                      c.dtype, c.shape)
        else:
            out[i] = (np.array(c), None, None, None, c.dtype, c.shape)
    return out


def same_snapshot(x, y):
    for u, v in zip(x, y):
        if isinstance(u, np.ndarray):
            if u.dtype != v.dtype or u.shape != v.shape or \
                    u.tobytes() != v.tobytes():
                return False
        elif u != v:
            return False
    return True


@check('C17')
def c17(case):
    p = built(case)
    state = snapshot(p)
    meta = {}

    def declared(a):
        return (tuple(a.shape), a.dtype, repr(a),
                getattr(a, '_keys', None))

    for i, a in enumerate(p.arr):
        if not isinstance(a, np.ndarray):
            meta[i] = declared(a)

    def verify(what):
        for i, c in p.concrete.items():
            now = snapshot(p)[i]
            if not same_snapshot(state[i], now):
                fail('{}: source {} changed from {} to {}', what, i,
                     state[i], now)
        for i, m in meta.items():
            if declared(p.arr[i]) != m:
                fail('{}: array {} changed from {} to {}', what, i, m,
                     declared(p.arr[i]))

    nt = 0
    for step, act in enumerate(case['history']):
        kind = act[0]
        what = 'step {} {}'.format(step, act)
        with chunk_limit(act[-1]):
            if kind == 'realise':
                i, masked = act[1], act[2]
                try:
                    want = p.ref(i, masked)
                except RefError:
                    continue
                got = guarded(what, realise, p.arr[i], masked)
                compare(got, want, masked, what, atol=p.err(i, masked))
            elif kind == 'joint':
                ids, masked = act[1], act[2]
                try:
                    wants = [p.ref(i, masked) for i in ids]
                except RefError:
                    continue
                gots = guarded(what, biggus.masked_arrays if masked else
                               biggus.ndarrays, [p.arr[i] for i in ids])
                for i, got, want in zip(ids, gots, wants):
                    compare(got, want, masked, what, atol=p.err(i, masked))
            elif kind == 'save':
                i, masked = act[1], act[2]
                try:
                    want = p.ref(i, masked)
                except RefError:
                    continue
                target = (ma.masked_all if masked else np.zeros)(want.shape,
                                                                 want.dtype)
                guarded(what, biggus.save, [p.arr[i]], [target],
                        masked=masked)
                compare(target, want, masked, what, atol=p.err(i, masked))
            elif kind == 'describe':
                describe_all(p)
            elif kind == 'spoil':
                p.spoil()
            elif kind == 'copy':
                i = act[1]
                try:
                    want = p.ref(i, act[2])
                except RefError:
                    continue
                dup = guarded(what, copy.deepcopy if act[3] else copy.copy,
                              p.arr[i])
                got = guarded(what, realise, dup, act[2])
                compare(got, want, act[2], what, atol=p.err(i, act[2]))
            nt += 1
            verify(what)
    if case.get('stack'):
        stack_independence(case['stack'], p)
        verify('assigning into a stack')
    return {'nt': nt > 1, 'labels': sorted({h[0] for h in case['history']}) +
            ops_of(case) + (['stack-assign'] if case.get('stack') else [])}


def stack_independence(spec, p):
    """Selections and deep copies of a stack, and later assignments to it."""
    shape, item_shape = tuple(spec['shape']), tuple(spec['item'])
    n = int(np.prod(shape, dtype=int))

    def piece(v):
        return biggus.NumpyArrayAdapter(
            (np.arange(np.prod(item_shape, dtype=int)) +
             100 * v).reshape(item_shape))

    def content(v):
        return (np.arange(np.prod(item_shape, dtype=int)) +
                100 * v).reshape(item_shape)

    arr = np.empty(n, dtype=object)
    for k in range(n):
        arr[k] = piece(k)
    st = biggus.ArrayStack(arr.reshape(shape))
    vals = list(range(n))

    def whole(vs):
        return np.array([content(v) for v in vs]).reshape(shape + item_shape)

    keys = decode_keys(spec['keys'])
    dup = copy.deepcopy(st)
    part = guarded('indexing a stack', st.__getitem__, keys)
    before = whole(vals)
    wants = [('copy', dup, before), ('selection', part, oindex(before, keys))]
    for j, (pos, v) in enumerate(spec['assign']):
        index = np.unravel_index(pos % n, shape)
        index = tuple(int(x) - (s if neg else 0) for x, s, neg in
                      zip(index, shape, spec['neg']))
        guarded('assigning', st.__setitem__, index, piece(1000 + v))
        vals[pos % n] = 1000 + v
        compare(guarded('realise', st.ndarray), whole(vals), False,
                'the stack after assignment %d' % j)
        for name, a, want in wants:
            compare(guarded('realise', a.ndarray), want, False,
                    '{} after assignment {}'.format(name, j))
    if spec.get('nest'):
        # A stack of stacks, one of which is assigned to.
        inner = [biggus.ArrayStack(core.object_array(
            [piece(k), piece(k + 1)])) for k in range(n)]
        outer = biggus.ArrayStack(core.object_array(inner).reshape(shape))
        nested = copy.deepcopy(outer)
        want = np.array([[content(k), content(k + 1)] for k in range(n)])
        want = want.reshape(shape + (2,) + item_shape)
        compare(guarded('realise', outer.ndarray), want, False,
                'a stack of stacks')
        pos, j = spec['nest'][0] % n, spec['nest'][1] % 2
        guarded('assigning', inner[pos].__setitem__, (j,), piece(3000))
        compare(guarded('realise', nested.ndarray), want, False,
                'a copy of a stack of stacks after an assignment to one of '
                'them')
    # A copy can be assigned to without changing the original.
    guarded('assigning', dup.__setitem__, (0,) * len(shape), piece(5000))
    compare(st.ndarray(), whole(vals), False, 'after assigning to the copy')


# ------------------------------------------------------------ C18

def bad_request(a, req, p):
    """Perform the request; returns the result."""
    t = req['t']
    if t == 'index':
        keys = decode_keys(req['keys'], req.get('bare'))
        if req.get('init'):
            # A data source, wrapped with keys.
            return type(a)(a.concrete, keys)
        return a[keys]
    if t == 'agg':
        return getattr(biggus, req['fn'])(a, axis=decode_axis(req['axis']))
    if t == 'transpose':
        return a.transpose(req['axes'])
    if t == 'operand':
        other = biggus.NumpyArrayAdapter(np.zeros(tuple(req['shape'])))
        if req['flip']:
            return biggus.add(other, a)
        if req['op']:
            return a + other
        return getattr(biggus, req['fn'])(a, other)
    if t == 'operand-type':
        other = {'list': [1, 2], 'none': object(), 'dict': {}}[req['v']]
        return getattr(biggus, req['fn'])(a, other)
    if t == 'stack':
        other = biggus.zeros(tuple(req['shape']), dtype=req['dtype'])
        items = [a, other] if not req['flip'] else [other, a]
        st = np.empty(2, dtype=object)
        st[0], st[1] = items
        if req.get('set'):
            stack = biggus.ArrayStack(st[[0, 0]])
            p.declared = stack.shape, stack.dtype
            try:
                stack[(1,)] = st[1]
            finally:
                if stack[1].shape != items[0].shape or \
                        (stack.shape, stack.dtype) != p.declared:
                    fail('a refused assignment changed the stack')
            return stack
        if req['md']:
            return biggus.ArrayStack.multidim_array_stack(st, (2, 1))
        return biggus.ArrayStack(st)
    if t == 'stack-size':
        st = np.empty(req['n'], dtype=object)
        for k in range(req['n']):
            st[k] = a
        return biggus.ArrayStack.multidim_array_stack(st, tuple(req['shape']))
    if t == 'mosaic':
        other = biggus.zeros(tuple(req['shape']), dtype=req['dtype'])
        items = [a, other] if not req['flip'] else [other, a]
        return biggus.LinearMosaic(items, req['axis'])
    if t == 'mosaic-axis':
        return biggus.LinearMosaic([a, a], req['axis'])
    if t == 'const':
        fn = biggus.ConstantArray if req['fn'] == 'const' else \
            getattr(biggus, req['fn'])
        return fn(tuple(req['shape']))
    if t == 'bcast':
        return biggus.BroadcastArray(a, {int(k): v for k, v in
                                         req['dims'].items()},
                                     tuple(req['lead']))
    raise ValueError(t)


def decode_axis(ax):
    if isinstance(ax, list):
        return tuple(ax)
    return ax


REFUSALS = (IndexError, ValueError, TypeError, NotImplementedError,
            biggus.AxisSupportError)


@check('C18')
def c18(case):
    rec = Recorder()
    p = built(case, rec)
    a = p.arr[case['out'][0]]
    req = case['request']
    try:
        res = bad_request(a, req, p)
    except REFUSALS as e:
        if isinstance(e, RecursionError if sys.version_info[0] > 2
                      else RuntimeError):
            fail('recursion')
        refused = True
    except AssertionError as e:
        # How min, max and sum refuse other than a single axis.
        if req['t'] != 'agg' or req['why'] not in ('none', 'several'):
            fail('{}: raised {}: {}', req, type(e).__name__, e)
    except BaseException as e:
        fail('{}: raised {}: {}', req, type(e).__name__, e)
    else:
        try:
            text = repr(res)
        except Exception as e:
            text = 'a broken array: %r' % e
        fail('{} on {!r} was accepted and gave {}', req, a, text)
    if rec.n_reads:
        fail('{}: refused only after reading data', req)
    return {'nt': True, 'labels': [req['t'], req.get('why', '')] +
            ops_of(case)}


# ------------------------------------------------------------ C19

def default_fill(dtype):
    return ma.empty(0, dtype=dtype).fill_value


def same_fill(x, y, dtype):
    # NumPy keeps some fill values in a wider type than the data.
    x, y = np.asarray(x).astype(dtype), np.asarray(y).astype(dtype)
    if dtype.kind in 'mM':
        return bool(x.astype('i8') == y.astype('i8'))
    if x.dtype.kind in 'fc' and y.dtype.kind in 'fc':
        return bool((x == y) | (np.isnan(x) & np.isnan(y)))
    return bool(x == y)


def ref_fill(p, i):
    """The fill value node i should declare, or None if unspecified."""
    node = p.nodes[i]
    op = node['op']
    if op == 'src':
        c = p.pristine[i]
        return c.fill_value if ma.isMaskedArray(c) else default_fill(c.dtype)
    if op == 'const':
        return default_fill(p.arr[i].dtype)
    if op == 'idx':
        inner = p.nodes[node['a']]
        while inner['op'] == 'idx':
            inner = p.nodes[inner['a']]
        if inner['op'] != 'src' or any(
                k[0] == 'n' for j in idx_path(p, i)
                for k in p.nodes[j]['keys']):
            return None
        return ref_fill(p, node['a'])
    if op in ('stack', 'mdstack', 'mosaic'):
        fills = [ref_fill(p, j) for j in node['items']]
        if any(f is None for f in fills):
            return None
        if all(same_fill(f, fills[0], p.arr[i].dtype) for f in fills):
            return fills[0]
        return default_fill(p.arr[i].dtype)
    return None


def idx_path(p, i):
    out = []
    while p.nodes[i]['op'] == 'idx':
        out.append(i)
        i = p.nodes[i]['a']
    return out


@check('C19')
def c19(case):
    p = built(case)
    nt = False
    labels = set(ops_of(case))
    for i in case['out']:
        plain = check_node(p, i, False, case.get('chunk'), 'plain %d' % i)
        masked = check_node(p, i, True, case.get('chunk'), 'masked %d' % i)
        fill = ref_fill(p, i)
        if masked is not None and ma.getmaskarray(masked).any():
            nt = True
        if fill is None:
            continue
        a = p.arr[i]
        if not same_fill(a.fill_value, fill, a.dtype):
            fail('node {}: declared fill value {!r}, expected {!r}', i,
                 a.fill_value, fill)
        got = guarded('masked', a.masked_array)
        if not same_fill(got.fill_value, fill, a.dtype):
            fail('node {}: realised fill value {!r}, expected {!r}', i,
                 got.fill_value, fill)
        labels.add('fill')
    return {'nt': nt, 'labels': sorted(labels)}


# ------------------------------------------------------------ C20

@check('C20')
def c20(case):
    import c20 as impl
    return impl.run(case, guarded, compare, fail)

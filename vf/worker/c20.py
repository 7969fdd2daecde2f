"""
C20: huge virtual arrays.  The reference never holds an array: each node is a
function from the positions asked for (one integer vector per dimension) to
the values there, so it is exact for any shape.
"""
import math
import resource

import numpy as np
import numpy.ma as ma

import biggus
from core import (Program, RefError, decode_keys, decode_value, expand_keys, is_py_number, ma_fn,
                  np_fn, scalar_of)

HEADROOM = 1500 << 20


def vm_size():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[0]) * resource.getpagesize()


class limited(object):
    """Lower the address space limit, so that a big allocation fails."""
    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS,
                           (vm_size() + HEADROOM, self.old[1]))

    def __exit__(self, *exc):
        resource.setrlimit(resource.RLIMIT_AS, self.old)


class Lazy(object):
    """A shape, and the values (and mask) at given positions."""
    def __init__(self, shape, at):
        self.shape = tuple(shape)
        self.at = at

    def small(self, masked):
        """The whole contents, for a small shape."""
        n = 1
        for s in self.shape:
            n *= s
        grid = np.indices(self.shape).reshape(len(self.shape), n)
        vals = self.at(tuple(grid), n, masked)
        return vals.reshape(self.shape)


def lazy(p, i, memo):
    if i not in memo:
        memo[i] = _lazy(p, i, memo)
    return memo[i]


def _lazy(p, i, memo):
    node = p.nodes[i]
    op = node['op']
    if op == 'src':
        base = {m: p.ref(i, m) for m in (False, True)}
        shape = base[False].shape
        return Lazy(shape, lambda idx, n, m: base[m][idx] if shape else
                    _spread(base[m], n))
    if op == 'const':
        v = np.array([decode_value(node['value'])], dtype=node['dtype'])
        return Lazy(node['shape'], lambda idx, n, m: _spread(
            ma.array(v) if m else v, n))
    if op == 'idx':
        a = lazy(p, node['a'], memo)
        keys = expand_keys(decode_keys(node['keys'], node.get('bare')),
                           len(a.shape))
        shape, plan, ax = [], [], 0
        for k in keys:
            if k is None:
                shape.append(1)
                continue
            size = a.shape[ax]
            ax += 1
            if isinstance(k, (int, np.integer)):
                plan.append((None, int(k) % size))
                continue
            if isinstance(k, slice):
                start, stop, step = k.indices(size)
                plan.append((len(shape), (start, step)))
                shape.append(len(range(start, stop, step)))
            else:
                if isinstance(k, np.ndarray) and k.dtype == bool:
                    k = np.nonzero(k)[0]
                table = np.array([int(j) % size for j in k], dtype='i8')
                plan.append((len(shape), table))
                shape.append(len(table))

        def at(idx, n, m):
            out = []
            for dim, how in plan:
                if dim is None:
                    out.append(np.full(n, how, dtype='i8'))
                elif isinstance(how, tuple):
                    out.append(how[0] + how[1] * idx[dim].astype('i8'))
                else:
                    out.append(how[idx[dim]])
            return a.at(tuple(out), n, m)
        return Lazy(shape, at)
    if op == 'T':
        a = lazy(p, node['a'], memo)
        axes = node.get('axes') or list(range(len(a.shape)))[::-1]
        axes = [k % len(axes) for k in axes]
        inverse = [axes.index(k) for k in range(len(axes))]
        return Lazy([a.shape[k] for k in axes],
                    lambda idx, n, m: a.at(tuple(idx[k] for k in inverse),
                                           n, m))
    if op == 'bcast':
        a = lazy(p, node['a'], memo)
        shape = list(a.shape)
        for k, v in node['dims'].items():
            shape[int(k)] = v
        lead = list(node['lead'])
        return Lazy(lead + shape, _stretch(a, len(lead), node['dims']))
    if op in ('astype', 'maskeq', 'ew1'):
        a = lazy(p, node['a'], memo)
        if op == 'astype':
            return Lazy(a.shape, lambda idx, n, m: a.at(idx, n, m).astype(
                node['dtype']))
        if op == 'maskeq':
            def at(idx, n, m):
                v = a.at(idx, n, m)
                if m:
                    v = ma.array(v.data, mask=ma.getmaskarray(v) | np.asarray(
                        v.data == decode_value(node['value'])))
                return v
            return Lazy(a.shape, at)
        return Lazy(a.shape, lambda idx, n, m: _fn(node, m)(
            a.at(idx, n, m)))
    if op == 'ew2':
        ops = []
        for x in (node['a'], node['b']):
            ops.append(scalar_of(x) if isinstance(x, dict)
                       else lazy(p, x, memo))
        nd = max(len(o.shape) for o in ops if isinstance(o, Lazy))
        shape = [1] * nd
        for o in ops:
            if isinstance(o, Lazy):
                for k, s in enumerate(o.shape):
                    if s != 1:
                        shape[nd - len(o.shape) + k] = s

        def at(idx, n, m):
            args = []
            for o in ops:
                if isinstance(o, Lazy):
                    skip = nd - len(o.shape)
                    dims = [k for k, s in enumerate(o.shape) if s == 1]
                    args.append(_stretch(o, skip, dims)(idx, n, m))
                elif args and is_py_number(o):
                    # A Python number on the right has no type of its own.
                    args.append(o)
                else:
                    args.append(_spread(np.array([o]), n))
            return _fn(node, m)(*args)
        return Lazy(shape, at)
    if op in ('stack', 'mdstack'):
        items = [lazy(p, j, memo) for j in node['items']]
        ss = tuple(node['shape'])
        pos = np.arange(len(items)).reshape(
            ss, order=node.get('order', 'C').upper())

        def at(idx, n, m):
            which = pos[tuple(idx[:len(ss)])]
            parts = [it.at(idx[len(ss):], n, m) for it in items]
            return _choose(parts, which, n, m)
        return Lazy(ss + items[0].shape, at)
    if op == 'mosaic':
        items = [lazy(p, j, memo) for j in node['items']]
        axis = node['axis']
        edges = [0]
        for it in items:
            edges.append(edges[-1] + it.shape[axis])
        shape = list(items[0].shape)
        shape[axis] = edges[-1]

        def at(idx, n, m):
            which = np.searchsorted(np.array(edges[1:]), idx[axis], 'right')
            parts = []
            for k, it in enumerate(items):
                inner = np.clip(idx[axis] - edges[k], 0, it.shape[axis] - 1)
                sub = idx[:axis] + (inner,) + idx[axis + 1:]
                parts.append(it.at(sub, n, m))
            return _choose(parts, which, n, m)
        return Lazy(shape, at)
    if op == 'agg':
        a = lazy(p, node['a'], memo)
        axis = node['axis'] % len(a.shape)
        length = a.shape[axis]

        def at(idx, n, m):
            cols = [a.at(idx[:axis] + (np.full(n, k, dtype='i8'),) +
                         idx[axis:], n, m) for k in range(length)]
            if m:
                block = ma.array([c.data for c in cols],
                                 mask=[ma.getmaskarray(c) for c in cols])
                block = block.reshape(length, n)
            else:
                block = np.array(cols).reshape(length, n)
            return p._agg({'fn': node['fn'], 'axis': 0,
                           'kw': node.get('kw', {})}, block, m)
        return Lazy(a.shape[:axis] + a.shape[axis + 1:], at)
    raise ValueError(op)


def _fn(node, masked):
    fn = (ma_fn if masked else np_fn)(node['fn'])
    if fn is None:
        raise RefError(TypeError('no masked operation'))
    return fn


def _spread(v, n):
    out = np.empty(n, dtype=v.dtype)
    if ma.isMaskedArray(v):
        out[...] = v.data.reshape(-1)[0]
        return ma.array(out, mask=np.full(n, bool(
            ma.getmaskarray(v).reshape(-1)[0])))
    out[...] = v.reshape(-1)[0]
    return out


def _stretch(a, skip, dims):
    dims = set(int(k) for k in dims)

    def at(idx, n, m):
        idx = tuple(np.zeros(n, dtype='i8') if k in dims else v
                    for k, v in enumerate(idx[skip:]))
        return a.at(idx, n, m)
    return at


def _choose(parts, which, n, m):
    out = np.empty(n, dtype=parts[0].dtype)
    mask = np.zeros(n, dtype=bool)
    for k, part in enumerate(parts):
        sel = which == k
        out[sel] = (part.data if m else part)[sel]
        if m:
            mask[sel] = ma.getmaskarray(part)[sel]
    return ma.array(out, mask=mask) if m else out


def size_text(nbytes):
    for k, unit in enumerate(['B', 'KiB', 'MiB', 'GiB']):
        if nbytes < 1 << (10 * (k + 1)):
            break
    else:
        k, unit = 4, 'TiB'
    if k == 0:
        return '{} B'.format(nbytes)
    return '{:.02f} {}'.format(float(nbytes) / (1 << (10 * k)), unit)


def run(case, guarded, compare, fail):
    p = Program(case, build=False)
    memo = {}
    with limited():
        guarded('building', p.build)
        big = False
        for i, a in enumerate(p.arr):
            want = lazy(p, i, memo)
            count = 1
            for s in want.shape:
                count *= s
            big = big or count >= 1 << 31
            if tuple(a.shape) != want.shape:
                fail('node {}: declared shape {}, expected {}', i, a.shape,
                     want.shape)
            if a.ndim != len(want.shape):
                fail('node {}: declared ndim {}', i, a.ndim)
            nbytes = count * a.dtype.itemsize
            if a.nbytes != nbytes:
                fail('node {}: declared nbytes {}, expected {}', i, a.nbytes,
                     nbytes)
            if guarded('size', biggus.size, a) != size_text(nbytes):
                fail('node {}: described as {}, expected {}', i,
                     biggus.size(a), size_text(nbytes))
            guarded('describing', lambda: (str(a), repr(a), a.fill_value))
        for i in case['out']:
            want = memo[i]
            for masked in (False, True):
                try:
                    ref = want.small(masked)
                except RefError:
                    continue
                what = 'node {} masked={}'.format(i, masked)
                got = guarded(what, p.arr[i].masked_array if masked
                              else p.arr[i].ndarray)
                compare(got, ref, masked, what, rtol=1e-5, atol=1e-6)
                if p.arr[i].dtype != ref.dtype:
                    fail('{}: declared dtype {}, expected {}', what,
                         p.arr[i].dtype, ref.dtype)
    ops = sorted({n['op'] for n in p.nodes})
    return {'nt': big, 'labels': ops}

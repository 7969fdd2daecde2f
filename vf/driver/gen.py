"""
Generators of biggus programs (Hypothesis).  Every random choice is a draw,
so cases shrink and replay.

A program is a list of nodes (see worker/core.py).  For each node the
generator tracks just enough to keep the next operation legal:

  shape  its shape
  dtype  its dtype, or None when NumPy's promotion decides it
  kind   its dtype kind
  bax    per axis: 0 ordinary, 1 a new axis, 2 an axis that may have been
         broadcast.  biggus documents (NotImplementedError) that fancy keys
         are unsupported on 2, and array keys on 1.
  exact  False once the values depend on floating point summation order, or
         on a transcendental function
  wild   the values may be infinite, NaN or enormous, so that sums and squares
         of them have no useful error bound
  half   a dtype derived from this may be half precision
"""
import warnings
import numpy as np
from hypothesis import strategies as st

warnings.simplefilter('ignore')
np.seterr(all='ignore')

INTS = ['<i1', '<i2', '<i4', '<i8', '<u1', '<u2', '<u4', '>i2', '>i4']
FLOATS = ['<f4', '<f8', '>f4', '>f8', '<f2']
COMPLEX = ['<c8', '<c16']
STRINGS = ['S3', '<U3', '<M8[s]', '<m8[s]']
# Kinds of data which are not numbers.
OTHER = 'SUMm'
CHUNKS = [None, 1, 2, 3, 4, 6, 9, 15, 40]


def dkind(dt):
    return np.dtype(dt).kind


def isize(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def volume(shape):
    """The size, but for empty dimensions; a mosaic may fill those."""
    return isize([s or 1 for s in shape])


# What may stand for data: adapters of NumPy arrays, of sources which index
# as NumPy does or orthogonally, and Arrays which aren't biggus's own.
# (or, seldom, of arrays which are themselves virtual)
ADAPTERS = ('np', 'npsrc', 'ortho')
WRAPPED = ('wrapo', 'wrapn', 'wrape')
ANY_KIND = ADAPTERS * 6 + ('user',) * 4 + WRAPPED


class Gen(object):
    #: Whether there may be expressions of more than one aggregation.
    pairs = False
    #: A limit for the size of the chunks which goes with the expression.
    limit = None

    def __init__(self, draw, max_elems=120, max_ndim=6, max_dim=6,
                 zero_dims=True, kinds=ANY_KIND,
                 nonfinite=True):
        self.draw = draw
        self.nodes = []
        self.meta = []
        if max_elems <= 200 and self.chance(1, 25):
            # More and longer pieces than most.
            self.big = True
            max_elems *= 8
            max_dim = 40
        else:
            self.big = False
        self.max_elems = max_elems
        self.max_ndim = max_ndim
        self.max_dim = max_dim
        self.zero_dims = zero_dims
        self.kinds = kinds
        self.nonfinite = nonfinite

    # -------------------------------------------------- small draws

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def b(self):
        return self.draw(st.booleans())

    def chance(self, num, den):
        """True with probability num/den; shrinks to False."""
        return self.draw(st.integers(0, den - 1)) >= den - num

    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def perm(self, seq):
        return list(self.draw(st.permutations(list(seq))))

    def chunk(self, choices=CHUNKS):
        limit = self.pick(choices)
        if limit and self.big:
            # Or else a great many chunks.
            return limit * 8 if self.chance(5, 6) else max(limit, 3)
        return limit

    # -------------------------------------------------- shapes

    def shape(self, min_ndim=0, max_ndim=None, max_elems=None):
        max_ndim = self.max_ndim if max_ndim is None else max_ndim
        max_elems = max_elems or self.max_elems
        nd = self.pick([1, 2, 2, 3, 3, 4, 1, 0, 2, 3])
        if nd == 4 and self.chance(1, 3):
            nd = self.pick([5, 5, 6])
        nd = min(max(nd, min_ndim), max_ndim)
        shape = []
        n = 1
        for _ in range(nd):
            hi = max(1, min(self.max_dim, max_elems // max(n, 1)))
            lo = 1
            if self.zero_dims and self.chance(1, 40):
                lo = hi = 0
            s = self.i(lo, hi)
            n *= s or 1
            shape.append(s)
        return tuple(shape)

    # -------------------------------------------------- nodes

    def add(self, node, **meta):
        self.nodes.append(node)
        if meta.get('dtype') is not None and 'kind' not in meta:
            meta['kind'] = dkind(meta['dtype'])
        meta.setdefault('bax', (0,) * len(meta['shape']))
        meta.setdefault('exact', True)
        meta.setdefault('wild', False)
        meta.setdefault('half', False)
        assert len(meta['bax']) == len(meta['shape'])
        self.meta.append(meta)
        return len(self.nodes) - 1

    def derive(self, node, a, **changes):
        m = dict(self.meta[a], src=False)
        m.update(changes)
        if 'dtype' in changes and 'kind' not in changes:
            m['kind'] = dkind(changes['dtype'])
        return self.add(node, **m)

    def shape_of(self, i):
        return self.meta[i]['shape']

    def dtype_of(self, i):
        return self.meta[i]['dtype']

    def kind_of(self, i):
        return self.meta[i]['kind']

    def data(self, dtype, n, mode=None):
        kind = dkind(dtype)
        mode = mode or self.pick(['distinct', 'distinct', 'vals'])
        if mode == 'distinct' or kind in OTHER:
            return {'m': 'distinct', 'off': self.i(0, 50)}
        pool = self.value_pool(dtype, mode)
        vals = self.draw(st.lists(pool, min_size=1,
                                  max_size=max(1, min(9, n))))
        return {'m': 'vals', 'v': vals}

    def value_pool(self, dtype, mode='vals'):
        """mode 'vals': anything; 'small': small finite; 'pos': 0..6."""
        kind = dkind(dtype)
        if kind == 'b':
            return st.integers(0, 1)
        if kind in 'iu':
            info = np.iinfo(dtype)
            lo, hi = int(info.min), int(info.max)
            small = st.integers(max(lo, 0 if mode == 'pos' else -9),
                                6 if mode == 'pos' else 20)
            if mode == 'close':
                return st.sampled_from(
                    [v for v in (0, 1, 2, 3, hi, hi - 1, lo, lo + 1)])
            if mode != 'vals':
                return small
            return st.one_of(small, st.sampled_from([lo, hi, hi - 1, 0, 1]))
        if kind == 'f':
            if mode == 'pos':
                return st.integers(0, 6).map(float)
            if mode == 'close':
                # Values which differ by about the rounding error.
                return st.tuples(
                    st.integers(0, 3), st.sampled_from(
                        [0, 0, 0, 0, 1e-9, 1e-6, -1e-9, -1e-6, 2.0 ** -10])
                ).map(lambda t: float(
                    np.dtype(dtype).type((t[0] or 1.5) + t[1])))
            small = st.one_of(
                st.integers(-9, 20).map(float),
                st.sampled_from([0.5, -0.25, 1.75, 0.0]))
            if mode != 'vals':
                return small
            if not self.nonfinite:
                return st.one_of(small, st.floats(-100, 100, width=16),
                                 st.just(-0.0))
            return st.one_of(
                small,
                st.floats(-100, 100, width=16),
                st.sampled_from([float('nan'), float('inf'), -float('inf'),
                                 -0.0]))
        if kind == 'c':
            return st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(
                lambda t: 'c:%d,%d' % t)
        if kind in OTHER:
            return st.sampled_from(['a', 'bc', '12', ''])
        raise ValueError(dtype)

    def mask(self, n):
        m = self.pick([None, None, 'bits', 'bits', 'nomask', 'full', 'all'])
        if m == 'bits':
            return [int(v) for v in self.draw(
                st.lists(st.booleans(), min_size=1,
                         max_size=max(1, min(n, 11))))]
        if m == 'all':
            return [1]
        return m

    def dtype(self, strings=False, pools=None):
        pools = pools or [INTS, FLOATS, ['<f8', '<i4', '<f4'], ['|b1'],
                          COMPLEX]
        if strings:
            pools = pools + [STRINGS]
        return self.pick(self.pick(pools))

    def source(self, shape=None, dtype=None, kinds=None, mask=True,
               mode=None, strings=False, consts=True, fills=False):
        shape = self.shape() if shape is None else tuple(shape)
        dtype = self.dtype(strings) if dtype is None else dtype
        n = isize(shape)
        if consts and self.chance(1, 9) and dkind(dtype) in 'biufc':
            via = self.pick(['ConstantArray', 'zeros', 'ones'])
            v = self.draw(self.value_pool(dtype, 'small'))
            return self.add(
                {'op': 'const', 'shape': list(shape), 'dtype': dtype,
                 'via': via, 'value': v},
                shape=shape, dtype=dtype, src=True,
                half=np.dtype(dtype).itemsize < 2 or dtype == '<f2')
        m = self.mask(n) if mask is True else mask
        node = {'op': 'src', 'kind': self.pick(kinds or self.kinds),
                'dtype': dtype,
                'shape': list(shape), 'data': self.data(dtype, n, mode),
                'mask': m, 'layout': self.pick([None, None, 'F', 'strided'])}
        if m is not None:
            # The default fill value of floats is enormous.
            if dkind(dtype) in 'fc' and not fills:
                node['fill'] = 7
            elif fills and dkind(dtype) in 'biuf':
                k = dkind(dtype)
                fill = self.pick([0, 1] if k == 'b' else
                                 [None, 7, 7, 99, 0] + {
                                     'i': [-1], 'u': [], 'f': [
                                         -1.5, float('nan')]}[k])
                if fill is not None:
                    node['fill'] = fill
        vals = node['data'].get('v', ())
        wild = any(isinstance(v, float) and not -1e6 < v < 1e6 for v in vals)
        half = np.dtype(dtype).itemsize < 2 or dtype in ('<f2', '>f2')
        return self.add(node, shape=shape, dtype=dtype, src=True, wild=wild,
                        half=half)

    def half_known(self, a):
        return self.meta[a]['dtype'] is None

    def either(self, ids, name):
        return any(self.meta[j][name] for j in ids)

    # -------------------------------------------------- keys

    def slice_key(self, size):
        form = self.pick(['part', 'part', 'part', 'back', 'any', 'rev',
                          'empty'])
        kind = self.pick([[], [], [], [], ['int64'], ['int8']])
        if form == 'rev':
            return ['s', None, None, self.pick([-1, -1, -2, -3])] + kind
        if form in ('part', 'back') and size:
            lo = self.i(0, size - 1)
            hi = self.i(lo + 1, size)
            step = self.pick([1, 1, 2, 3])
            if form == 'back':
                # From hi - 1 down to lo.
                lo, hi, step = hi - 1, lo - 1, -step
                if lo and self.chance(1, 3):
                    lo -= size
                elif lo == size - 1 and self.b():
                    lo = None
                if hi < 0:
                    hi = self.pick([None, -size - 1])
                elif self.chance(1, 3):
                    hi -= size
                return ['s', lo, hi, step] + kind
            if self.chance(1, 3):
                lo -= size
            if hi == size:
                hi = self.pick([None, size, size + 2])
            elif self.chance(1, 3):
                hi -= size
            return ['s', lo, hi, self.pick([None, 1]) if step == 1
                    else step] + kind
        if form == 'empty' and self.chance(1, 3):
            k = self.i(0, size)
            return ['s', k, k, None] + kind
        lo, hi = -size - 2, size + 2
        start = self.draw(st.one_of(st.none(), st.integers(lo, hi)))
        stop = self.draw(st.one_of(st.none(), st.integers(lo, hi)))
        step = self.pick([None, None, 1, 2, 3, -1, -2, -3])
        return ['s', start, stop, step] + kind

    def axis_key(self, size, flag=0, fancy=True):
        kinds = ['full', 's', 's', 's']
        if size:
            kinds += ['i', 'i', 'I']
        if fancy and flag < 2:
            kinds += ['t', 't', 'l']
            if flag == 0:
                kinds += ['a', 'b'] if size <= 2000 else ['a']
        k = self.pick(kinds)
        if k == 'full':
            return ['s', None, None, None]
        if k == 's':
            return self.slice_key(size)
        if k == 'i':
            return ['i', self.i(-size, size - 1)]
        if k == 'I':
            t = self.pick(['int64', 'int32', 'int8', 'int16', 'intp',
                           'uint8', 'uint32', 'uint64'])
            return ['I', self.i(0 if t[0] == 'u' else -size, size - 1), t]
        if k in 'tla':
            if size == 0:
                idx = []
            else:
                idx = self.draw(st.lists(
                    st.integers(-size, size - 1),
                    min_size=0 if self.chance(1, 6) else 1,
                    max_size=16 if self.big else 5))
            if k == 'a':
                if not idx:
                    return ['s', None, None, None]
                t = self.pick(['<i8', '<i8', '<i4', '|i1', '>i2', '<u8',
                               '|u1'])
                if t[1] == 'u':
                    idx = [j % size for j in idx]
                return [k, idx, t]
            return [k, idx] + self.pick([[], [], [], ['int64'], ['int8']])
        if k == 'b':
            return ['b', [int(x) for x in self.draw(
                st.lists(st.booleans(), min_size=size, max_size=size))]]

    def keys(self, shape, bax=None, fancy=True, newaxis=True, ellipsis=True):
        """Keys legal for an array of this shape."""
        ndim = len(shape)
        bax = bax or (0,) * ndim
        used = ndim if self.b() else self.i(0, ndim)
        ell = ellipsis and self.chance(1, 4)
        left = self.i(0, used) if ell else used
        keys = [self.axis_key(shape[k], bax[k], fancy) for k in range(left)]
        if ell:
            keys.append(['e'])
            for k in range(used - left):
                ax = ndim - (used - left) + k
                keys.append(self.axis_key(shape[ax], bax[ax], fancy))
        if newaxis and self.chance(1, 6):
            for _ in range(self.i(1, 2)):
                if ndim + 1 > 6:
                    break
                keys.insert(self.i(0, len(keys)), ['n'])
        bare = len(keys) == 1 and keys[0][0] != 't' and self.b()
        return keys, bare

    def some_exact(self, a):
        return self.meta[a]['exact']


def keyed_axes(shape, bax, keys):
    """The shape and axis flags after indexing."""
    keys = [list(k) for k in keys]
    ndim = len(shape)
    n_real = len([k for k in keys if k[0] not in 'en'])
    if not any(k[0] == 'e' for k in keys):
        keys.append(['e'])
    out, flags, ax = [], [], 0
    for k in keys:
        t = k[0]
        if t == 'n':
            out.append(1)
            # NB. A contained NumPy array does its own indexing.
            flags.append(2 if 2 in bax else 1)
        elif t == 'e':
            m = ndim - n_real
            out.extend(shape[ax:ax + m])
            flags.extend(bax[ax:ax + m])
            ax += m
        else:
            n = None
            if t == 's':
                n = len(range(*slice(*k[1:4]).indices(shape[ax])))
            elif t in 'tlga':
                n = len(k[1])
            elif t == 'b':
                n = sum(k[1])
            if n is not None:
                out.append(n)
                f = bax[ax]
                if f == 1 and (t != 's' or n != 1):
                    f = 2
                flags.append(f)
            ax += 1
    return tuple(out), tuple(flags)


def merge_flags(flag_lists):
    return tuple(max(f) for f in zip(*flag_lists))


# ------------------------------------------------------------ structural ops

def op_index(g, a, **kw):
    shape, bax = g.shape_of(a), g.meta[a]['bax']
    if len(shape) >= 5 or g.meta[a].get('contained') and not shape:
        kw['newaxis'] = False
    keys, bare = g.keys(shape, bax, **kw)
    new, flags = keyed_axes(shape, bax, keys)
    return g.derive({'op': 'idx', 'a': a, 'keys': keys, 'bare': bare}, a,
                    shape=new, bax=flags)


def contained(g):
    """A plain NumPy array within one of the containers which allow it."""
    # NB. NumPy's scalars are of the native byte order.
    dtype = g.dtype(True)
    if dkind(dtype) in 'SU':
        # Nor of NumPy's kinds at all, but Python's.
        dtype = '<i4'
    a = g.source(shape=g.shape(min_ndim=1), kinds=('raw',), mask=None,
                 consts=False, dtype=dtype.replace('>', '<'))
    shape = g.shape_of(a)
    # Only keys which mean the same to NumPy.
    g.meta[a].update(raw=True, contained=True, bax=(2,) * len(shape))
    op = g.pick([op_transpose, op_astype, op_broadcast, op_maskeq])
    if op is op_broadcast and 1 not in shape or \
            op is op_maskeq and g.kind_of(a) in OTHER:
        op = op_transpose
    a = op(g, a)
    g.meta[a]['raw'] = False
    return a


def op_transpose(g, a):
    shape, bax = g.shape_of(a), g.meta[a]['bax']
    if g.chance(1, 3):
        return g.derive({'op': 'T', 'a': a, 'axes': None}, a,
                        shape=shape[::-1], bax=bax[::-1])
    axes = g.perm(range(len(shape)))
    given = [k - len(shape) if g.chance(1, 9) else k for k in axes]
    return g.derive({'op': 'T', 'a': a, 'axes': given}, a,
                    shape=tuple(shape[k] for k in axes),
                    bax=tuple(bax[k] for k in axes))


def op_broadcast(g, a):
    shape = g.shape_of(a)
    if 1 not in shape and g.b():
        # Give it something to broadcast.
        k = g.i(0, len(shape))
        if len(shape) < 5:
            bax = g.meta[a]['bax']
            a = g.derive({'op': 'idx', 'a': a,
                          'keys': [['s', None, None, None]] * k + [['n']],
                          'bare': False}, a,
                         shape=shape[:k] + (1,) + shape[k:],
                         bax=bax[:k] + (2 if 2 in bax else 1,) + bax[k:])
            shape = g.shape_of(a)
    dims, new, n = {}, list(shape), volume(shape)
    flags = list(g.meta[a]['bax'])
    for k, s in enumerate(shape):
        if s == 1 and not g.chance(1, 3):
            v = g.i(0 if g.zero_dims and g.chance(1, 20) else 1, 4)
            if n * max(v, 1) <= g.max_elems:
                dims[str(k)] = v
                new[k] = v
                flags[k] = 2
                n *= max(v, 1)
    lead = []
    for _ in range(g.i(0, max(0, min(2, g.max_ndim + 1 - len(shape))))):
        v = g.i(0 if g.zero_dims and g.chance(1, 30) else 1, 3)
        if n * v <= g.max_elems:
            lead.append(v)
            n *= max(v, 1)
    return g.derive({'op': 'bcast', 'a': a, 'dims': dims, 'lead': lead}, a,
                    shape=tuple(lead) + tuple(new),
                    bax=(0,) * len(lead) + tuple(flags))


def op_box(g, a):
    """Nothing but a container."""
    return g.derive({'op': 'box', 'a': a}, a)


def op_astype(g, a):
    kind = g.kind_of(a)
    if g.chance(1, 6) and not g.meta[a].get('raw'):
        return op_box(g, a)
    pool = {'b': ['<i2', '<f4', '<f8'], 'i': ['<i8', '<f4', '<f8', '<i2'],
            'u': ['<i8', '<f8', '<u8'], 'f': ['<f8', '<f4', '<c16'],
            'c': ['<c16', '<c8'], 'S': ['S5', 'S2'],
            'U': ['<U5', '<U2'], 'M': ['<M8[ms]'], 'm': ['<m8[ms]']}
    lossy = {'i': ['|i1', '|u1', '|b1'], 'u': ['|i1', '|u1', '|b1'],
             'f': ['|b1'], 'S': ['S1'], 'U': ['<U1'], 'M': ['<M8[D]'],
             'm': ['<m8[s]']}
    if kind in lossy and (kind != 'f' or g.meta[a]['exact']) and \
            g.chance(1, 4):
        # Lose something, which another conversion must not bring back.
        dt = g.pick(lossy[kind])
        changes = {'exact': True, 'wild': False} if dt == '|b1' else {}
        a = g.derive({'op': 'astype', 'a': a, 'dtype': dt}, a, dtype=dt,
                     half=False, **changes)
        kind = g.kind_of(a)
    dt = g.pick(pool[kind])
    return g.derive({'op': 'astype', 'a': a, 'dtype': dt}, a, dtype=dt,
                    half=False)


def op_maskeq(g, a):
    if g.kind_of(a) in OTHER or not g.meta[a]['exact']:
        return op_index(g, a)
    value = g.i(0, 20)
    if g.b():
        # A value that occurs in the data.
        known = [v for node in g.nodes
                 for v in node.get('data', {}).get('v', ())
                 if not isinstance(v, str)]
        known += [node['data'].get('off', 0) + k for node in g.nodes
                  if node.get('data', {}).get('m') == 'distinct'
                  for k in range(min(4, isize(node['shape'])))]
        if g.kind_of(a) != 'f':
            lo, hi = 0, 127
            if g.dtype_of(a) is not None and g.kind_of(a) in 'iu':
                info = np.iinfo(g.dtype_of(a))
                lo, hi = int(info.min), int(info.max)
            known = [int(v) for v in known if lo <= v <= hi and v == int(v)]
        if known:
            value = g.pick(known)
            if g.kind_of(a) == 'f':
                # NB. Whether the comparison is made in the type of the
                # data depends on its number of dimensions.
                dt = np.dtype(g.dtype_of(a) or '<f2').type
                value = float(dt(value))
                if abs(value) > 1e4:
                    value = 1
    return g.derive({'op': 'maskeq', 'a': a, 'value': value}, a)


def siblings(g, a, count, shape=None):
    """``count`` nodes of a's dtype, and a's (or the given) shape."""
    want = g.shape_of(a) if shape is None else shape
    out = []
    for _ in range(count):
        cands = [j for j in range(len(g.nodes))
                 if g.shape_of(j) == want and g.dtype_of(j) == g.dtype_of(a)
                 and not g.meta[j].get('raw')]
        if cands and g.chance(1, 3):
            out.append(g.pick(cands))
        else:
            out.append(g.source(shape=want, dtype=g.dtype_of(a)))
    return out


def definite(g, a):
    """``a``, converted if need be so that its dtype is known."""
    if g.dtype_of(a) is None:
        dt = {'b': '|b1', 'i': '<i8', 'u': '<u8', 'f': '<f8',
              'c': '<c16'}[g.kind_of(a)]
        a = g.derive({'op': 'astype', 'a': a, 'dtype': dt}, a, dtype=dt)
    return a


def op_stack(g, a):
    a = definite(g, a)
    shape = g.shape_of(a)
    room = g.max_elems // volume(shape)
    ss = []
    n = 1
    for _ in range(g.i(1, 2 if len(shape) < 4 else 1)):
        s = g.i(1, max(1, min(12 if g.big else 3, room // n)))
        ss.append(s)
        n *= s
    if len(shape) < 3 and room >= 16 and g.chance(1, 8):
        # NB. Its order has more to it in more dimensions.
        ss = g.pick([[2, 2, 2], [2, 3, 2], [3, 2, 2], [2, 2, 2, 2],
                     [2, 1, 2, 2], [2, 2, 3]])
        n = isize(ss)
    items = siblings(g, a, n)
    items[g.i(0, n - 1)] = a
    kind = g.pick(['stack', 'stack' if len(ss) < 3 else 'mdstack', 'mdstack'])
    node = {'op': kind, 'items': items, 'shape': ss}
    if kind == 'mdstack':
        node['order'] = g.pick(['C', 'F', 'c', 'f'])
    return g.derive(node, a, shape=tuple(ss) + shape,
                    bax=(0,) * len(ss) +
                    merge_flags([g.meta[j]['bax'] for j in items]),
                    exact=all(g.meta[j]['exact'] for j in items),
                    wild=g.either(items, 'wild'),
                    half=g.either(items, 'half'))


def op_mosaic(g, a):
    a = definite(g, a)
    shape = g.shape_of(a)
    if not shape:
        return op_stack(g, a)
    axis = g.i(0, len(shape) - 1)
    if g.big and volume(shape) > 60:
        # Small enough for several.
        k = g.i(0, len(shape) - 1)
        a = g.derive({'op': 'idx', 'a': a, 'bare': False,
                      'keys': [['s', None, None, None]] * k +
                      [['s', 0, 1 + shape[k] // 8, None]]}, a,
                     shape=shape[:k] + (min(shape[k], 1 + shape[k] // 8),) +
                     shape[k + 1:])
        shape = g.shape_of(a)
    flagged = [k for k, f in enumerate(g.meta[a]['bax']) if f]
    if flagged and g.b():
        axis = g.pick(flagged)
    n = g.i(1, 14 if g.big else 4)
    items = []
    pos = g.i(0, n - 1)
    for k in range(n):
        if k == pos:
            items.append(a)
            continue
        s = list(shape)
        s[axis] = g.i(0 if g.zero_dims and g.chance(1, 15) else 1, 4)
        items += siblings(g, a, 1, shape=tuple(s))
    s = list(shape)
    s[axis] = sum(g.shape_of(j)[axis] for j in items)
    flags = list(merge_flags([g.meta[j]['bax'] for j in items]))
    # Indexing may split the axis differently in each tile, so that it has
    # the least capable form.
    if flags[axis]:
        flags[axis] = 2
    return g.derive({'op': 'mosaic', 'items': items, 'axis': axis}, a,
                    shape=tuple(s), bax=tuple(flags),
                    exact=all(g.meta[j]['exact'] for j in items),
                    wild=g.either(items, 'wild'),
                    half=g.either(items, 'half'))


# ------------------------------------------------------------ elementwise

# Results that are the same however the work is divided up.
EW1_EXACT = {
    'b': ['logical_not', 'absolute', 'invert', 'isnan'],
    'i': ['negative', 'absolute', 'sign', 'square', 'invert', 'logical_not',
          'isnan', 'rint', 'sqrt', 'floor', 'ceil', 'trunc', 'signbit',
          'isinf', 'isreal', 'iscomplex', 'conj'],
    'f': ['negative', 'absolute', 'sign', 'square', 'sqrt', 'rint', 'floor',
          'ceil', 'trunc', 'logical_not', 'isnan', 'isinf', 'signbit',
          'conj', 'reciprocal', 'isreal', 'iscomplex'],
    'c': ['negative', 'conj', 'logical_not', 'isreal', 'iscomplex', 'isnan'],
}
EW1_EXACT['u'] = [f for f in EW1_EXACT['i'] if f not in ('negative',)]
EW1_CLOSE = {
    'i': ['exp', 'exp2', 'log', 'log2', 'log10', 'expm1', 'sin', 'cos', 'tan',
          'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh',
          'arccosh', 'arctanh', 'deg2rad', 'rad2deg'],
    'c': ['exp', 'sin', 'cos', 'sqrt', 'absolute', 'square', 'reciprocal',
          'log', 'arctan', 'tanh'],
    'b': ['exp', 'sin', 'sqrt'],
}
EW1_CLOSE['f'] = EW1_CLOSE['u'] = EW1_CLOSE['i']
TO_BOOL = {'logical_not', 'isnan', 'isinf', 'isreal', 'iscomplex', 'signbit',
           'greater', 'greater_equal', 'less', 'less_equal', 'equal',
           'not_equal', 'logical_and', 'logical_or', 'logical_xor'}
TO_FLOAT = {'rint', 'sqrt', 'floor', 'ceil', 'trunc', 'true_divide',
            'divide', 'copysign', 'nextafter', 'ldexp', 'hypot', 'arctan2',
            'reciprocal'}

COMPARE = ['greater', 'greater_equal', 'less', 'less_equal', 'equal',
           'not_equal', 'logical_and', 'logical_or', 'logical_xor']
EXTREMA = ['maximum', 'minimum', 'fmax', 'fmin']
EW2_EXACT = {
    'b': ['add', 'multiply', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
          'true_divide'] + COMPARE + EXTREMA,
    'i': ['add', 'sub', 'subtract', 'multiply', 'floor_divide', 'true_divide',
          'divide', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'copysign',
          'nextafter', 'power', 'fmod'] + COMPARE + EXTREMA,
    'f': ['add', 'sub', 'subtract', 'multiply', 'floor_divide', 'true_divide',
          'divide', 'copysign', 'nextafter', 'fmod'] + COMPARE + EXTREMA,
    'c': ['add', 'sub', 'subtract'] + COMPARE + EXTREMA,
}
EW2_CLOSE = {
    'i': ['arctan2', 'hypot'],
    'f': ['arctan2', 'hypot', 'power'],
    'c': ['multiply', 'true_divide', 'divide'],
    'b': ['hypot'],
}
RANK = {'b': 0, 'u': 1, 'i': 1, 'f': 2, 'c': 3}
# Safe when the operands are only known approximately.
SMOOTH1 = ['negative', 'absolute', 'conj']
SMOOTH2 = ['add', 'sub', 'subtract', 'multiply', 'maximum', 'minimum']
# Do not make enormous, infinite or NaN values of ordinary ones.
GENTLE = {'negative', 'absolute', 'sign', 'rint', 'floor', 'ceil', 'trunc',
          'conj', 'add', 'sub', 'subtract', 'multiply', 'maximum', 'minimum',
          'fmax', 'fmin', 'invert', 'bitwise_and', 'bitwise_or',
          'bitwise_xor', 'sin', 'cos', 'arctan', 'tanh', 'square', 'hypot',
          'arctan2', 'deg2rad', 'rad2deg', 'arcsinh'}
PY_OPS = {'add', 'sub', 'multiply', 'floor_divide', 'true_divide', 'power'}


def result_kind(fn, kind):
    if fn in TO_BOOL:
        return 'b'
    if kind in 'biu' and (fn in TO_FLOAT or fn in EW1_CLOSE['i']):
        return 'f'
    if fn == 'absolute' and kind == 'c':
        return 'f'
    if fn == 'true_divide' and kind in 'biu':
        return 'f'
    return kind


def op_ew1(g, a, close=True):
    kind = g.kind_of(a)
    if kind in OTHER:
        return op_index(g, a)
    exact = g.meta[a]['exact']
    if not exact:
        fn = g.pick([f for f in SMOOTH1 if not (kind == 'b')] or
                    ['logical_not'])
        if kind in 'bu':
            fn = 'absolute'
    else:
        if close and g.chance(1, 4):
            fn = g.pick(EW1_CLOSE[kind])
            exact = False
        else:
            fn = g.pick(EW1_EXACT[kind])
    k = result_kind(fn, kind)
    dtype = '|b1' if k == 'b' else None
    wild = k != 'b' and (g.meta[a]['wild'] or fn not in GENTLE)
    return g.derive({'op': 'ew1', 'fn': fn, 'a': a}, a, kind=k, dtype=dtype,
                    exact=exact, wild=wild)


def scalar_operand(g, kind, other_kind):
    form = g.pick(['pyint', 'pyint', 'pyfloat', 'np'])
    if form == 'pyint':
        return {'scalar': g.pick([0, 1, 2, 3, 7, -1, 100, 300])}, 'i'
    if form == 'pyfloat':
        return {'scalar': g.pick([0.0, 0.5, 2.0, -1.25, 10.0])}, 'f'
    dt = g.pick(['<f4', '<f8', '<i2', '<i8', '<u1'])
    return ({'scalar': g.pick([0, 1, 2, 3, 7]), 'type': dt}, dkind(dt))


def partner(g, a, mode=None, raw=False):
    """A node whose shape broadcasts against a's, without blowing up."""
    shape = list(g.shape_of(a))
    form = g.pick(['same', 'same', 'same', 'ones', 'fewer', 'existing',
                   'more'])
    if form == 'existing':
        cands = []
        for j in range(len(g.nodes)):
            if g.meta[j].get('raw') or g.kind_of(j) in OTHER:
                continue
            full = try_broadcast(shape, g.shape_of(j))
            if full is not None and volume(full) <= g.max_elems and \
                    len(full) <= 5:
                cands.append(j)
        if cands:
            return g.pick(cands)
    if form in ('ones', 'fewer', 'more'):
        for k in range(len(shape)):
            if g.b():
                if shape[k] != 1:
                    shape[k] = 1
                elif form == 'more' and volume(g.shape_of(a)) * 2 \
                        <= g.max_elems:
                    shape[k] = 2
        if form == 'fewer' and shape:
            shape = shape[g.i(1, len(shape)):]
        if form == 'more' and len(shape) < 4 and \
                volume(g.shape_of(a)) * 2 <= g.max_elems:
            shape = [g.i(1, 2)] + shape
    pools = [['<f8', '<f4', '>f4'], ['<i4', '<i2', '<i8', '<u1', '>i2'],
             ['<f8', '<i4'], ['|b1'], ['<c8', '<c16']]
    dt = g.pick(g.pick(pools))
    if raw and g.chance(1, 8):
        j = g.source(shape=tuple(shape), dtype=dt, mode=mode, consts=False,
                     kinds=('raw',))
        g.meta[j]['raw'] = True
        return j
    return g.source(shape=tuple(shape), dtype=dt, mode=mode)


def op_shift(g, a):
    """A shift of integers, or a multiplication by a power of two."""
    kind = g.kind_of(a)
    if kind not in 'iuf' or (kind != 'f' and g.half_known(a)) or \
            not g.meta[a]['exact']:
        return op_ew2(g, a)
    if kind == 'f':
        fn = 'ldexp'
    else:
        fn = g.pick(['left_shift', 'right_shift', 'ldexp'])
    # The amount is never negative, nor as large as the type.
    if g.b():
        x = {'scalar': g.i(0, 6)}
        full, flags = g.shape_of(a), g.meta[a]['bax']
    else:
        shape = [1 if g.chance(1, 3) else s for s in g.shape_of(a)]
        x = g.source(shape=shape, dtype=g.pick(
            ['<i4', '|i1', '<i2'] if fn == 'ldexp' else
            ['<i4', '|u1', '<i8']), mode='pos', consts=False)
        full = try_broadcast(g.shape_of(a), g.shape_of(x))
        flags = merge_flags([bcast_flags(g, a, full),
                             bcast_flags(g, x, full)])
    k = 'f' if fn == 'ldexp' else kind
    return g.add({'op': 'ew2', 'fn': fn, 'a': a, 'b': x, 'style': None},
                 shape=tuple(full), dtype=None, kind=k, bax=tuple(flags),
                 wild=True, half=True)


def try_broadcast(s1, s2):
    out = []
    s1, s2 = list(s1), list(s2)
    n = max(len(s1), len(s2))
    s1 = [1] * (n - len(s1)) + s1
    s2 = [1] * (n - len(s2)) + s2
    for p, q in zip(s1, s2):
        if p == q or q == 1:
            out.append(p)
        elif p == 1:
            out.append(q)
        else:
            return None
    return tuple(out)


def bcast_flags(g, a, full):
    shape, bax = g.shape_of(a), g.meta[a]['bax']
    pad = len(full) - len(shape)
    return [0] * pad + [2 if s != f else b
                        for s, f, b in zip(shape, full[pad:], bax)]


def op_ew2(g, a, close=True, scalars=True, other=None, raw=True):
    kind = g.kind_of(a)
    if kind in OTHER:
        return op_index(g, a)
    if other is None and scalars and g.chance(1, 4):
        x, xk = scalar_operand(g, kind, kind)
        full, flags = g.shape_of(a), g.meta[a]['bax']
        xexact = True
        is_scalar = True
    else:
        x = partner(g, a, mode=g.pick(['distinct', 'small']), raw=raw) \
            if other is None else other
        xk = g.kind_of(x)
        full = try_broadcast(g.shape_of(a), g.shape_of(x))
        flags = merge_flags([bcast_flags(g, a, full),
                             bcast_flags(g, x, full)])
        xexact = g.meta[x]['exact']
        is_scalar = False
    rank = max(kind, xk, key=lambda k: RANK[k])
    pool_kind = 'i' if rank == 'u' else rank
    exact = g.meta[a]['exact'] and xexact
    if not exact:
        fn = g.pick(SMOOTH2 if rank in 'if' else ['add'])
    elif close and g.chance(1, 8):
        fn = g.pick(EW2_CLOSE[pool_kind])
        exact = False
    else:
        fn = g.pick(EW2_EXACT[pool_kind])
    flip = g.chance(1, 3)
    if fn == 'power' and is_scalar and not flip and rank in 'iu':
        # NumPy refuses integers to negative powers.
        x['scalar'] = abs(x['scalar'])
    p, q = (x, a) if flip else (a, x)
    k = result_kind(fn, rank)
    style = None
    raw_node = not is_scalar and g.meta[x].get('raw')
    if fn in PY_OPS and g.b() and not (flip and raw_node) and \
            not (flip and is_scalar and x.get('type')):
        style = 'operator'
    node = {'op': 'ew2', 'fn': fn, 'a': p, 'b': q, 'style': style}
    ids = [j for j in (p, q) if not isinstance(j, dict)]
    wild = k != 'b' and (g.either(ids, 'wild') or fn not in GENTLE)
    return g.add(node, shape=tuple(full), dtype='|b1' if k == 'b' else None,
                 kind=k, bax=tuple(flags), exact=exact, wild=wild,
                 half=g.either(ids, 'half'))


# ------------------------------------------------------------ aggregation

AGGS = {'b': ['count', 'min', 'max', 'mean'],
        'i': ['count', 'min', 'max', 'sum', 'mean', 'std', 'var'],
        'f': ['count', 'min', 'max', 'sum', 'mean', 'std', 'var'],
        'c': ['count', 'sum', 'mean']}
AGGS['u'] = AGGS['i']


def op_agg(g, a, fns=None, axis=None):
    kind = g.kind_of(a)
    shape = g.shape_of(a)
    axes = [k for k, s in enumerate(shape) if s > 0]
    if kind in OTHER or not axes:
        return op_index(g, a)
    fns = [f for f in AGGS[kind] if fns is None or f in fns]
    if not fns:
        return op_index(g, a)
    m = g.meta[a]
    if kind == 'f' and (m['wild'] or m['half'] and
                        m['dtype'] in ('<f2', '>f2', None)):
        # Sums and squares could overflow, or be NaN.
        fns = [f for f in fns if f in ('count', 'min', 'max')]
    elif kind == 'c' and m['wild']:
        fns = ['count']
    if not m['exact'] and kind not in 'fc':
        fns = ['count']
    fn = g.pick(fns or ['count'])
    axis = g.pick(axes) if axis is None else axis
    kw = {}
    if fn == 'mean' and g.b():
        kw['mdtol'] = g.pick([0, 0.25, 0.5, 0.75, 1, 0.1])
    if fn in ('std', 'var') and g.b():
        kw['ddof'] = g.pick([0, 1, 1, 2])
    exact = g.meta[a]['exact']
    if fn in ('mean', 'std', 'var') or (fn == 'sum' and kind in 'fc'):
        exact = False
    if fn == 'count':
        exact = True
        dtype, k = '<i4', 'i'
    elif fn in ('mean', 'std', 'var') and kind in 'biu':
        dtype, k = '<f8', 'f'
    else:
        dtype, k = g.dtype_of(a), kind
        if fn in ('mean', 'std', 'var') and dtype is not None:
            # Calculated in the native byte order.
            dtype = dtype.replace('>', '<')
    node = {'op': 'agg', 'fn': fn, 'a': a,
            'axis': axis - len(shape) if g.chance(1, 4) else axis, 'kw': kw}
    bax = g.meta[a]['bax']
    return g.add(node, shape=shape[:axis] + shape[axis + 1:], dtype=dtype,
                 kind=k, bax=bax[:axis] + bax[axis + 1:], exact=exact,
                 # With no degrees of freedom the result is NaN.
                 wild=m['wild'] or shape[axis] <= kw.get('ddof', 0),
                 half=m['half'])


def reduced(g, shape, k=None, axis=None):
    """An aggregation of that shape, from a source of its own."""
    k = k or g.i(1, 5)
    axis = g.i(0, len(shape)) if axis is None else axis
    if volume(shape) * k > g.max_elems:
        k = 1
    a = g.source(shape=tuple(shape[:axis]) + (k,) + tuple(shape[axis:]),
                 dtype=g.pick(['<f8', '<f8', '<i4', '<f4', '<i2']),
                 mode='small', consts=False)
    return op_agg(g, a, fns=['sum', 'max', 'min', 'mean', 'count'],
                  axis=axis)


def pieces(n, k, limit):
    """The sizes of the pieces of n items of k elements."""
    if n * k <= limit:
        return [n]
    step = max(limit // k, 1)
    return [min(step, n - start) for start in range(0, n, step)]


def reduced_pair(g):
    """
    Two aggregations, or an aggregation and a source, taken together: the
    sizes of the chunks of each depend on what it's been reduced from.
    Also gives a limit for the chunks.

    """
    if g.b():
        shape = g.shape(min_ndim=1, max_ndim=3, max_elems=g.max_elems // 4)
        limit = g.chunk()
        a = reduced(g, shape)
        if g.chance(1, 4):
            b = g.source(shape=shape, dtype='<f8', mode='small',
                         consts=False)
        else:
            b = reduced(g, shape)
    else:
        n, j, k = g.i(2, 14), g.i(1, 5), g.i(1, 5)
        shape = (g.i(1, 3),) * g.i(0, 1) + (n,)
        limits = range(1, n * j + 1)
        # As many pieces, but of other sizes.
        alike = [m for m in limits
                 if pieces(n, j, m) != pieces(n, k, m) and
                 len(pieces(n, j, m)) == len(pieces(n, k, m))]
        limit = g.pick(alike or limits)
        a = reduced(g, shape, j, len(shape))
        b = reduced(g, shape, k, len(shape))
    return op_ew2(g, a, other=b, close=False), limit


OPS = {'idx': op_index, 'T': op_transpose, 'bcast': op_broadcast,
       'astype': op_astype, 'maskeq': op_maskeq, 'stack': op_stack,
       'mosaic': op_mosaic, 'ew1': op_ew1, 'ew2': op_ew2, 'agg': op_agg,
       'shift': op_shift, 'box': op_box}


def grow(g, a, ops, n):
    """Apply ``n`` operations drawn from ``ops`` to node ``a``."""
    for _ in range(n):
        a = OPS[g.pick(ops)](g, a)
    return a

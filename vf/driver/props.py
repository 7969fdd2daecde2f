"""
One strategy of cases per property, with the rule by which a case counts as
non-trivial, and how many cases each tier runs.
"""
import functools
import traceback

from hypothesis import reject
from hypothesis import strategies as st
from hypothesis.errors import HypothesisException

from gen import (ADAPTERS, ANY_KIND, CHUNKS, WRAPPED, Gen, bcast_flags,
                 contained, grow, isize, keyed_axes, merge_flags, op_agg,
                 op_broadcast, op_ew1, op_ew2, op_index, op_mosaic, op_stack,
                 op_transpose, reduced_pair, try_broadcast, scalar_operand,
                 EW1_EXACT, EW1_CLOSE, EW2_EXACT, EW2_CLOSE, OPS, OTHER)

PROPS = {}
# Tracebacks of generators which failed (see run.py).
GENERATOR_ERRORS = []


class Prop(object):
    def __init__(self, strategy, rule, quick, thorough, hang_s=60):
        self.strategy = strategy
        self.rule = rule
        self.quick = quick          # cases per shard
        self.thorough = thorough
        self.hang_s = hang_s


def prop(pid, rule, quick, thorough, hang_s=60):
    def deco(f):
        @functools.wraps(f)
        def safe(draw):
            try:
                return f(draw)
            except HypothesisException:
                raise
            except Exception:
                GENERATOR_ERRORS.append(traceback.format_exc()[-2000:])
                reject()
        PROPS[pid] = Prop(st.composite(safe)(), rule, quick, thorough, hang_s)
        return f
    return deco


STRUCT = ['idx', 'idx', 'T', 'bcast', 'astype', 'maskeq', 'stack', 'mosaic']


# ------------------------------------------------------------ C01 - C03

@prop('C01', 'random compositions of 1-6 operations over 1-3 sources, the '
      'last of which is an index; non-trivial: a key other than a full slice '
      'selects a non-empty result', 1200, 40000)
def c01(draw):
    g = Gen(draw, max_elems=90)
    a = contained(g) if g.chance(1, 25) else g.source(strings=g.chance(1, 6))
    style = g.pick(['struct', 'struct', 'all', 'deepidx'])
    if style == 'struct':
        a = grow(g, a, STRUCT, g.i(0, 4))
    elif style == 'all':
        a = grow(g, a, STRUCT + ['ew1', 'ew2', 'agg', 'ew2'], g.i(1, 4))
    else:
        a = grow(g, a, ['bcast', 'T', 'idx', 'idx'], g.i(1, 4))
    a = op_index(g, a)
    if g.b():
        a = op_index(g, a)
    shape = g.shape_of(a)
    return {'nodes': g.nodes, 'out': [a], 'chunk': g.chunk(),
            'iterate': bool(shape) and isize(shape) <= 40 and g.chance(1, 8)}


def history_keys(g, shape, depth, generous):
    """Successive keys, as for a data source adapter."""
    hist = []
    for _ in range(depth):
        keys, _ = g.keys(shape, newaxis=False)
        for k in keys:
            if k[0] == 't' and g.chance(1, 3):
                k[0] = g.pick(['l', 'l', 'g'])
        shape, _ = keyed_axes(shape, (0,) * len(shape), keys)
        hist.append(keys)
    return hist


@prop('C02', 'a source of up to 4 dimensions and 1-5 successive key tuples; '
      'non-trivial: a key other than a full slice, and a non-empty result',
      2500, 90000)
def c02(draw):
    g = Gen(draw, max_elems=200, max_dim=9, kinds=ADAPTERS * 4 + WRAPPED)
    g.source(strings=g.chance(1, 6), consts=False)
    hist = history_keys(g, g.shape_of(0), g.i(1, 5), True)
    init = None
    if g.chance(1, 4) and all(k[0] not in 'en' for k in hist[0]):
        # Wrapped with the first of the keys.
        init = 'bare' if len(hist[0]) == 1 and hist[0][0][0] != 't' and \
            g.b() else 'tuple'
    return {'nodes': g.nodes, 'history': hist, 'init': init}


def long_mosaic(g):
    """Tiles of thousands of elements, indexed."""
    dtype = g.pick(['<f8', '<i4', '<i2', '|u1', 'S3'])
    axis = g.i(0, 1)
    tiles, total = [], 0
    for _ in range(g.i(2, 4)):
        n = g.pick([1, 2, g.i(3, 300), g.i(5000, 40000), g.i(20000, 40000)])
        tiles.append(g.source(
            shape=(n,) if axis == 0 else (2, n), dtype=dtype, consts=False,
            mode='distinct', mask=g.pick([None, [0, 1, 0]])))
        total += n
    a = g.derive({'op': 'mosaic', 'items': tiles, 'axis': axis}, tiles[0],
                 shape=(total,) if axis == 0 else (2, total))
    out = [a]
    for _ in range(g.i(1, 3)):
        a = op_index(g, a)
        out.append(a)
    return out


@prop('C03', 'stacks and mosaics, nested and of computed pieces, whole and '
      'then indexed up to twice; non-trivial: a key other than a full slice '
      'selects a non-empty result', 900, 30000)
def c03(draw):
    g = Gen(draw, max_elems=150, max_ndim=3)
    if g.chance(1, 60):
        out = long_mosaic(g)
        return {'nodes': g.nodes, 'out': out, 'chunk': None}
    a = g.source(strings=g.chance(1, 8))
    a = grow(g, a, ['idx', 'T', 'ew1', 'astype', 'maskeq', 'bcast', 'bcast'],
             g.i(0, 1))
    a = grow(g, a, ['stack', 'mosaic'], g.i(1, 2))
    out = [a]
    for _ in range(g.i(1, 2)):
        a = op_index(g, a)
        out.append(a)
    if g.chance(1, 4):
        a = grow(g, a, ['stack', 'mosaic'], 1)
        a = op_index(g, a)
        out.append(a)
    return {'nodes': g.nodes, 'out': out, 'chunk': g.chunk()}


# ------------------------------------------------------------ C04, C05

def grid(g):
    """Many operations with one small array, of any type."""
    a = g.source(shape=(g.i(1, 3),) if g.chance(3, 4) else (),
                 mode=g.pick([None, 'small', 'vals']))
    return [OPS[g.pick(['ew1', 'ew2', 'ew2', 'ew2', 'shift'])](g, a)
            for _ in range(g.i(6, 16))]


def elementwise(g):
    dt = None
    form = g.pick(['any', 'any', 'num', 'num', 'num'])
    if form == 'num':
        dt = g.pick(['<f8', '<f4', '<i4', '<i8', '<i2', '<u1', '>f4'])
    a = g.source(dtype=dt)
    a = grow(g, a, ['idx', 'T', 'bcast', 'astype', 'stack', 'mosaic'],
             g.pick([0, 0, 1, 2]))
    a = grow(g, a, ['ew1', 'ew2', 'ew2', 'ew2', 'ew2', 'shift'], g.i(1, 3))
    if g.chance(1, 3):
        a = grow(g, a, ['idx', 'T', 'ew2', 'ew1', 'astype'], g.i(1, 2))
    return a


TIMES = {'Mm': ['add', 'sub', 'subtract'], 'mM': ['add'],
         'MM': ['subtract', 'sub', 'less', 'less_equal', 'equal', 'not_equal',
                'maximum', 'minimum'],
         'mm': ['add', 'subtract', 'sub', 'greater', 'equal', 'maximum',
                'minimum', 'true_divide'],
         'mi': ['multiply', 'floor_divide'], 'im': ['multiply'],
         'mf': ['true_divide', 'multiply'],
         'm': ['negative', 'absolute', 'sign']}


def times(g):
    """Elementwise functions of dates and of times."""
    a = g.source(dtype=g.pick(['<M8[s]', '<m8[s]', '<m8[s]', '>M8[D]']),
                 consts=False, mask=None)
    a = grow(g, a, ['idx', 'T', 'bcast', 'stack', 'mosaic'],
             g.pick([0, 0, 1, 2]))
    kind, shape = g.kind_of(a), g.shape_of(a)
    form = g.pick([k for k in sorted(TIMES) if kind in k])
    fn = g.pick(TIMES[form])
    if len(form) == 1:
        return g.derive({'op': 'ew1', 'fn': fn, 'a': a}, a, dtype=None,
                        kind='m')
    left = form[0] == kind and (form[1] != kind or g.b())
    dtype = {'M': '<M8[s]', 'm': g.pick(['<m8[s]', '<m8[ms]']), 'i': '<i4',
             'f': '<f8'}[form[1] if left else form[0]]
    other = [s if g.chance(3, 4) else 1 for s in shape[g.i(0, len(shape)):]]
    b = g.source(shape=other, dtype=dtype, consts=False, mask=None,
                 mode='small' if dtype[1] in 'if' else None)
    style = 'operator' if g.b() and fn in (
        'add', 'sub', 'multiply', 'floor_divide', 'true_divide') \
        else None
    kind = 'b' if fn in ('less', 'less_equal', 'equal', 'not_equal',
                         'greater') else 'm'
    flags = merge_flags([bcast_flags(g, j, shape) for j in (a, b)])
    c = g.add({'op': 'ew2', 'fn': fn, 'a': a if left else b,
               'b': b if left else a, 'style': style}, shape=shape,
              dtype=None, kind=kind, bax=tuple(flags))
    return grow(g, c, ['idx', 'T'], g.i(0, 1))


@prop('C04', 'elementwise functions and operators over sources, constants, '
      'NumPy arrays, numbers and expressions; non-trivial: a non-empty '
      'result of at least one operation', 1000, 35000)
def c04(draw):
    g = Gen(draw, max_elems=60)
    if g.chance(1, 20):
        out = [times(g)]
    else:
        out = grid(g) if g.chance(1, 5) else [elementwise(g)]
    return {'nodes': g.nodes, 'out': out, 'chunk': g.chunk()}


@prop('C05', 'as C04 with masked operands; non-trivial: some but not '
      'necessarily all of the result is masked, or the operation must be '
      'refused', 1000, 35000)
def c05(draw):
    g = Gen(draw, max_elems=60)
    out = grid(g) if g.chance(1, 5) else [elementwise(g)]
    return {'nodes': g.nodes, 'out': out, 'chunk': g.chunk()}


# ------------------------------------------------------------ C06, C07

AGG_DT = ['<f8', '<f4', '<i4', '<i8', '<i2', '<u1', '|b1', '>f8', '<f8',
          '<c16', '>i4']


def aggregations(g):
    form = g.pick(['deep', 'plain', 'plain', 'plain'])
    a = g.source(shape=g.shape(min_ndim=1), dtype=g.pick(AGG_DT),
                 mode=g.pick([None, 'small', 'distinct', 'distinct', 'vals']))
    if form == 'deep':
        a = grow(g, a, ['idx', 'T', 'ew1', 'ew2', 'stack', 'mosaic', 'bcast',
                        'agg', 'maskeq'], g.i(1, 3))
    a = op_agg(g, a)
    if g.chance(1, 4):
        a = grow(g, a, ['idx', 'agg', 'ew2', 'T'], g.i(1, 2))
    return a


@prop('C06', 'aggregations of sources and expressions along every axis; '
      'non-trivial: a non-empty result', 1200, 40000)
def c06(draw):
    g = Gen(draw, max_elems=120, nonfinite=g_nonfinite(draw))
    if g.chance(1, 100):
        a, limit = long_case(g)
        return {'nodes': g.nodes, 'out': [a], 'chunk': limit}
    if g.chance(1, 40):
        a, limit = half_case(g)
        return {'nodes': g.nodes, 'out': [a], 'chunk': limit}
    if g.chance(1, 6):
        a = offset_case(g)
    elif g.chance(1, 25):
        a = time_aggregation(g)
    elif g.chance(1, 12):
        a, limit = reduced_pair(g)
        if g.b():
            a = op_agg(g, a)
        return {'nodes': g.nodes, 'out': [a], 'chunk': limit}
    else:
        a = aggregations(g)
    return {'nodes': g.nodes, 'out': [a], 'chunk': g.chunk()}


def time_aggregation(g):
    dtype = g.pick(['<M8[s]', '<m8[s]', '<m8[s]', '>m8[D]'])
    a = g.source(shape=g.shape(min_ndim=1), dtype=dtype, consts=False,
                 mask=None)
    a = grow(g, a, ['idx', 'T', 'bcast', 'mosaic'], g.i(0, 1))
    shape, bax = g.shape_of(a), g.meta[a]['bax']
    axes = [k for k, s in enumerate(shape) if s]
    if not axes or 0 in shape:
        return a
    k = g.pick(axes)
    fn = g.pick(['count', 'min', 'max'] + ['sum', 'mean', 'mean'] *
                (dtype[1] == 'm'))
    return g.add({'op': 'agg', 'fn': fn, 'a': a, 'axis': k, 'kw': {}},
                 shape=shape[:k] + shape[k + 1:], dtype=None, kind='m',
                 bax=bax[:k] + bax[k + 1:])


def long_case(g, mask=True):
    """Lanes of thousands of elements; also gives a limit for the chunks."""
    fns = g.pick([['count'], ['sum', 'mean'], ['min', 'max'],
                  ['std', 'var']])
    n = g.i(300, 3000) if 'std' in fns else g.i(30000, 70000)
    shape = g.pick([(n,), (n,), (n, 2), (2, n), (1, n, 2), (n, 1)])
    a = g.source(shape=shape, dtype=g.pick(
        ['<f8', '<f4', '<i4', '<i8', '<i2', '|u1', '>f8']), consts=False,
        mode=g.pick(['small', 'distinct']), mask=mask)
    a = op_agg(g, a, fns=fns, axis=shape.index(n))
    return a, g.pick([None, 1000, 4096, n - 1, n, 32768, 2 * n])


def half_case(g, mask=True):
    """Many half-precision values, whose total may not be one of them."""
    n = g.i(2, 900)
    shape = g.pick([(n,), (n, 1), (n, 2), (2, n), (1, n, 2)])
    a = g.source(shape=shape, dtype='<f2', consts=False, mode='small',
                 mask=mask)
    top = g.pick([8, 100, 2000])
    g.nodes[a]['data'] = {'m': 'vals', 'v': [
        g.i(-120, 120) + g.pick([0, top]) for _ in range(g.i(1, 9))]}
    g.meta[a].update(wild=False, half=False)
    a = op_agg(g, a, fns=['mean', 'mean', 'std', 'var'],
               axis=shape.index(n))
    return a, g.pick([None, 1, 7, 100, n - 1 or 1, n])


def g_nonfinite(draw):
    return draw(st.integers(0, 5)) == 5


def offset_case(g, mask=None):
    """Values with a large common offset."""
    shape = g.shape(min_ndim=1, max_ndim=3)
    a = g.source(shape=shape, dtype=g.pick(['<f8', '<f4', '<i8', '<i4']),
                 mode='distinct', consts=False,
                 mask=True if mask is None else mask)
    top = {'<f8': 10 ** 8, '<f4': 10 ** 4, '<i8': 10 ** 8,
           '<i4': 10 ** 8}[g.dtype_of(a)]
    g.nodes[a]['data']['off'] = g.pick([top, -top, top // 7])
    return op_agg(g, a, fns=['mean', 'std', 'var', 'sum']
                  if g.kind_of(a) == 'f' else ['mean', 'std', 'var'])


@prop('C07', 'as C06 with masks, mdtol and ddof; non-trivial: a non-empty '
      'result from a source with some elements masked', 1400, 45000)
def c07(draw):
    g = Gen(draw, max_elems=120, nonfinite=g_nonfinite(draw))
    if g.chance(1, 100):
        a, limit = long_case(g, [g.i(0, 1) for _ in range(g.i(1, 9))])
        return {'nodes': g.nodes, 'out': [a], 'chunk': limit}
    if g.chance(1, 40):
        a, limit = half_case(g, [g.i(0, 1) for _ in range(g.i(1, 9))])
        return {'nodes': g.nodes, 'out': [a], 'chunk': limit}
    if g.chance(1, 8):
        a = offset_case(g, mask=[g.i(0, 1) for _ in range(g.i(1, 9))])
    else:
        a = aggregations(g)
    return {'nodes': g.nodes, 'out': [a], 'chunk': g.chunk()}


# ------------------------------------------------------------ C08, C09

@prop('C08', 'expressions of 1-5 operations realised and saved under 2-3 '
      'limits against unlimited; non-trivial: some part is divided into more '
      'than one chunk', 250, 9000)
def c08(draw):
    g = Gen(draw, max_elems=100, nonfinite=False)
    limit = None
    if g.chance(1, 8):
        a, limit = reduced_pair(g)
        a = grow(g, a, ['idx', 'T', 'ew1', 'ew2', 'agg'], g.i(0, 1))
    else:
        a = g.source(dtype=g.pick(AGG_DT))
        a = grow(g, a, ['idx', 'T', 'bcast', 'stack', 'mosaic', 'ew1', 'ew2',
                        'ew2', 'ew2', 'agg', 'agg', 'maskeq'], g.i(1, 5))
    chunks = draw(st.lists(st.one_of(st.sampled_from(CHUNKS[1:]),
                                     st.integers(1, 120)),
                           min_size=2, max_size=3, unique=True))
    if g.big:
        chunks = sorted({8 * max(n, 5) for n in chunks})
    elif limit is not None and limit not in chunks:
        chunks[0] = limit
    return {'nodes': g.nodes, 'out': [a], 'chunks': chunks}


STRUCTURAL = ['idx', 'T', 'bcast', 'astype', 'maskeq', 'stack', 'mosaic',
              'mosaic', 'stack', 'ew2', 'agg', 'same']


def trace(g, one_in=1):
    """How often threads give way; see core.preempted."""
    if not g.chance(1, one_in):
        return None
    return [g.pick([2, 5, 12, 30]), g.i(0, 10 ** 6)]


def forest(g, n_out, n_ops, ops=None):
    """A pool of expressions over shared nodes, and some of them."""
    if g.chance(1, 10):
        shape = g.shape(min_ndim=1, max_ndim=5)
    else:
        shape = g.shape(min_ndim=1, max_ndim=3, max_elems=60)
    g.source(shape=shape, dtype=g.pick(AGG_DT), mode=g.pick(
        [None, 'small', 'distinct']))
    if g.b():
        g.source(shape=shape, dtype=g.pick(['<f8', '<i4']), mode='small')
    if g.pairs and g.chance(1, 10):
        g.limit = reduced_pair(g)[1]
    ops = ops or ['ew1', 'ew2', 'ew2', 'agg', 'agg', 'agg', 'idx', 'T',
                  'same', 'same']
    for _ in range(n_ops):
        usable = [j for j in range(len(g.nodes))
                  if not g.meta[j].get('raw')]
        a = g.pick(usable[-4:] + usable[:1])
        op = g.pick(ops)
        if op == 'same':
            # An operation between two existing nodes.
            others = [j for j in usable if g.shape_of(j) == g.shape_of(a)]
            if g.meta[a]['kind'] not in OTHER:
                op_ew2(g, a, other=g.pick(others))
        else:
            grow(g, a, [op], 1)
    pool = [j for j in range(len(g.nodes)) if not g.meta[j].get('raw')]
    late = [j for j in pool if g.nodes[j]['op'] not in ('src', 'const')]
    return [g.pick(g.pick([late or pool, late or pool, pool]))
            for _ in range(n_out)]


@prop('C09', 'joint requests of 2-5 expressions from a pool which shares '
      'sources and sub-expressions; non-trivial: two of the requested share '
      'something', 500, 16000)
def c09(draw):
    g = Gen(draw, max_elems=80, nonfinite=False)
    g.pairs = True
    out = forest(g, g.i(2, 5) if g.chance(11, 12) else g.i(6, 16),
                 g.i(2, 6), ops=g.pick([None, None, STRUCTURAL]))
    return {'nodes': g.nodes, 'out': out, 'masked': g.b(),
            'chunk': g.limit or g.chunk(), 'trace': trace(g, 6)}


# ------------------------------------------------------------ C10

@prop('C10', 'compositions of 1-5 operations over every data type, with '
      'zero-dimensional and empty arrays; non-trivial: at least one '
      'operation', 1000, 35000)
def c10(draw):
    g = Gen(draw, max_elems=60)
    a = contained(g) if g.chance(1, 25) else g.source(strings=g.chance(1, 5))
    a = grow(g, a, ['idx', 'T', 'bcast', 'astype', 'maskeq', 'stack',
                    'mosaic', 'ew1', 'ew2', 'ew2', 'agg', 'agg'], g.i(1, 4))
    if g.chance(1, 3):
        # Down to no dimensions.
        keys = [['i', g.i(0, s - 1)] for s in g.shape_of(a) if s]
        if len(keys) == len(g.shape_of(a)):
            a = g.derive({'op': 'idx', 'a': a, 'keys': keys, 'bare': False},
                         a, shape=(), bax=())
            if g.chance(1, 3):
                a = grow(g, a, ['ew1', 'ew2', 'astype'], 1)
    return {'nodes': g.nodes, 'out': [a], 'chunk': g.chunk()}


# ------------------------------------------------------------ C11, C12

@prop('C11', 'compositions over recording sources with orthogonal indexing, '
      'and joint requests which share them; non-trivial: only part of the '
      'sources is needed, or a source is shared', 1400, 50000)
def c11(draw):
    g = Gen(draw, max_elems=90, kinds=('ortho',), nonfinite=False)
    kind = g.pick(['needed', 'needed', 'shared'])
    if kind == 'needed':
        a = g.source(consts=False)
        a = grow(g, a, ['idx', 'idx', 'T', 'bcast', 'astype', 'maskeq',
                        'stack', 'mosaic', 'ew1', 'ew2', 'agg'], g.i(1, 4))
        for _ in range(g.i(1, 2)):
            a = op_index(g, a)
        out, chunk = [a], g.chunk()
    else:
        shape = g.shape(min_ndim=1, max_ndim=3, max_elems=60)
        for _ in range(g.i(1, 2)):
            g.source(shape=shape, dtype=g.pick(['<f8', '<i4', '<f4']),
                     mode='small', consts=False)
        ids = list(range(len(g.nodes)))
        agg = g.b()
        for _ in range(g.i(1, 4)):
            a = g.pick([j for j in range(len(g.nodes))
                        if g.shape_of(j) == shape])
            form = g.pick(['ew1', 'ew2', 'scalar'])
            if form == 'ew1':
                op_ew1(g, a)
            elif form == 'ew2':
                op_ew2(g, a, other=g.pick([j for j in range(len(g.nodes))
                                           if g.shape_of(j) == shape]))
            else:
                x, xk = scalar_operand(g, None, None)
                g.add({'op': 'ew2', 'fn': 'add', 'a': a, 'b': x,
                       'style': None}, shape=shape, dtype=None, kind='f')
        if agg:
            for _ in range(g.i(1, 3)):
                a = g.pick([j for j in range(len(g.nodes))
                            if g.shape_of(j) == shape])
                op_agg(g, a)
        pool = [j for j in range(len(g.nodes))
                if g.nodes[j]['op'] != 'src'] or ids
        out = [g.pick(pool) for _ in range(g.i(1, 4))]
        chunk = None if agg else g.chunk()
    return {'nodes': g.nodes, 'out': out, 'kind': kind, 'masked': g.b(),
            'chunk': chunk}


@prop('C12', 'expressions over recording sources bigger than the limit, and '
      'pairs of sources of differing speed; non-trivial: a source exceeds '
      'the limit and is read in several parts', 900, 30000)
def c12(draw):
    g = Gen(draw, max_elems=120, kinds=('ortho',), nonfinite=False)
    if g.chance(1, 40):
        return {'kind': 'ahead', 'n': g.i(45, 70),
                'depth': [g.i(0, 3), g.i(0, 3)], 'slow': g.i(0, 1),
                'delay': g.pick([1, 2]), 'width': g.i(1, 4), 'agg': g.b(),
                'masked': g.b()}
    if g.chance(1, 80):
        mask = g.b()
        fn = g.pick(['save', 'max+std', 'count+mean',
                     'count+min+max+sum+mean'] +
                    ['count+min+max+sum+mean+std+var'] * 2)
        return {'kind': 'memory', 'n': 150, 'width': 509, 'fn': fn,
                'axis': g.i(0, 1) if fn[-1] == 'n' else 0,
                'srcs': g.i(1, 2), 'depth': [g.i(0, 1), g.i(0, 1)],
                'mask': mask, 'masked': g.b()}
    how = g.pick(['save', 'save', 'realise', 'joint'])
    a = g.source(consts=False, dtype=g.pick(AGG_DT))
    if how == 'save':
        a = grow(g, a, ['idx', 'T', 'bcast', 'astype', 'maskeq', 'stack',
                        'mosaic', 'ew1', 'ew2', 'agg'], g.i(0, 4))
    else:
        a = grow(g, a, ['idx', 'T', 'stack', 'mosaic', 'astype', 'maskeq',
                        'bcast'], g.i(0, 2))
        a = grow(g, a, ['ew1', 'ew2', 'agg'], 1)
        if g.nodes[a]['op'] == 'agg' and g.b():
            a = grow(g, a, ['ew1', 'ew2'], 1)
        if g.nodes[a]['op'] not in ('ew1', 'ew2', 'agg'):
            how = 'save'
    return {'kind': 'reads', 'nodes': g.nodes, 'out': [a], 'how': how,
            'masked': g.b(), 'chunk': g.chunk(CHUNKS[1:])}


# ------------------------------------------------------------ C13 - C15

@prop('C13', 'arrays of 0-4 dimensions saved to checking targets; '
      'non-trivial: more than one chunk written', 1200, 40000)
def c13(draw):
    g = Gen(draw, max_elems=120, nonfinite=False,
            kinds=g_pick(draw, [('ortho',), ANY_KIND]))
    a = g.source(strings=g.chance(1, 8))
    a = grow(g, a, ['idx', 'T', 'bcast', 'astype', 'maskeq', 'stack',
                    'mosaic', 'ew1', 'ew2', 'agg'], g.i(0, 3))
    return {'nodes': g.nodes, 'out': [a], 'masked': g.b(),
            'explicit': g.b(), 'chunk': g.chunk(CHUNKS + [5, 7, 11]),
            'fail_at': g.i(0, 6) if g.chance(1, 6) else None}


def g_pick(draw, seq):
    return draw(st.sampled_from(seq))


FAULTS = ['raise', 'raise', 'ioerror', 'systemexit', 'keyboard',
          'stopiteration', 'AttributeError', 'AttributeError', 'TypeError',
          'IndexError', 'KeyError', 'ValueError', 'NotImplementedError',
          'AssertionError', 'MemoryError', 'EOFError', 'GeneratorExit']


@prop('C14', 'one or several expressions sharing sources, with an exception '
      'at one of their reads; non-trivial: more than one read', 450, 15000,
      hang_s=40)
def c14(draw):
    g = Gen(draw, max_elems=60, kinds=('npsrc', 'ortho') * 3 + ('user',),
            nonfinite=False)
    out = forest(g, g.i(1, 4), g.i(1, 5), ops=g.pick([None, None, STRUCTURAL]))
    masked = g.b()
    good = [j for j in range(len(g.nodes)) if g.kind_of(j) == 'f' and
            not g.meta[j].get('raw')]
    if masked and good and g.chance(1, 4):
        # Something which isn't defined for masked arrays.
        bad = g.derive({'op': 'ew1', 'a': g.pick(good),
                        'fn': g.pick(['isnan', 'signbit', 'trunc'])},
                       good[0], kind='b', dtype=None)
        out.insert(g.i(0, len(out)), bad)
        return {'nodes': g.nodes, 'out': out, 'masked': True,
                'undefined': bad, 'how': g.pick(['joint', 'joint', 'save']),
                'chunk': g.chunk()}
    ints = [j for j in range(len(g.nodes)) if g.kind_of(j) == 'i' and
            not g.meta[j].get('raw') and g.dtype_of(j) is not None and
            g.shape_of(j) and isize(g.shape_of(j))]
    if ints and g.chance(1, 4):
        # Something which fails while computing, in one of the chunks:
        # integers can't be raised to negative integer powers.
        a = g.pick(ints)
        shape = g.shape_of(a)
        n = isize(shape)
        powers = [0] * n
        powers[g.i(0, n - 1)] = -1
        b = g.add({'op': 'src', 'kind': g.pick(['npsrc', 'ortho']),
                   'dtype': g.dtype_of(a), 'shape': list(shape),
                   'data': {'m': 'vals', 'v': powers}, 'mask': None,
                   'layout': None},
                  shape=shape, dtype=g.dtype_of(a), src=True)
        bad = g.derive({'op': 'ew2', 'a': a, 'b': b, 'fn': 'power'}, a)
        if g.b():
            bad = g.derive({'op': 'ew1', 'a': bad, 'fn': 'negative'}, bad)
        if g.b():
            axis = g.i(0, len(shape) - 1)
            bad = g.derive({'op': 'agg', 'fn': g.pick(['sum', 'max', 'count']),
                            'a': bad, 'axis': axis, 'kw': {}}, bad,
                           shape=shape[:axis] + shape[axis + 1:],
                           bax=(0,) * (len(shape) - 1))
        out.insert(g.i(0, len(out)), bad)
        return {'nodes': g.nodes, 'out': out, 'masked': masked,
                'undefined': bad, 'how': g.pick(['joint', 'joint', 'save']),
                'chunk': g.chunk(), 'trace': trace(g, 4)}
    return {'nodes': g.nodes, 'out': out, 'masked': masked,
            'how': g.pick(['joint', 'joint', 'save', 'each']),
            'fault': g.i(0, 40), 'fault_kind': g.pick(FAULTS),
            'chunk': g.chunk(), 'trace': trace(g, 4)}


@prop('C15', 'expressions over sources with delays, evaluated by 1-6 threads '
      'at once; non-trivial: more than one read', 300, 9000)
def c15(draw):
    g = Gen(draw, max_elems=48, kinds=('npsrc', 'ortho', 'np', 'user'),
            nonfinite=False)
    out = sorted(set(forest(g, g.i(1, 4), g.i(1, 5),
                            ops=g.pick([None, STRUCTURAL]))))
    if g.chance(1, 3):
        # The same, at the same time.
        requests = [[out[-1]]] * g.i(2, 6)
    else:
        requests = [[g.pick(out) for _ in range(g.i(1, 3))]
                    for _ in range(g.i(1, 6))]
    requests = [r if g.chance(2, 3) else
                {'how': g.pick(['rebuild', 'rebuild', 'describe', 'save',
                                'each']), 'r': r} for r in requests]
    delays = g.draw(st.lists(st.sampled_from([0, 0, 0, 1, 2, 4]),
                             min_size=1, max_size=7))
    return {'nodes': g.nodes, 'out': out, 'masked': g.b(),
            'delays': delays, 'requests': requests,
            'switch': g.pick([5e-3, 1e-5, 1e-6]),
            # Preempted at random lines.
            'trace': trace(g, 2),
            'chunk': g.chunk(CHUNKS[2:])}


# ------------------------------------------------------------ C16

@prop('C16', 'expressions through both engines, and sets of chunk '
      'boundaries; non-trivial: non-empty results, or more than one common '
      'piece', 1000, 30000)
def c16(draw):
    g = Gen(draw, max_elems=80, nonfinite=False)
    if g.chance(1, 3):
        length = g.i(1, 24)
        shared = draw(st.lists(st.integers(1, 24), max_size=4))
        cuts, perms = [], []
        for _ in range(g.i(1, 4)):
            own = draw(st.lists(st.integers(1, 24), max_size=5))
            pts = sorted(set([q for q in shared if not g.chance(1, 5)] +
                             own))
            cuts.append([pts, g.i(0, 1)])
            perms.append(g.perm(range(10)))
        if g.chance(1, 20):
            # A great many pieces.
            length = g.i(9000, 24000)
            step = g.pick([1, 1, 2, 3])
            cuts[g.i(0, len(cuts) - 1)] = [['every', step, g.i(1, 3)], 0]
            if len(cuts) > 1 and g.b():
                cuts[0] = [['every', step * g.pick([1, 2, 7]), step], 1]
        return {'kind': 'group', 'length': length, 'cuts': cuts,
                'perms': perms}
    if g.chance(1, 10):
        a, g.limit = reduced_pair(g)
    else:
        a = g.source(shape=g.shape(min_ndim=1), dtype=g.pick(AGG_DT),
                     mode=g.pick([None, 'small', 'distinct']))
    out = forest_from(g, a, g.i(1, 5))
    return {'kind': 'expr', 'nodes': g.nodes, 'out': out, 'masked': g.b(),
            'getter': g.pick(['sync', 'threaded']), 'default': g.b(),
            'chunk': g.limit or g.chunk(), 'trace': trace(g, 4)}


def forest_from(g, a, n_ops):
    structural = g.chance(1, 3)
    for _ in range(n_ops):
        usable = [j for j in range(len(g.nodes))
                  if not g.meta[j].get('raw')]
        a = g.pick(usable[-3:])
        grow(g, a, ['ew1', 'ew2', 'ew2', 'agg', 'agg', 'idx', 'T'] +
             (STRUCTURAL[:-1] if structural else []), 1)
    late = [j for j in range(len(g.nodes))
            if g.nodes[j]['op'] in ('ew1', 'ew2', 'agg')]
    pool = late or [j for j in range(len(g.nodes))
                    if not g.meta[j].get('raw')]
    return [g.pick(pool) for _ in range(g.i(1, 3))]


# ------------------------------------------------------------ C17

@prop('C17', 'histories of 2-7 realisations, joint evaluations, saves, '
      'copies and descriptions over a pool of arrays; non-trivial: at least '
      'two steps', 700, 22000)
def c17(draw):
    g = Gen(draw, max_elems=60)
    forest(g, 1, g.i(1, 6), ops=['idx', 'T', 'bcast', 'astype', 'maskeq',
                                 'stack', 'mosaic', 'ew1', 'ew2', 'agg',
                                 'ew2', 'agg', 'same'])
    pool = [j for j in range(len(g.nodes)) if not g.meta[j].get('raw')]
    hist = []
    for _ in range(g.i(2, 7)):
        kind = g.pick(['realise', 'realise', 'joint', 'save', 'describe',
                       'copy'])
        act = [kind]
        if kind == 'joint':
            act += [[g.pick(pool) for _ in range(g.i(1, 4))], g.b()]
        elif kind in ('realise', 'save'):
            act += [g.pick(pool), g.b()]
        elif kind == 'copy':
            act += [g.pick(pool), g.b(), g.b()]
        act.append(g.chunk())
        hist.append(act)
    # What the arrays were made with is changed, at some point.
    if g.b():
        hist.insert(g.i(0, len(hist) - 1), ['spoil', None])
    # Each array is realised at least once, most of the time.
    if g.chance(3, 4):
        hist += [['realise', j, g.b(), g.chunk()] for j in pool
                 if g.nodes[j]['op'] not in ('src', 'const')]
    case = {'nodes': g.nodes, 'history': hist}
    if g.chance(1, 4):
        shape = [g.i(1, 3) for _ in range(g.i(1, 3))]
        item = [g.i(1, 3) for _ in range(g.i(0, 2))]
        keys = g.keys(tuple(shape) + tuple(item), newaxis=False)[0]
        case['stack'] = {
            'shape': shape, 'item': item, 'keys': keys,
            'assign': [[g.i(0, 30), g.i(0, 9)]
                       for _ in range(g.i(1, 3))],
            'neg': [g.b() for _ in shape],
            'nest': g.pick([None, [g.i(0, 30), g.i(0, 30)]])}
    return case


# ------------------------------------------------------------ C18

def bad_axis_index(g, size):
    return g.pick([size, size + 1, -size - 1, size + 7, -size - 9])


def index_request(g, a):
    shape, bax = g.shape_of(a), g.meta[a]['bax']
    ndim = len(shape)
    whys = ['many', 'float', 'str', 'many-ellipsis']
    if ndim:
        whys += ['int', 'int', 'npint', 'slice-float', 'slice-zero',
                 'boolean', 'tuple', 'tuple', 'bool', 'bool', 'array',
                 'bool2d', 'boolean-tuple']
        if g.nodes[a]['op'] == 'src':
            whys.append('tuple-float')
    why = g.pick(whys)
    if why in ('many', 'many-ellipsis'):
        keys = [['i', 0] if s and g.b() else ['s', None, None, None]
                for s in shape] + [['s', None, None, None]] * g.i(1, 2)
        if why == 'many-ellipsis':
            keys.insert(g.i(0, len(keys)), ['e'])
        return {'t': 'index', 'keys': keys, 'why': why}
    if why in ('float', 'str', 'slice-float', 'slice-zero') or not ndim:
        bad = {'float': ['f', g.pick([0.0, 1.5])], 'str': ['x', 'a'],
               'slice-zero': ['s0']}.get(why, ['sf', 0.5])
        if not ndim:
            return {'t': 'index', 'keys': [bad], 'why': 'scalar-' + why}
        ax = g.i(0, ndim - 1)
    elif why == 'boolean':
        ax = g.i(0, ndim - 1)
        bad = [g.pick(['B', 'nB']), g.i(0, 1)]
    elif why in ('int', 'npint'):
        ax = g.i(0, ndim - 1)
        v = bad_axis_index(g, shape[ax])
        bad = ['i', v] if why == 'int' else ['I', v, 'int64']
    else:
        # NB. Some axes take no sequences at all.
        ax = g.i(0, ndim - 1)
        size = shape[ax]
        if why in ('tuple', 'array'):
            vals = [g.i(-size, size - 1) for _ in range(g.i(0, 3))] \
                if size else []
            vals.insert(g.i(0, len(vals)), bad_axis_index(g, size))
            bad = ['t' if why == 'tuple' else 'a', vals]
        elif why == 'bool':
            n = g.pick([size + 1, max(size - 1, 0), size + 3])
            if n == size:
                n += 1
            bad = ['b', [g.i(0, 1) for _ in range(n)]]
        elif why == 'tuple-float':
            bad = ['tf']
        elif why == 'boolean-tuple':
            bad = [g.pick(['tB', 'lB']),
                   [g.i(0, 1) for _ in range(max(size, 1))]]
        else:
            bad = ['bb', size]
    keys = []
    for k in range(ndim):
        keys.append(bad if k == ax else g.axis_key(shape[k], bax[k]))
    if g.b():
        keys = keys[:ax + 1]
    return {'t': 'index', 'keys': keys, 'why': why,
            'init': g.nodes[a]['op'] == 'src' and g.b() and
            all(k[0] not in 'en' for k in keys),
            'bare': len(keys) == 1 and keys[0][0][0] != 't' and g.b()}


@prop('C18', 'one invalid request against an array built by 0-3 operations; '
      'every case is non-trivial', 3500, 120000)
def c18(draw):
    g = Gen(draw, max_elems=60, nonfinite=False, kinds=ADAPTERS)
    a = g.source()
    a = grow(g, a, ['idx', 'T', 'bcast', 'astype', 'maskeq', 'stack',
                    'mosaic', 'ew1', 'ew2', 'agg'], g.i(0, 3))
    from gen import definite
    t = g.pick(['index', 'index', 'index', 'index', 'agg', 'transpose',
                'operand', 'stack', 'mosaic', 'mosaic-axis', 'bcast',
                'operand-type', 'stack-size', 'const'])
    shape = g.shape_of(a)
    nd = len(shape)
    if t in ('operand', 'stack', 'mosaic') and (not nd or 0 in shape):
        t = 'index'
    if t in ('stack', 'mosaic', 'stack-size'):
        a = definite(g, a)
    if t == 'index':
        req = index_request(g, a)
    elif t == 'agg':
        v = g.pick([nd, nd + 1, -nd - 1, -nd - 3, None, 'list', True, 0.0,
                    'x'])
        why = 'range'
        if v is True or v == 'x' or isinstance(v, float):
            why = 'type'
        elif v is None or v == 'list':
            why = 'none' if v is None else 'several'
            if v == 'list':
                v = [0, 1]
        req = {'t': t, 'fn': g.pick(['count', 'min', 'max', 'sum', 'mean',
                                     'std', 'var']), 'axis': v, 'why': why}
    elif t == 'transpose':
        form = g.pick(['short', 'long', 'repeat', 'range', 'type'])
        axes = list(range(nd))
        if form == 'short' and nd:
            axes = axes[1:]
        elif form == 'repeat' and nd > 1:
            axes[0] = axes[1]
        elif form == 'range' and nd:
            axes[g.i(0, nd - 1)] = g.pick([nd, nd + 2, -nd - 1])
        elif form == 'type' and nd:
            k = g.i(0, nd - 1)
            axes[k] = bool(k) if k < 2 and g.b() else float(k)
        else:
            form = 'long'
            axes = axes + [0] if nd else [0]
        req = {'t': t, 'axes': axes, 'why': form}
    elif t == 'operand':
        ax = g.i(0, nd - 1)
        s = list(shape)
        s[ax] = s[ax] + 1 if s[ax] > 1 else 0
        if s[ax] == 0:
            cands = [k for k in range(nd) if shape[k] > 1]
            if not cands:
                return dict(nodes=g.nodes, out=[a],
                            request=index_request(g, a))
            ax = g.pick(cands)
            s = list(shape)
            s[ax] += 1
        s = s[g.i(0, ax):]
        req = {'t': t, 'shape': s, 'flip': g.b(), 'op': g.b(),
               'fn': g.pick(['add', 'multiply', 'maximum', 'less']),
               'why': 'shape'}
    elif t == 'operand-type':
        req = {'t': t, 'fn': g.pick(['add', 'multiply', 'less']),
               'v': g.pick(['none', 'dict', 'list']), 'why': 'type'}
    elif t == 'stack':
        s = list(shape)
        why = g.pick(['shape', 'dtype', 'ndim'])
        dt = g.dtype_of(a)
        if why == 'shape':
            s[g.i(0, nd - 1)] += g.pick([1, 2])
        elif why == 'ndim':
            s = s + [1] if g.b() else s[1:]
        else:
            dt = '<f8' if dt != '<f8' else '<i4'
        req = {'t': t, 'shape': s, 'dtype': dt, 'flip': g.b(), 'md': g.b(),
               'set': g.b(), 'why': why}
    elif t == 'stack-size':
        n = g.i(1, 6)
        ss = [g.i(1, 4) for _ in range(g.i(1, 2))]
        if isize(ss) == n:
            ss[0] += 1
        req = {'t': t, 'n': n, 'shape': ss, 'why': 'size'}
    elif t == 'mosaic':
        ax = g.i(0, nd - 1)
        s = list(shape)
        dt = g.dtype_of(a)
        why = g.pick(['dtype', 'ndim', 'shape'])
        if why == 'shape' and nd > 1:
            k = g.pick([k for k in range(nd) if k != ax])
            s[k] += 1
        elif why == 'ndim':
            s = s + [1]
        else:
            why = 'dtype'
            dt = '<f8' if dt != '<f8' else '<i4'
        req = {'t': t, 'shape': s, 'dtype': dt, 'axis': ax, 'flip': g.b(),
               'why': why}
    elif t == 'const':
        s = list(shape) or [1]
        s[g.i(0, len(s) - 1)] = -g.i(1, 3)
        req = {'t': t, 'fn': g.pick(['zeros', 'ones', 'const']), 'shape': s,
               'why': 'negative'}
    elif t == 'mosaic-axis':
        req = {'t': t, 'axis': g.pick([nd, nd + 1, -1, -nd - 1]),
               'why': 'axis'}
    else:
        dims = {}
        why = g.pick(['not-one', 'axis', 'negative', 'fraction'])
        # An axis which has been broadcast may be again.
        cands = [k for k in range(nd) if shape[k] > 1] \
            if g.nodes[a]['op'] not in ('bcast', 'idx', 'T') else []
        lead = []
        if why == 'not-one' and cands:
            k = g.pick(cands)
            dims[str(k)] = shape[k] + 1
        elif why == 'negative' and 1 in shape:
            dims[str(shape.index(1))] = -1
        elif why == 'fraction':
            if 1 in shape and g.b():
                dims[str(shape.index(1))] = g.pick([2.5, 2.0])
            else:
                lead = [2, 1.5] if g.b() else [3.0]
        else:
            why = 'axis'
            dims[str(g.pick([nd, nd + 1, -1, -nd - 1]))] = 2
        req = {'t': t, 'dims': dims, 'lead': lead, 'why': why}
    return {'nodes': g.nodes, 'out': [a], 'request': req}


# ------------------------------------------------------------ C19

@prop('C19', 'sources with masks and fill values, alone and in stacks and '
      'mosaics, indexed, and masked by value; non-trivial: something is '
      'masked', 2500, 90000)
def c19(draw):
    # (What is computed has no fill value of its own.)
    g = Gen(draw, max_elems=80, kinds=[k for k in ANY_KIND if k != 'wrape'])

    # Sources everywhere in the program carry fill values.
    plain = g.source

    def source(*args, **kw):
        kw.setdefault('fills', True)
        kw.setdefault('mode', g.pick([None, None, 'close']))
        return plain(*args, **kw)
    g.source = source
    a = g.source(strings=g.chance(1, 10))
    a = grow(g, a, ['idx', 'idx', 'stack', 'mosaic', 'maskeq', 'idx', 'T',
                    'bcast', 'box'], g.i(0, 4))
    if g.b():
        a = op_index(g, a, newaxis=False)
    return {'nodes': g.nodes, 'out': [a], 'chunk': g.chunk()}


# ------------------------------------------------------------ C20

HUGE = [2 ** 31, 2 ** 31 - 1, 2 ** 32, 2 ** 33 + 3, 10 ** 9, 10 ** 12,
        65536, 10 ** 6, 46341, 2 ** 16 + 1]


def huge_size(g, limit=10 ** 18):
    """A length of no particular form."""
    bits = g.i(31, 59)
    return min(limit, g.i(1, 4) * 2 ** bits // g.pick([1, 2, 3]) +
               g.i(-9, 9))


def huge_shape(g, nd=None):
    nd = g.i(1, 4) if nd is None else nd
    shape, n = [], 1
    for _ in range(nd):
        s = g.pick(HUGE + [1, 2, 3, 5, None, None, None])
        if s is None:
            s = huge_size(g)
        if n * s > 10 ** 18:
            s = g.i(1, 3)
        n *= s
        shape.append(s)
    if n < 2 ** 31:
        k = g.i(0, nd - 1)
        most = 10 ** 18 // max(1, n // shape[k])
        shape[k] = huge_size(g, most) if g.b() else \
            2 ** 33 // max(1, n // shape[k]) + 7
    return shape


def huge_key(g, size, want):
    """A key that leaves at most ``want`` of an axis (None: anything)."""
    form = g.pick(['i', 's', 's', 'step'])
    if want is None:
        form = g.pick(['full', 'i', 's', 'wide', 'rev'])
    edge = min(size, 9)
    if form == 'full':
        return ['s', None, None, None]
    if form == 'i':
        k = g.pick([0, size - 1, -1, -size, size // 2, size // 3])
        return ['i', k]
    if form == 'wide':
        if size <= 9:
            return ['s', g.pick([None, 1, 0]) if size > 2 else None, None,
                    g.pick([None, 2, 3, -1]) if size > 2 else None]
        start, stop = g.pick([None, 1, 0, -5, -size]), None
        if start != -5 and g.b():
            stop = g.pick([size - 1, -1, size, size + 3, -7])
        step = g.pick([None, 2, 3, 7, -1, -2])
        return ['s'] + ([stop, start] if (step or 1) < 0
                        else [start, stop]) + [step]
    if form == 'rev':
        return ['s', None, None, -1]
    n = g.i(0, min(want or 3, edge)) if g.chance(1, 8) else \
        g.i(1, min(want or 3, edge))
    if form == 's':
        start = g.pick([0, size - n, (size - n) // 2,
                        g.i(0, size - n)])
        stop = start + n
        if size > 9 and n and g.chance(1, 4):
            # From the end.
            start -= size
            stop = stop - size or None
        return ['s', start, stop, None]
    step = max(1, size // n) if n else 1
    if n and g.b():
        return ['s', None, None, -step if -(-size // step) <= 9 else -size]
    return ['s', 0, None, step if -(-size // step) <= 9 else size]


@prop('C20', 'arrays of 2**31 to 10**18 elements, described, combined, and '
      'cut down to a small selection which is realised with memory limited; '
      'non-trivial: at least one array has 2**31 elements', 1500, 50000)
def c20(draw):
    g = Gen(draw, max_elems=10 ** 18, kinds=('np', 'ortho'),
            nonfinite=False, zero_dims=False)
    dts = ['<f8', '<f4', '<i4', '<i8', '<u1', '|b1']

    def const(shape):
        dt = g.pick(dts)
        return g.add({'op': 'const', 'shape': list(shape), 'dtype': dt,
                      'value': g.pick([0, 1, 3, 1]), 'via': None},
                     shape=tuple(shape), dtype=dt)

    def spread():
        small = [g.pick([1, 1, 2, 3]) for _ in range(g.i(0, 3))]
        if 1 not in small:
            small.append(1)
        a = g.source(shape=tuple(small), dtype=g.pick(dts), mode='small',
                     consts=False)
        ones = [k for k, s in enumerate(small) if s == 1]
        full = huge_shape(g, len(ones))
        room = 10 ** 18 // isize(small)
        dims, new, n = {}, list(small), 1
        for k, s in zip(ones, full):
            if n * s > room:
                s = 2
            n *= s
            dims[str(k)] = s
            new[k] = s
        lead = []
        if g.chance(1, 3) and n * 5 * isize(small) < 10 ** 18:
            lead = [g.pick([2, 5])]
        flags = [2 if str(k) in dims else 0 for k in range(len(small))]
        return g.derive({'op': 'bcast', 'a': a, 'dims': dims, 'lead': lead},
                        a, shape=tuple(lead) + tuple(new),
                        bax=(0,) * len(lead) + tuple(flags))

    def index(a, want):
        shape, bax = g.shape_of(a), g.meta[a]['bax']
        keys = [['s', None, None, None] if s == 0
                else huge_key(g, s, want) if s > 6 or want is None
                else g.axis_key(s, bax[k])
                for k, s in enumerate(shape)]
        if want is None and g.b():
            keys = keys[:g.i(0, len(keys))]
        if g.chance(1, 5) and len(shape) < 5:
            keys.insert(g.i(0, len(keys)), ['n'])
        new, flags = keyed_axes(shape, bax, keys)
        return g.derive({'op': 'idx', 'a': a, 'keys': keys, 'bare': False},
                        a, shape=new, bax=flags)

    def agg(a):
        shape = g.shape_of(a)
        axes = [k for k, s in enumerate(shape) if 0 < s <= 6]
        if not axes:
            return a
        return op_agg(g, a, axis=g.pick(axes))

    a = const(huge_shape(g)) if g.b() else spread()
    for _ in range(g.i(0, 4)):
        op = g.pick(['idx', 'idx', 'T', 'ew1', 'ew2', 'ew2', 'stack',
                     'mosaic', 'agg', 'astype', 'maskeq'])
        shape = g.shape_of(a)
        kind = g.kind_of(a)
        if op == 'idx':
            a = index(a, None)
        elif op == 'T':
            a = op_transpose(g, a)
        elif op == 'ew1':
            fn = 'logical_not' if kind == 'b' else g.pick(
                ['absolute', 'square', 'sign'])
            a = g.derive({'op': 'ew1', 'fn': fn, 'a': a}, a,
                         kind=kind, dtype='|b1' if kind == 'b' else None)
        elif op == 'ew2':
            form = g.pick(['scalar', 'same', 'huge', 'row'])
            full, flags = shape, g.meta[a]['bax']
            if form == 'scalar':
                x, xk = scalar_operand(g, None, None)
            elif form == 'same':
                x, xk = a, kind
            elif form == 'huge':
                x = const(shape)
                xk = g.kind_of(x)
            else:
                s = [1 if n > 6 or g.b() else n for n in shape]
                x = g.source(shape=tuple(s), dtype=g.pick(['<f8', '<i4']),
                             mode='small', consts=False)
                xk = g.kind_of(x)
                flags = tuple(2 if n != m else f
                              for n, m, f in zip(s, shape, flags))
            fn = g.pick(['add', 'multiply', 'less', 'maximum'])
            rank = max(kind, xk, key=lambda k: 'biufc'.index(k)
                       if k != 'u' else 1)
            k = 'b' if fn == 'less' else rank
            p, q = (x, a) if g.chance(1, 3) else (a, x)
            a = g.add({'op': 'ew2', 'fn': fn, 'a': p, 'b': q, 'style': None},
                      shape=tuple(full), kind=k,
                      dtype='|b1' if k == 'b' else None, bax=tuple(flags))
        elif op == 'stack' and isize(shape) <= 10 ** 17 and len(shape) < 5:
            from gen import definite
            a = definite(g, a)
            n = g.i(1, 4)
            items = [a] * n
            if n > 1 and g.b():
                items[g.i(0, n - 1)] = g.add(
                    {'op': 'const', 'shape': list(shape),
                     'dtype': g.dtype_of(a), 'value': 1, 'via': None},
                    shape=shape, dtype=g.dtype_of(a))
            ss = [n]
            a = g.derive({'op': 'stack', 'items': items, 'shape': ss}, a,
                         shape=tuple(ss) + shape,
                         bax=(0,) + g.meta[a]['bax'])
        elif op == 'mosaic' and isize(shape) <= 10 ** 17:
            from gen import definite
            axes = [k for k, s in enumerate(shape) if 0 < s <= 6]
            if axes:
                a = definite(g, a)
                ax = g.pick(axes)
                n = g.i(1, 3)
                new = list(shape)
                new[ax] *= n
                flags = list(g.meta[a]['bax'])
                if flags[ax]:
                    flags[ax] = 2
                a = g.derive({'op': 'mosaic', 'items': [a] * n, 'axis': ax},
                             a, shape=tuple(new), bax=tuple(flags))
        elif op == 'agg':
            a = agg(a)
        elif op == 'astype':
            dt = g.pick(['<f8', '<i4', '<f4'])
            a = g.derive({'op': 'astype', 'a': a, 'dtype': dt}, a, dtype=dt)
        elif op == 'maskeq':
            a = g.derive({'op': 'maskeq', 'a': a, 'value': g.i(0, 3)}, a)
    a = index(a, 3)
    shape = g.shape_of(a)
    if g.chance(1, 3):
        a = agg(a)
    return {'nodes': g.nodes, 'out': [a]}

"""
Worker-side core (runs under /opt/venv, PyPy + numpy 1.19): builds the biggus
arrays a case describes, and evaluates the same case with a plain NumPy /
numpy.ma reference that shares no code with biggus.

A case is a straight-line program: ``nodes`` is a list of operations, each
referring to earlier nodes by index, so sub-expressions can be shared.
"""
import builtins
import os
import random
import threading
import time

import numpy as np
import numpy.ma as ma

import biggus
import biggus._init as binit


class CheckFailure(Exception):
    """The property does not hold for this case."""


class Undefined(Exception):
    """The case asks for what NumPy refuses to do."""


class RefError(Exception):
    """The reference evaluation itself raised."""
    def __init__(self, exc):
        Exception.__init__(self, '{}: {}'.format(type(exc).__name__, exc))
        self.exc = exc


def fail(msg, *args):
    raise CheckFailure(msg.format(*args) if args else msg)


# ---------------------------------------------------------------- values

def decode_value(v):
    if isinstance(v, str):
        if v.startswith('c:'):
            re, im = v[2:].split(',')
            return complex(float(re), float(im))
        return v
    return v


def make_data(spec, dtype, shape):
    """The source contents described by ``spec``."""
    dtype = np.dtype(dtype)
    n = 1
    for s in shape:
        n *= s
    mode = spec['m']
    if mode == 'distinct':
        # Distinct wherever the dtype has room, in a scrambled order.
        off = spec.get('off', 0)
        if dtype.kind == 'b':
            vals = np.array([((i * 5 + off) % 7) < 3 for i in range(n)],
                            dtype=bool)
        elif dtype.kind in 'SU':
            vals = np.array(['%03d' % ((i + off) % 1000) for i in range(n)],
                            dtype='U3' if dtype.kind == 'U' else 'S3')
        else:
            vals = np.arange(n) + off
            if dtype.itemsize == 1:
                vals = vals % 120
            if dtype.kind == 'c':
                vals = vals + 1j * (vals % 13)
        return np.array(vals).astype(dtype).reshape(shape)
    if mode == 'vals':
        vals = [decode_value(v) for v in spec['v']] or [0]
        if dtype.kind in 'Mm':
            base = np.array([int(v) for v in vals], dtype='i8')
        elif dtype.kind in 'SU':
            base = np.array([str(v) for v in vals],
                            dtype=dtype.kind + str(dtype.itemsize))
        elif dtype.kind == 'c':
            base = np.array([complex(v) for v in vals]).astype(dtype)
        elif dtype.kind == 'f':
            base = np.array([float(v) for v in vals], dtype='f8').astype(dtype)
        else:
            base = np.array([int(v) for v in vals], dtype=dtype)
        if n == 0:
            return np.empty(shape, dtype=dtype)
        return np.resize(base, (n,)).astype(dtype).reshape(shape)
    raise ValueError(mode)


def make_concrete_array(node):
    """ndarray or MaskedArray for a 'src' node."""
    shape = tuple(node['shape'])
    data = make_data(node['data'], node['dtype'], shape)
    lay = node.get('layout')
    if lay == 'F' and data.ndim > 1:
        data = np.asfortranarray(data)
    elif lay == 'strided' and data.ndim:
        big = np.empty(tuple(2 * s for s in shape), dtype=data.dtype)
        if data.dtype.kind not in 'SUMm':
            big.fill(77)
        view = big[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = data
        data = view
    mask = node.get('mask')
    if mask is None:
        return data
    if mask == 'nomask':
        res = ma.array(data)
    elif mask == 'full':
        res = ma.array(data, mask=np.zeros(shape, dtype=bool))
    else:
        n = int(np.prod(shape, dtype=int))
        m = (np.resize(np.array(mask, dtype=bool), (n,)) if n
             else np.zeros(0, dtype=bool)).reshape(shape)
        res = ma.array(data, mask=m)
    fill = node.get('fill')
    if fill is not None:
        res.fill_value = decode_value(fill)
    return res


# ---------------------------------------------------------------- keys

def decode_key(k):
    t = k[0]
    if t == 'i':
        return k[1]
    if t == 'I':
        return getattr(np, k[2] if len(k) > 2 else 'int64')(k[1])
    if t == 's':
        if len(k) > 4:
            num = getattr(np, k[4])
            return slice(*[None if v is None else num(v) for v in k[1:4]])
        return slice(*k[1:4])
    if t == 't':
        if len(k) > 2:
            return tuple(getattr(np, k[2])(v) for v in k[1])
        return tuple(k[1])
    if t == 'l':
        return list(k[1])
    if t == 'g':
        return iter(k[1])
    if t == 'a':
        return np.array(k[1], dtype=k[2] if len(k) > 2 else int)
    if t == 'b':
        return np.array(k[1], dtype=bool)
    if t == 'e':
        return Ellipsis
    if t == 'n':
        return np.newaxis
    # Invalid keys.
    if t == 'f':
        return float(k[1])
    if t == 'B':
        return bool(k[1])
    if t == 'nB':
        return np.bool_(k[1])
    if t == 'tB':
        return tuple(bool(v) for v in k[1])
    if t == 'lB':
        return [bool(v) for v in k[1]]
    if t == 'x':
        return str(k[1])
    if t == 'sf':
        return slice(float(k[1]), None)
    if t == 's0':
        return slice(None, None, 0)
    if t == 'tf':
        return (0.5,)
    if t == 'bb':
        return np.ones((k[1], 2), dtype=bool)
    raise ValueError(k)


def decode_keys(keys, bare=False):
    ks = tuple(decode_key(k) for k in keys)
    if bare:
        assert len(ks) == 1
        return ks[0]
    return ks


def _axis_indices(key, size):
    """All positions a non-scalar key selects on an axis, in order."""
    if isinstance(key, slice):
        return list(range(*key.indices(size)))
    if isinstance(key, np.ndarray) and key.dtype == bool:
        if key.ndim != 1 or key.shape[0] != size:
            raise IndexError('bool key')
        return [int(i) for i in np.nonzero(key)[0]]
    out = []
    for i in key:
        i = int(i)
        if not -size <= i < size:
            raise IndexError('index %d out of bounds for size %d' % (i, size))
        out.append(i + size if i < 0 else i)
    return out


def expand_keys(keys, ndim):
    if not isinstance(keys, tuple):
        keys = (keys,)
    keys = list(keys)
    n_real = len([k for k in keys if k is not None and k is not Ellipsis])
    if n_real > ndim:
        raise IndexError('too many indices')
    n_ell = len([k for k in keys if k is Ellipsis])
    out = []
    if n_ell == 0:
        keys.append(Ellipsis)
    elif n_ell > 1:
        raise ValueError('ambiguous double ellipsis')
    for k in keys:
        if k is Ellipsis:
            out.extend([slice(None)] * (ndim - n_real))
        else:
            out.append(k)
    return out


def oindex(arr, keys):
    """
    Orthogonal ("outer") indexing of an ndarray or MaskedArray: each key
    selects along its own dimension independently of the others.
    """
    keys = expand_keys(keys, arr.ndim)
    axis = 0
    out_shape = []
    for k in keys:
        if k is None:
            out_shape.append(1)
            continue
        size = arr.shape[axis]
        if isinstance(k, (int, np.integer)) and not isinstance(k, bool):
            k = int(k)
            if not -size <= k < size:
                raise IndexError('index %d out of bounds, size %d' % (k, size))
            k = k + size if k < 0 else k
            idx = [k]
        else:
            idx = _axis_indices(k, size)
            out_shape.append(len(idx))
        full = [slice(None)] * arr.ndim
        full[axis] = np.array(idx, dtype=np.intp)
        arr = arr[tuple(full)]
        axis += 1
    return arr.reshape(tuple(out_shape))


# ---------------------------------------------------------------- sources

class InjectedFault(Exception):
    """What a source raises when a case tells it to fail."""


class Recorder(object):
    """
    State shared by every recording source of one case: counts reads, injects
    faults and delays, and tracks whether any read has happened.
    """
    def __init__(self, fault_at=None, fault_kind='raise', delays=None):
        self.lock = threading.Lock()
        self.n_reads = 0
        self.fault_at = fault_at
        self.fault_kind = fault_kind
        self.delays = delays
        self.reads = []
        self.armed = True

    def on_read(self, source, keys, n_elems):
        with self.lock:
            k = self.n_reads
            self.n_reads += 1
            self.reads.append((source.ident, keys, n_elems))
        if self.delays:
            d = self.delays[k % len(self.delays)]
            if d:
                time.sleep(d / 1000.0)
        if self.armed and self.fault_at is not None and k == self.fault_at:
            kind = self.fault_kind
            if kind == 'raise':
                raise InjectedFault('read %d' % k)
            if kind == 'ioerror':
                raise IOError('read %d' % k)
            if kind == 'systemexit':
                raise SystemExit('read %d' % k)
            if kind == 'keyboard':
                raise KeyboardInterrupt('read %d' % k)
            if kind == 'stopiteration':
                raise StopIteration('read %d' % k)
            if kind[0].isupper():
                raise getattr(builtins, kind)('read %d' % k)
            if kind == 'badshape':
                return 'badshape'
        return None


class BaseSource(object):
    """A file-variable-like object: shape, dtype, and reads via []."""
    def __init__(self, ident, array, recorder):
        self.ident = ident
        self._array = array
        self._rec = recorder
        self.counts = np.zeros(array.shape, dtype=int)
        self.dtype = array.dtype
        self.shape = array.shape
        if ma.isMaskedArray(array):
            self.fill_value = array.fill_value

    @property
    def ndim(self):
        return len(self.shape)

    def __deepcopy__(self, memo):
        # Like an open file.
        return self

    def __array__(self, dtype=None):
        # A whole-array conversion is a read of everything.
        self.counts += 1
        self._rec.on_read(self, '__array__', self._array.size)
        return np.asarray(self._array, dtype=dtype)

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        raise RuntimeError('source iterated element by element')


class NumpyLikeSource(BaseSource):
    """Supports NumPy indexing, as NumpyArrayAdapter requires."""
    def __getitem__(self, keys):
        out = self._array[keys]
        self.counts[keys] += 1
        odd = self._rec.on_read(self, keys, np.size(out))
        if odd == 'badshape':
            out = np.zeros(tuple(s + 1 for s in np.shape(out)) + (2,),
                           dtype=self.dtype)
        return out


class OrthoSource(BaseSource):
    """
    Supports orthogonal indexing only, as a netCDF variable does; rejects
    anything that is not an int, a slice, or a 1-d index sequence.
    """
    def __getitem__(self, keys):
        if not isinstance(keys, tuple):
            keys = (keys,)
        for k in keys:
            if k is Ellipsis or k is None:
                if k is None:
                    raise TypeError('newaxis passed to a data source')
                continue
            if isinstance(k, (bool, np.bool_)):
                raise TypeError('boolean scalar passed to a data source')
            if isinstance(k, (int, np.integer, slice)):
                continue
            if isinstance(k, (tuple, list)):
                for i in k:
                    if (isinstance(i, (bool, np.bool_)) or
                            not isinstance(i, (int, np.integer))):
                        raise TypeError('bad index %r' % (i,))
                continue
            if isinstance(k, np.ndarray) and k.ndim == 1 and \
                    k.dtype.kind in 'biu':
                continue
            raise TypeError('unsupported key %r' % (k,))
        out = oindex(self._array, keys)
        n = out.size
        ids = oindex(np.arange(self._array.size).reshape(self.shape), keys)
        np.add.at(self.counts.reshape(-1), np.unique(ids), 1)
        odd = self._rec.on_read(self, keys, n)
        if odd == 'badshape':
            out = np.zeros(tuple(s + 1 for s in out.shape) + (2,),
                           dtype=self.dtype)
        return out


class UserArray(biggus.Array):
    """
    A client's own Array, with no more than the interface that Array asks of
    its subclasses; records its reads as the sources do.
    """
    def __init__(self, source, ids=None):
        self.source = source
        if ids is None:
            ids = np.arange(source._array.size).reshape(source.shape)
        self._ids = ids

    @property
    def dtype(self):
        return self.source.dtype

    @property
    def shape(self):
        return self._ids.shape

    @property
    def fill_value(self):
        value = getattr(self.source, 'fill_value', None)
        return biggus.Array.fill_value.fget(self) if value is None else value

    def __deepcopy__(self, memo):
        return UserArray(self.source, self._ids.copy())

    def _getitem_full_keys(self, keys):
        return UserArray(self.source, oindex(self._ids, tuple(keys)))

    def _read(self):
        src = self.source
        np.add.at(src.counts.reshape(-1), np.unique(self._ids), 1)
        if src._rec.on_read(src, None, self._ids.size) == 'badshape':
            raise InjectedFault('bad shape')
        return src._array.reshape(-1)[self._ids.reshape(-1)].reshape(
            self.shape)

    def ndarray(self):
        data = self._read()
        return np.array(data.filled() if ma.isMaskedArray(data) else data)

    def masked_array(self):
        data = ma.array(self._read())
        data.fill_value = self.fill_value
        return data


# ---------------------------------------------------------------- operators

PY_OPERATORS = {
    'add': lambda a, b: a + b,
    'sub': lambda a, b: a - b,
    'multiply': lambda a, b: a * b,
    'floor_divide': lambda a, b: a // b,
    'true_divide': lambda a, b: a / b,
    'power': lambda a, b: a ** b,
}

# biggus name -> numpy name, where they differ.
NP_NAME = {'sub': 'subtract'}


def np_fn(name):
    return getattr(np, NP_NAME.get(name, name))


# Functions wrapped without any masked counterpart.
NO_MA = {'isreal', 'iscomplex', 'isinf', 'isnan', 'signbit', 'copysign',
         'nextafter', 'ldexp', 'fmod'}


def ma_fn(name):
    if name in NO_MA:
        return None
    f = np_fn(name)
    return getattr(np.ma, f.__name__, None)


def scalar_of(x):
    v = decode_value(x['scalar'])
    t = x.get('type', 'py')
    if t == 'py':
        return v
    return np.dtype(t).type(v)


def object_array(items):
    """A one-dimensional array of the given objects."""
    res = np.empty(len(items), dtype=object)
    for k, item in enumerate(items):
        res[k] = item
    return res


def is_py_number(v):
    return type(v) is int or type(v) is float


class preempted(object):
    """
    Make threads give way at random lines of biggus, wherever they are.

    spec is None, or [one in how many lines, seed].
    """
    MOST = 1500

    def __init__(self, spec):
        self.spec = spec
        self.left = self.MOST
        if spec:
            self.one_in = spec[0]
            self.rnd = random.Random(spec[1])
        self.where = os.path.dirname(biggus.__file__)

    def __enter__(self):
        if self.spec:
            threading.settrace(self.call)
        return self

    def __exit__(self, *args):
        if self.spec:
            threading.settrace(None)
            self.left = 0

    def call(self, frame, event, arg):
        if self.left > 0 and frame.f_code.co_filename.startswith(self.where):
            return self.line

    def line(self, frame, event, arg):
        if self.left > 0 and self.rnd.random() * self.one_in < 1:
            self.left -= 1
            time.sleep(self.rnd.choice([0, 1e-5, 1e-4, 1e-3]))
        return self.line if self.left > 0 else None


# ---------------------------------------------------------------- program

class Program(object):
    """
    Builds a case's biggus arrays (``arr``) and, on demand, its reference
    ndarrays (``nd``) and MaskedArrays (``ma``).
    """
    def __init__(self, case, recorder=None, build=True):
        self.case = case
        self.nodes = case['nodes']
        self.rec = recorder or Recorder()
        self.concrete = {}
        self.sources = {}
        self.pristine = {}
        self._nd = {}
        self._ma = {}
        self._err = {}
        self.arr = []
        # The lists, dicts and arrays with which arrays have been made.
        self.given = []
        for i, node in enumerate(self.nodes):
            if node['op'] == 'src':
                self.concrete[i] = make_concrete_array(node)
                self.pristine[i] = self.concrete[i].copy()
        if build:
            self.build()

    def build(self):
        self.arr = []
        for i, node in enumerate(self.nodes):
            self.arr.append(self._build(i, node))

    def give(self, x):
        self.given.append(x)
        return x

    def spoil(self):
        """Change what arrays have been made with; they are values."""
        for x in self.given:
            if isinstance(x, dict):
                for k in x:
                    x[k] += 1
            elif isinstance(x, list):
                x.reverse()
                x.append(x[-1] if x else 0)
            elif x.dtype == object:
                x.fill(None)
            elif x.dtype == bool:
                np.logical_not(x, out=x)
            else:
                x.fill(0)

    # ---- biggus side

    def _operand(self, x):
        if isinstance(x, dict):
            return scalar_of(x)
        return self.arr[x]

    def _build(self, i, node):
        op = node['op']
        if op == 'src':
            conc = self.concrete[i]
            kind = node['kind']
            if kind == 'np':
                return biggus.NumpyArrayAdapter(conc)
            if kind == 'npsrc':
                src = NumpyLikeSource(i, conc, self.rec)
                self.sources[i] = src
                return biggus.NumpyArrayAdapter(src)
            if kind == 'ortho':
                src = OrthoSource(i, conc, self.rec)
                self.sources[i] = src
                return biggus.OrthoArrayAdapter(src)
            if kind in ('wrapo', 'wrape'):
                inner = biggus.NumpyArrayAdapter(conc)
                if kind == 'wrape' and conc.dtype.kind in 'if' and \
                        conc.dtype.isnative:
                    # Read by an evaluation within the evaluation.
                    inner = biggus.negative(biggus.negative(inner))
                return biggus.OrthoArrayAdapter(inner)
            if kind == 'wrapn':
                src = OrthoSource(i, conc, self.rec)
                self.sources[i] = src
                return biggus.NumpyArrayAdapter(biggus.OrthoArrayAdapter(src))
            if kind == 'user':
                src = BaseSource(i, conc, self.rec)
                self.sources[i] = src
                return UserArray(src)
            if kind == 'raw':
                return conc
            raise ValueError(kind)
        if op == 'const':
            via = node.get('via')
            shape = tuple(node['shape'])
            if node.get('intshape'):
                shape = shape[0]
            if via in ('zeros', 'ones'):
                return getattr(biggus, via)(shape, dtype=node['dtype'])
            return biggus.ConstantArray(shape, decode_value(node['value']),
                                        node['dtype'])
        if op == 'idx':
            keys = decode_keys(node['keys'], node.get('bare'))
            for k in keys if isinstance(keys, tuple) else (keys,):
                if isinstance(k, (list, np.ndarray)) and np.ndim(k):
                    self.give(k)
            return self.arr[node['a']][keys]
        if op == 'T':
            a = self.arr[node['a']]
            axes = node.get('axes')
            if axes is not None:
                axes = self.give(list(axes))
            if isinstance(a, np.ndarray):
                return binit.TransposedArray(a, axes)
            if axes is None:
                return a.transpose()
            return a.transpose(axes)
        if op == 'bcast':
            inner = self.arr[node['a']]
            if isinstance(inner, biggus.BroadcastArray):
                # The constructor would take the axes as being those of the
                # array inside; keep them as the axes of what we have.
                inner = inner.astype(inner.dtype)
            return biggus.BroadcastArray(
                inner,
                self.give({int(k): v for k, v in node['dims'].items()}),
                tuple(node.get('lead', ())))
        if op == 'astype':
            if isinstance(self.arr[node['a']], np.ndarray):
                return binit.AsDataTypeArray(self.arr[node['a']],
                                             node['dtype'])
            return self.arr[node['a']].astype(node['dtype'])
        if op == 'box':
            return biggus.ArrayContainer(self.arr[node['a']])
        if op == 'maskeq':
            return biggus.masked_equal(self.arr[node['a']],
                                       decode_value(node['value']))
        if op == 'stack':
            items = [self.arr[j] for j in node['items']]
            st = np.empty(len(items), dtype=object)
            for k, it in enumerate(items):
                st[k] = it
            self.give(st)
            return biggus.ArrayStack(st.reshape(tuple(node['shape'])))
        if op == 'mdstack':
            items = [self.arr[j] for j in node['items']]
            st = np.empty(len(items), dtype=object)
            for k, it in enumerate(items):
                st[k] = it
            self.give(st)
            return biggus.ArrayStack.multidim_array_stack(
                st, tuple(node['shape']), order=node['order'])
        if op == 'mosaic':
            return biggus.LinearMosaic(
                self.give([self.arr[j] for j in node['items']]),
                node['axis'])
        if op == 'ew1':
            return getattr(biggus, node['fn'])(self.arr[node['a']])
        if op == 'ew2':
            a, b = self._operand(node['a']), self._operand(node['b'])
            if node.get('style') == 'operator':
                return PY_OPERATORS[node['fn']](a, b)
            return getattr(biggus, node['fn'])(a, b)
        if op == 'agg':
            return getattr(biggus, node['fn'])(self.arr[node['a']],
                                               axis=node['axis'],
                                               **node.get('kw', {}))
        raise ValueError(op)

    # ---- reference side

    def nd(self, i):
        if i not in self._nd:
            try:
                with np.errstate(all='ignore'):
                    self._nd[i] = self._ref(i, False)
            except RefError:
                raise
            except Exception as e:
                raise RefError(e)
        return self._nd[i]

    def ma(self, i):
        if i not in self._ma:
            try:
                with np.errstate(all='ignore'):
                    self._ma[i] = self._ref(i, True)
            except RefError:
                raise
            except Exception as e:
                raise RefError(e)
        return self._ma[i]

    def ref(self, i, masked):
        return self.ma(i) if masked else self.nd(i)

    def _ref(self, i, masked):
        node = self.nodes[i]
        op = node['op']
        get = self.ma if masked else self.nd
        if op == 'src':
            c = self.pristine[i]
            if masked:
                if ma.isMaskedArray(c):
                    return c.copy()
                return ma.array(c.copy())
            if ma.isMaskedArray(c):
                return np.array(c.filled())
            return np.array(c)
        if op == 'const':
            via = node.get('via')
            v = {'zeros': 0.0, 'ones': 1}.get(via, None)
            if v is None:
                v = decode_value(node['value'])
            res = np.empty(tuple(node['shape']),
                           dtype=np.array([v], dtype=node['dtype']).dtype)
            res[...] = np.array([v], dtype=node['dtype'])[0]
            return ma.array(res) if masked else res
        if op == 'idx':
            return oindex(get(node['a']),
                          decode_keys(node['keys'], node.get('bare')))
        if op == 'T':
            a = get(node['a'])
            axes = node.get('axes')
            if axes is None:
                axes = list(range(a.ndim))[::-1]
            return a.transpose(axes)
        if op == 'bcast':
            a = get(node['a'])
            shape = list(a.shape)
            for k, v in node['dims'].items():
                shape[int(k)] = v
            shape = tuple(node.get('lead', ())) + tuple(shape)
            return self._bto(a, shape)
        if op == 'box':
            return get(node['a'])
        if op == 'astype':
            return get(node['a']).astype(node['dtype'])
        if op == 'maskeq':
            a = get(node['a'])
            if not masked:
                return a
            v = decode_value(node['value'])
            m = ma.getmaskarray(a) | np.asarray(a.data == v)
            return ma.array(a.data, mask=m)
        if op in ('stack', 'mdstack'):
            items = [get(j) for j in node['items']]
            shape = tuple(node['shape'])
            item_shape = items[0].shape
            res = np.empty((len(items),) + item_shape, dtype=items[0].dtype)
            mask = np.zeros(res.shape, dtype=bool)
            for k, it in enumerate(items):
                res[k] = it.data if masked else it
                if masked:
                    mask[k] = ma.getmaskarray(it)
            # Position of item k in the stack, in C or Fortran order.
            order = node.get('order', 'C').upper()
            pos = np.arange(len(items)).reshape(shape, order=order)
            res = res[pos.reshape(-1)].reshape(shape + item_shape)
            mask = mask[pos.reshape(-1)].reshape(shape + item_shape)
            return ma.array(res, mask=mask) if masked else res
        if op == 'mosaic':
            items = [get(j) for j in node['items']]
            axis = node['axis']
            if masked:
                return ma.array(
                    np.concatenate([it.data for it in items],
                                   axis).astype(items[0].dtype),
                    mask=np.concatenate([ma.getmaskarray(it) for it in items],
                                        axis))
            return np.concatenate(items, axis).astype(items[0].dtype)
        if op == 'ew1':
            fn = ma_fn(node['fn']) if masked else np_fn(node['fn'])
            if fn is None:
                raise TypeError('no masked operation')
            a = get(node['a'])
            shape = a.shape
            return fn(a.reshape(shape or (1,))).reshape(shape)
        if op == 'ew2':
            fn = ma_fn(node['fn']) if masked else np_fn(node['fn'])
            if fn is None:
                raise TypeError('no masked operation')
            return self._ew2(fn, node, get)
        if op == 'agg':
            return self._agg(node, get(node['a']), masked)
        raise ValueError(op)

    @staticmethod
    def _bto(a, shape):
        if ma.isMaskedArray(a):
            return ma.array(np.broadcast_to(a.data, shape).copy(),
                            mask=np.broadcast_to(ma.getmaskarray(a),
                                                 shape).copy())
        return np.broadcast_to(a, shape).copy()

    def _ew2(self, fn, node, get):
        ops = []
        for x in (node['a'], node['b']):
            if isinstance(x, dict):
                v = scalar_of(x)
                # Only a Python number on the right has a weak type.
                if not is_py_number(v) or not ops:
                    v = np.array(v)
                ops.append(v)
            else:
                ops.append(get(x))
        arrs = [o for o in ops if not is_py_number(o)]
        shape = np.broadcast(*arrs).shape if len(arrs) > 1 else arrs[0].shape
        if not shape and fn is ma.power:
            # numpy.ma.power masks 0-dimensional results at random.
            raise RefError(ValueError('0-dimensional masked power'))
        work = shape or (1,)
        full = [o if is_py_number(o) else self._bto(o, shape).reshape(work)
                for o in ops]
        return fn(*full).reshape(shape)

    def _agg(self, node, a, masked):
        fn, axis = node['fn'], node['axis']
        kw = node.get('kw', {})
        if axis < 0:
            axis += a.ndim
        shape = tuple(s for k, s in enumerate(a.shape) if k != axis)
        fdtype = None
        if a.dtype.kind != 'M':
            fdtype = (np.array([0], dtype=a.dtype) / 1.).dtype
        # High-precision working copy for the statistics.
        wide = {'f': np.longdouble, 'c': np.clongdouble}.get(a.dtype.kind)
        n = a.shape[axis]
        if not masked:
            if fn == 'count':
                res = np.full(shape, n, dtype='i')
            elif fn in ('min', 'max'):
                res = getattr(np, fn)(a, axis=axis)
            elif fn == 'sum':
                res = np.sum(a, axis=axis, dtype=a.dtype)
            elif fn == 'mean' and a.dtype.kind == 'm':
                res = np.mean(a, axis=axis)
            elif fn == 'mean':
                w = a.astype(np.longdouble if wide is None else wide)
                res = (np.sum(w, axis=axis) / n).astype(fdtype)
            else:
                w = a.astype(np.longdouble if wide is None else wide)
                mu = np.expand_dims(np.sum(w, axis=axis) / n, axis)
                dev = w - mu
                v = np.sum(dev * dev, axis=axis) / np.longdouble(
                    n - kw.get('ddof', 0))
                res = (np.sqrt(v) if fn == 'std' else v).astype(fdtype)
            return np.asarray(res).reshape(shape).astype(
                a.dtype if fn in ('min', 'max', 'sum') else res.dtype)
        data = a.data
        mask = ma.getmaskarray(a)
        cnt = np.sum(~mask, axis=axis)
        none = cnt == 0
        if fn == 'count':
            return ma.array(np.asarray(cnt, dtype='i').reshape(shape))
        if fn in ('min', 'max'):
            # Loop over the lanes: obviously right, and sizes are small.
            mv = np.moveaxis(data, axis, -1).reshape(-1, n)
            mm = np.moveaxis(mask, axis, -1).reshape(-1, n)
            res = np.zeros(mv.shape[0], dtype=a.dtype)
            for k in range(mv.shape[0]):
                live = mv[k][~mm[k]]
                if live.size:
                    res[k] = getattr(np, fn)(live)
            return ma.array(res.reshape(shape), mask=none)
        if fn == 'sum':
            filled = np.where(mask, np.zeros((), a.dtype), data)
            res = np.sum(filled, axis=axis, dtype=a.dtype)
            return ma.array(np.asarray(res).reshape(shape).astype(a.dtype),
                            mask=none)
        w = data.astype(np.longdouble if wide is None else wide)
        w = np.where(mask, np.zeros((), w.dtype), w)
        cl = np.where(none, 1, cnt)
        mu = np.sum(w, axis=axis) / cl
        if fn == 'mean':
            mdtol = kw.get('mdtol', 1)
            frac = (n - cnt) / float(n)
            m = none.copy() if isinstance(none, np.ndarray) else \
                np.array(none)
            if mdtol < 1:
                m = m | (frac > mdtol)
            return ma.array(np.asarray(mu.astype(fdtype)).reshape(shape),
                            mask=np.asarray(m).reshape(shape))
        ddof = kw.get('ddof', 0)
        dev = np.where(mask, np.zeros((), w.dtype),
                       w - np.expand_dims(mu, axis))
        den = cnt - ddof
        m = none | (den <= 0)
        v = np.sum(dev * dev, axis=axis) / np.where(m, 1, den)
        res = (np.sqrt(v) if fn == 'std' else v).astype(fdtype)
        return ma.array(np.asarray(res).reshape(shape),
                        mask=np.asarray(m).reshape(shape))


    # ---- error bounds

    def err(self, i, masked):
        """
        A bound on how far a correct evaluation of node ``i`` may be from the
        reference, in absolute terms: zero when the result must be exact.
        """
        key = (i, masked)
        if key not in self._err:
            with np.errstate(all='ignore'):
                self._err[key] = self._bound(i, masked)
        return self._err[key]

    def _top(self, i, masked):
        """The largest finite magnitude in the reference values."""
        r = self.ref(i, masked)
        if masked:
            r = r.data[~ma.getmaskarray(r)]
        if r.dtype.kind not in 'iufc' or not r.size:
            return 0.0
        mags = np.abs(r.astype(np.clongdouble if r.dtype.kind == 'c'
                               else np.longdouble))
        mags = mags[np.isfinite(mags)]
        return float(mags.max()) if mags.size else 0.0

    def _eps(self, i, masked):
        dt = self.ref(i, masked).dtype
        return float(np.finfo(dt).eps) if dt.kind in 'fc' else 0.0

    def _bound(self, i, masked):
        node = self.nodes[i]
        op = node['op']
        if op in ('src', 'const'):
            return 0.0
        if op in ('stack', 'mdstack', 'mosaic'):
            return max(self.err(j, masked) for j in node['items'])
        if op == 'ew2':
            ids = [j for j in (node['a'], node['b'])
                   if not isinstance(j, dict)]
            errs = [0.0 if isinstance(j, dict) else self.err(j, masked)
                    for j in (node['a'], node['b'])]
            eps, top = self._eps(i, masked), self._top(i, masked)
            if node['fn'] in CLOSE:
                return 64 * eps * top + sum(errs)
            if not any(errs):
                return 0.0
            if node['fn'] == 'multiply':
                tops = [abs(scalar_of(j)) if isinstance(j, dict)
                        else self._top(j, masked)
                        for j in (node['a'], node['b'])]
                return (errs[0] * (tops[1] + errs[1]) + errs[1] * tops[0] +
                        4 * eps * top)
            return sum(errs) + 4 * eps * top
        e = self.err(node['a'], masked)
        if op == 'ew1':
            if node['fn'] in CLOSE or node['fn'] == 'absolute' and \
                    self.ref(node['a'], masked).dtype.kind == 'c':
                return e + 64 * self._eps(i, masked) * self._top(i, masked)
            return e
        if op == 'astype':
            return e + (self._eps(i, masked) * self._top(i, masked)
                        if e else 0.0)
        if op == 'agg':
            fn = node['fn']
            if fn == 'count':
                return 0.0
            if fn in ('min', 'max'):
                return e
            src = self.ref(node['a'], masked)
            n = src.shape[node['axis']]
            eps, top = self._eps(i, masked), self._top(node['a'], masked)
            if fn == 'sum':
                return n * e + (n + 1) * n * eps * top
            last = 0.0
            if eps > 1e-4:
                # Half precision, but not in between, as in NumPy.
                eps, last = float(np.finfo('f4').eps), eps
            if fn == 'mean':
                return e + (n + 4) * eps * top + 2 * last * top
            # The deviations cannot exceed the range of the values.
            live = (src.data[~ma.getmaskarray(src)] if masked
                    else src).astype(np.longdouble)
            dev = float(np.ptp(live)) if live.size else 0.0
            d = e + (n + 8) * 4 * eps * top
            d += 2 * n * eps * dev
            if fn == 'std':
                return 2 * d + 2 * last * dev
            return 4 * d * (dev + d) + 4 * last * dev * dev
        return e


# Functions whose floating point results depend on the implementation.
CLOSE = {'exp', 'exp2', 'log', 'log2', 'log10', 'expm1', 'sin', 'cos', 'tan',
         'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh',
         'arccosh', 'arctanh', 'deg2rad', 'rad2deg', 'arctan2', 'hypot',
         'power', 'reciprocal'}


# ---------------------------------------------------------------- comparing

def describe(a):
    if ma.isMaskedArray(a):
        return 'masked dtype={} shape={} data={} mask={}'.format(
            a.dtype, a.shape, a.data.tolist() if a.size < 60 else '...',
            ma.getmaskarray(a).tolist() if a.size < 60 else '...')
    if isinstance(a, np.ndarray):
        return 'dtype={} shape={} {}'.format(
            a.dtype, a.shape, a.tolist() if a.size < 60 else '...')
    return repr(a)


def values_equal(got, want, rtol=0.0, atol=0.0):
    """Elementwise agreement: NaNs match NaNs; otherwise within tolerance."""
    if got.dtype.kind in 'mM' and got.dtype == want.dtype:
        # So that NaT is equal to itself.
        return np.asarray(got.astype('i8') == want.astype('i8'))
    if got.dtype.kind in 'SUO' or want.dtype.kind in 'SUO':
        return np.asarray(got == want)
    with np.errstate(all='ignore'):
        eq = np.asarray(got == want)
        if got.dtype.kind in 'fc':
            if got.dtype.kind == 'c':
                same_nan = np.isnan(got) & np.isnan(want)
            else:
                same_nan = np.isnan(got) & np.isnan(want)
            eq = eq | same_nan
            if rtol or atol:
                g = got.astype(np.clongdouble if got.dtype.kind == 'c'
                               else np.longdouble)
                w = want.astype(g.dtype)
                close = np.abs(g - w) <= atol + rtol * np.abs(w)
                eq = eq | close
    return eq


def compare(got, want, masked, what='', rtol=0.0, atol=0.0, dtype=True,
            atol_arr=None):
    """Raise CheckFailure unless ``got`` is the expected array."""
    if masked:
        if not isinstance(got, ma.MaskedArray):
            fail('{}: expected a MaskedArray, got {!r}', what, type(got))
    else:
        if not isinstance(got, np.ndarray):
            fail('{}: expected an ndarray, got {!r}', what, type(got))
        if isinstance(got, ma.MaskedArray):
            fail('{}: expected a plain ndarray, got a MaskedArray', what)
    if got.shape != want.shape:
        fail('{}: shape {} != expected {}', what, got.shape, want.shape)
    if dtype and got.dtype != want.dtype:
        fail('{}: dtype {} != expected {}', what, got.dtype, want.dtype)
    if masked:
        gm, wm = ma.getmaskarray(got), ma.getmaskarray(want)
        if not np.array_equal(gm, wm):
            fail('{}: masks differ: got {} expected {}', what,
                 describe(got), describe(want))
        live = ~wm
        g, w = got.data[live], want.data[live]
        tol = atol if atol_arr is None else atol_arr[live]
    else:
        g, w = got, want
        tol = atol if atol_arr is None else atol_arr
    eq = values_equal(g, w, rtol, tol)
    if not np.all(eq):
        fail('{}: values differ: got {} expected {}', what,
             describe(got), describe(want))


class chunk_limit(object):
    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.old = binit.MAX_CHUNK_SIZE
        if self.value is not None:
            binit.MAX_CHUNK_SIZE = self.value

    def __exit__(self, *exc):
        binit.MAX_CHUNK_SIZE = self.old


def realise(array, masked):
    return array.masked_array() if masked else array.ndarray()

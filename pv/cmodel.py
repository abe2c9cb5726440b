"""Model of ctypes: memory blocks of (symbolic) bytes and typed views into them.

Layout (offsets, bit positions, sizes) is taken from a twin class built with the real ctypes, so padding,
packing and bit-field allocation are CPython's own.  Assumption: field access, slicing, from_buffer_copy, memmove
behave as documented; memory safety of memmove is an obligation.
"""
import ctypes as RC
import z3
from . import core, ropes, lists, rt
from .core import SInt, SBool, Unsupported, norm, term, mk_int
from .ropes import S, pyerr, pieces_of, mk_bytes, total, split, leq, same, decide, zt, Lit, Num, norm_pieces, num_value, Rep
from .lists import MList, Items, Map, MapDef


def idx(v, what='an integer is required'):
    if isinstance(v, (int, SInt, SBool)):
        return norm(term(v))
    if hasattr(type(v), '__index__'):
        return norm(term(type(v).__index__(v)))
    raise pyerr(TypeError(what))


class Mem:
    """One block of memory."""

    def __init__(self, ps):
        self.p = norm_pieces(list(ps))
        S().track(self)

    def _get(self):
        return mk_bytes(self.p)

    def _put(self, v):
        self.p = list(ropes.need(v))

    def size(self):
        return total(self.p)

    def read(self, off, n):
        l, r = split(self.p, off)
        m, r = split(r, n)
        return m

    def write(self, off, ps):
        S().wrote(self, '@')
        n = total(ps)
        l, r = split(self.p, off)
        m, r = split(r, n)
        self.p = norm_pieces(l + list(ps) + r)


class Addr:
    _pv_model = True

    def __init__(self, mem, off=0):
        self.mem, self.off = mem, off

    def __add__(self, k):
        return Addr(self.mem, norm(self.off + term(k)))
    __radd__ = __add__


class CMeta(type):
    def __new__(m, name, bases, ns, **kw):
        cls = super().__new__(m, name, bases, dict(ns))
        if '_fields_' in ns:
            setup_fields(cls, ns['_fields_'])
        return cls

    def __init__(cls, name, bases, ns, **kw):
        super().__init__(name, bases, ns)

    def __setattr__(cls, n, v):
        type.__setattr__(cls, n, v)
        if n == '_fields_':
            setup_fields(cls, v)

    def __mul__(cls, n):
        if not isinstance(n, (int, SInt, SBool)):
            if hasattr(type(n), '__index__'):
                n = type(n).__index__(n)
            else:
                raise pyerr(TypeError("can't multiply sequence by non-int of type '%s'" % type(n).__name__))
        n = norm(term(n))
        if not leq(0, n) and decide(zt(n) < 0):
            raise pyerr(ValueError('Array length must be >= 0, not %s' % n))
        return array_type(cls, n)
    __rmul__ = __mul__

    def from_buffer_copy(cls, src, offset=0):
        ps = pieces_of(src)
        if ps is None:
            raise pyerr(TypeError("a bytes-like object is required, not '%s'" % type(src).__name__))
        off = idx(offset)
        if not leq(0, off) and decide(zt(off) < 0):
            raise pyerr(ValueError('offset cannot be negative'))
        n = csize(cls)
        have = norm(total(ps) - off)
        if not leq(n, have) and decide(zt(have) < zt(n)):
            raise pyerr(ValueError('Buffer size too small'))
        l, r = split(ps, off)
        m, r = split(r, n)
        return view(cls, Mem(m), 0)

    def from_buffer(cls, *a):
        raise Unsupported('from_buffer')
    from_address = in_dll = from_param = from_buffer


def csize(cls):
    n = cls._pv_size
    if n is None:
        raise pyerr(TypeError('this type has no size'))
    return n


def view(cls, mem, off):
    o = object.__new__(cls)
    object.__setattr__(o, '_m', mem)
    object.__setattr__(o, '_o', off)
    S().track(o)
    return o


class CData(metaclass=CMeta):
    _pv_model = True
    _pv_size = None
    _pv_twin = None

    def __new__(cls, *a, **k):
        n = csize(cls)
        return view(cls, Mem([Rep(0, n)] if not (isinstance(n, int) and n == 0) else []), 0)

    def _pv_bytes(self):
        return self._m.read(self._o, csize(type(self)))

    def _pv_subst(self, var, val):
        o = ropes.subst_term(self._o, var, val)
        return self if o is self._o else view(type(self), self._m, o)

    def __repr__(self):
        return '%s@%d+%s' % (type(self).__name__, S().track(self._m), self._o)

    def __hash__(self):
        return id(self)


class Simple(CData):
    _code = None

    def __init__(self, value=None):
        if value is not None:
            self.value = value

    def __bool__(self):
        return bool(self.value != 0)


class ValueProp:
    def __get__(self, o, cls=None):
        if o is None:
            return self
        return cls._load(o._m.read(o._o, cls._pv_size))

    def __set__(self, o, v):
        o._m.write(o._o, type(o)._store(v))


def make_simple(name, real, code):
    n = RC.sizeof(real)
    signed = code in 'bhilq'

    def _load(ps):
        if code == 'c':
            return mk_bytes(ps)
        if code == '?':
            return rt.core.mk_bool(zt(num_value(ps)) != 0)
        v = num_value(ps)
        if signed:
            if isinstance(v, int):
                return v - 256 ** n if v >= 256 ** n // 2 else v
            return mk_int(z3.If(zt(v) >= 256 ** n // 2, zt(v) - 256 ** n, zt(v)))
        return mk_int(v)

    def _store(v):
        if code == 'c':
            ps = pieces_of(v)
            if ps is not None and same(total(ps), 1):
                return ps
            if isinstance(v, (int, SInt)):
                return ropes.ints_to_pieces([v])
            raise pyerr(TypeError('one character bytes, bytearray or integer expected'))
        if code == '?':
            return ropes.ints_to_pieces([1 if v else 0])
        if isinstance(v, (int, SInt, SBool)):
            t = norm(term(v))
            if isinstance(t, int):
                return [Lit((t % 256 ** n).to_bytes(n, 'little'))]
            if not (leq(0, t) and leq(t, 256 ** n - 1)):
                t = norm(t % 256 ** n)
            return [Num(zt(t), n)]
        raise pyerr(TypeError("int expected instead of %s instance" % type(v).__name__))
    c = CMeta(name, (Simple,), dict(_pv_size=n, _pv_twin=real, _load=staticmethod(_load), _store=staticmethod(_store), value=ValueProp(), _code=code, _type_=code))
    return c


# ---- arrays ----------------------------------------------------------------------------------------------
class Array(CData):
    _type_ = None
    _length_ = None

    def __init__(self, *vals):
        for k, v in enumerate(vals):
            self[k] = v

    def length(self):
        return mk_int(type(self)._pv_len)

    def __len__(self):
        return core.enum_value(type(self)._pv_len)

    def _at(self, k):
        T = type(self)._type_
        o = norm(self._o + k * csize(T))
        if issubclass(T, Simple):
            return T._load(self._m.read(o, csize(T)))
        return view(T, self._m, o)

    def _idx(self, i):
        n = type(self)._pv_len
        i = idx(i, 'indices must be integers')
        if not leq(0, i) and decide(zt(i) < 0):
            i = norm(i + n)
        if not (leq(0, i) and leq(norm(i + 1), n)) and not decide(z3.And(zt(i) >= 0, zt(i) < zt(n))):
            raise pyerr(IndexError('invalid index'))
        return i

    def _pv_seq(self):
        """elements as a symbolic list, None when iteration is native"""
        n = type(self)._pv_len
        if isinstance(n, int) and n <= 512:
            return None
        T = type(self)._type_
        if issubclass(T, Simple) and csize(T) == 1 and T._code == 'B':
            return rt.bytes_map(mk_bytes(self._pv_bytes()))
        if issubclass(T, Simple):
            raise Unsupported('iteration over an array of simple values')
        k = z3.Int('#c')
        return MList([Map(MapDef(k, view(T, self._m, norm(self._o + k * csize(T)))), 0, n)], tup=True)

    def _pv_iter(self):
        n = type(self)._pv_len
        n = n if isinstance(n, int) else core.enum_value(n)
        return [self._at(k) for k in range(n)]

    def __iter__(self):
        return iter(self._pv_iter())

    def _pv_list(self):
        m = self._pv_seq()
        return MList.of(self._pv_iter()) if m is None else MList(m.segs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            T = type(self)._type_
            if T._code == 'c' if issubclass(T, Simple) else False:
                return mk_bytes(ropes.slice_pieces(self._pv_bytes(), i))
            return self._pv_list()[i]
        return self._at(self._idx(i))

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            n = type(self)._pv_len
            if not isinstance(n, int) or i.step not in (None, 1):
                raise Unsupported('slice assignment to an array')
            r = range(n)[i]
            ps = pieces_of(v)
            if ps is not None:
                if not same(total(ps), len(r)) and not decide(zt(total(ps)) == len(r)):
                    raise pyerr(ValueError('Can only assign sequence of same size'))
                self._m.write(norm(self._o + r.start), ps)
                return
            v = v.native() if isinstance(v, MList) else list(v)
            if len(v) != len(r):
                raise pyerr(ValueError('Can only assign sequence of same size'))
            for k, x in zip(r, v):
                self[k] = x
            return
        k = self._idx(i)
        T = type(self)._type_
        store(T, self._m, norm(self._o + k * csize(T)), v)

    def __bool__(self):
        return decide(zt(type(self)._pv_len) > 0)


class RawProp:
    def __get__(self, o, cls=None):
        if o is None:
            return self
        ps = o._pv_bytes()
        return ropes.SBytes(list(ps))         # a fresh bytes object

    def __set__(self, o, v):
        ps = ropes.need(v)
        if not leq(total(ps), type(o)._pv_len) and decide(zt(total(ps)) > zt(type(o)._pv_len)):
            raise pyerr(ValueError('byte string too long'))
        o._m.write(o._o, ps)


class CharValueProp:
    def __get__(self, o, cls=None):
        if o is None:
            return self
        ps = o._pv_bytes()
        b = mk_bytes(ps)
        if isinstance(b, bytes):
            return b.split(b'\0')[0]
        raise Unsupported('.value of a symbolic char array')

    def __set__(self, o, v):
        ps = ropes.need(v)
        if not leq(total(ps), type(o)._pv_len) and decide(zt(total(ps)) > zt(type(o)._pv_len)):
            raise pyerr(ValueError('byte string too long'))
        o._m.write(o._o, list(ps) + ([Lit(b'\0')] if leq(norm(total(ps) + 1), type(o)._pv_len) else []))


def array_type(T, n):
    cache = S().run_state.setdefault('arrays', [])
    for (t, m, c) in cache:
        if t is T and (m == n if isinstance(m, int) and isinstance(n, int) else (not isinstance(m, int) and not isinstance(n, int) and m.eq(n))):
            return c
    ns = dict(_type_=T, _length_=mk_int(n), _pv_len=n, _pv_size=norm(n * csize(T)), _pv_twin=None)
    if T is c_char:
        ns['raw'] = RawProp()
        ns['value'] = CharValueProp()
    c = CMeta('%s_Array_%s' % (T.__name__, n), (Array,), ns)
    cache.append((T, n, c))
    return c


def same_type(T, U):
    """U (type of a value) acceptable where T is expected; may fork on symbolic lengths."""
    if issubclass(U, T):
        return True
    if issubclass(T, Array) and issubclass(U, Array) and T._type_ is U._type_ and T._type_ is not None:
        return same(T._pv_len, U._pv_len) or decide(zt(T._pv_len) == zt(U._pv_len))
    return False


def store(T, mem, off, v):
    if isinstance(v, CData):
        if same_type(T, type(v)):
            mem.write(off, v._pv_bytes())
            return
        if issubclass(T, Simple):
            raise pyerr(TypeError('int expected instead of %s instance' % type(v).__name__))
        raise pyerr(TypeError('incompatible types, %s instance instead of %s instance' % (type(v).__name__, T.__name__)))
    if issubclass(T, Simple):
        mem.write(off, T._store(v))
        return
    if isinstance(v, tuple):
        o = T(*v)
        mem.write(off, o._pv_bytes())
        return
    if issubclass(T, Array) and T._type_ is c_char:
        ps = pieces_of(v)
        if ps is not None:
            if decide(zt(total(ps)) > zt(T._pv_len)):
                raise pyerr(ValueError('bytes too long'))
            mem.write(off, ps)
            return
    raise pyerr(TypeError('expected %s instance, got %s' % (T.__name__, type(v).__name__)))


# ---- structures ----------------------------------------------------------------------------------------------
class Field:
    def __init__(self, name, T, offset, bits, bitofs, n):
        self.name, self.T, self.offset, self.bits, self.bitofs, self.n = name, T, offset, bits, bitofs, n
        self.size = n if bits is None else (bits << 16) | bitofs

    def __get__(self, o, cls=None):
        if o is None:
            return self
        T = self.T
        off = norm(o._o + self.offset)
        if self.bits is not None:
            v = num_value(o._m.read(off, self.n))
            if isinstance(v, int):
                r = (v >> self.bitofs) & ((1 << self.bits) - 1)
            else:
                x = v / (1 << self.bitofs) if self.bitofs else v
                r = norm(x % (1 << self.bits)) if self.bitofs + self.bits < 8 * self.n else norm(x)
            if T._code in 'bhilq':
                raise Unsupported('signed bit field')
            return mk_int(r)
        if issubclass(T, Simple):
            return T._load(o._m.read(off, csize(T)))
        return view(T, o._m, off)

    def __set__(self, o, v):
        off = norm(o._o + self.offset)
        if self.bits is not None:
            if not isinstance(v, (int, SInt, SBool)):
                raise pyerr(TypeError('int expected instead of %s instance' % type(v).__name__))
            t = norm(term(v))
            w = 1 << self.bits
            if not (leq(0, t) and leq(t, w - 1)):
                t = norm(t % w)
            old = num_value(o._m.read(off, self.n))
            cur = norm((zt(old) / (1 << self.bitofs)) % w)
            new = norm(old + (t - cur) * (1 << self.bitofs))
            if not isinstance(new, int):
                o._m.write(off, [Num(new, self.n)])
            else:
                o._m.write(off, [Lit(new.to_bytes(self.n, 'little'))])
            return
        store(self.T, o._m, off, v)


def twin(T):
    if T._pv_twin is not None:
        return T._pv_twin
    if issubclass(T, Array):
        n = T._pv_len
        return twin(T._type_) * (n if isinstance(n, int) else 0)
    raise Unsupported('layout')


_TWINS = {}


def setup_fields(cls, fields):
    if not issubclass(cls, Structure):
        raise Unsupported('fields of a non-structure')
    base = cls.__mro__[1]
    if '_anonymous_' in cls.__dict__:
        raise Unsupported('_anonymous_')
    fs = []
    for f in fields:
        f = tuple(f)
        if not (isinstance(f[0], str) and isinstance(f[1], type) and issubclass(f[1], CData)):
            raise pyerr(TypeError('second item in _fields_ tuple must be a C type'))
        fs.append(f)
    if getattr(base, '_pv_symlen', False) and fs:
        raise Unsupported('fields after an array of symbolic length')
    symbolic = None
    key = [base._pv_tkey, getattr(cls, '_pack_', None), issubclass(cls, Union_)]
    for k, f in enumerate(fs):
        n = csize(f[1])
        if not isinstance(n, int):
            if k != len(fs) - 1:
                raise Unsupported('array of symbolic length before other fields')
            symbolic = n
        key.append((f[0], f[1].__name__ if issubclass(f[1], Simple) else (twin_key(f[1])), tuple(f[2:])))
    key = repr(key)
    type.__setattr__(cls, '_pv_tkey', key)
    if key not in _TWINS:
        ns = {}
        if hasattr(cls, '_pack_'):
            ns['_pack_'] = cls._pack_
        ns['_fields_'] = [(f[0], twin(f[1])) + tuple(f[2:]) for f in fs]
        tb = [b for b in cls.__mro__[1:] if b.__dict__.get('_pv_twin') is not None]
        tb = tb[0].__dict__['_pv_twin']
        t = type(tb)(cls.__name__, (tb,), ns)
        _TWINS[key] = (t, [(getattr(t, f[0]).offset, getattr(t, f[0]).size) for f in fs], RC.sizeof(t))
    t, offs, size = _TWINS[key]
    type.__setattr__(cls, '_pv_twin', t)
    for f, (off, sz) in zip(fs, offs):
        bits = bitofs = None
        n = csize(f[1])
        if len(f) > 2:
            bits, bitofs = sz >> 16, sz & 0xffff
        type.__setattr__(cls, f[0], Field(f[0], f[1], off, bits, bitofs, n))
    type.__setattr__(cls, '_pv_size', size if symbolic is None else norm(offs[-1][0] + symbolic))
    type.__setattr__(cls, '_pv_symlen', symbolic is not None)
    type.__setattr__(cls, '_pv_names', list(getattr(base, '_pv_names', [])) + [f[0] for f in fs])


def twin_key(T):
    if issubclass(T, Array):
        return ('A', twin_key(T._type_), T._pv_len if isinstance(T._pv_len, int) else 'sym')
    return T._pv_tkey if not issubclass(T, Simple) else T.__name__


class Structure(CData):
    _pv_twin = RC.LittleEndianStructure
    _pv_tkey = 'S'
    _pv_names = []
    _pv_size = 0

    def __init__(self, *a, **k):
        names = type(self)._pv_names
        if len(a) > len(names):
            raise pyerr(TypeError('too many initializers'))
        for n, v in zip(names, a):
            if n in k:
                raise pyerr(TypeError('duplicate values for field %r' % n))
            rt.setattr_(self, n, v)
        for n, v in k.items():
            rt.setattr_(self, n, v)


class Union_(Structure):
    pass


c_uint8 = make_simple('c_ubyte', RC.c_uint8, 'B')
c_int8 = make_simple('c_byte', RC.c_int8, 'b')
c_uint16 = make_simple('c_ushort', RC.c_uint16, 'H')
c_int16 = make_simple('c_short', RC.c_int16, 'h')
c_uint32 = make_simple('c_uint', RC.c_uint32, 'I')
c_int32 = make_simple('c_int', RC.c_int32, 'i')
c_uint64 = make_simple('c_ulong', RC.c_uint64, 'Q')
c_int64 = make_simple('c_long', RC.c_int64, 'q')
c_char = make_simple('c_char', RC.c_char, 'c')
c_bool = make_simple('c_bool', RC.c_bool, '?')


def c_sizeof(x):
    if isinstance(x, type) and issubclass(x, CData):
        return mk_int(csize(x))
    if isinstance(x, CData):
        return mk_int(csize(type(x)))
    raise pyerr(TypeError('this type has no size'))


def addressof(x):
    if not isinstance(x, CData):
        raise pyerr(TypeError('invalid type'))
    return Addr(x._m, x._o)


def byref(x, offset=0):
    if not isinstance(x, CData):
        raise pyerr(TypeError("byref() argument must be a ctypes instance, not '%s'" % type(x).__name__))
    return Addr(x._m, norm(x._o + term(offset)))


def loc(x):
    """(kind, memory, offset, capacity) of a pointer argument"""
    if isinstance(x, CData):
        return x._m, x._o
    if isinstance(x, Addr):
        return x.mem, x.off
    return None


def read_ptr(x, n, what):
    """n bytes behind a pointer; reading beyond the object is a failed obligation"""
    l = loc(x)
    if l is None:
        ps = pieces_of(x) if isinstance(x, (bytes, ropes.SBytes)) else None
        if ps is None:
            if isinstance(x, (ropes.SByteArray, bytearray, int, SInt, str, float)) or x is None or isinstance(x, tuple):
                if isinstance(x, (int, SInt)) or x is None:
                    S().oblige('memory safety: %s' % what, z3.BoolVal(False))
                raise pyerr(ctypes_argument_error(x))
            raise Unsupported('pointer argument of type %s' % type(x).__name__)
        S().oblige('memory safety: %s' % what, zt(total(ps)) >= zt(n))
        a, b = split(ps, n)
        return a
    m, o = l
    S().oblige('memory safety: %s' % what, z3.And(zt(n) >= 0, zt(norm(o + n)) <= zt(m.size())))
    return m.read(o, n)


def ctypes_argument_error(x):
    return RC.ArgumentError("argument: TypeError: Don't know how to convert parameter")


def write_ptr(x, ps, what):
    n = total(ps)
    if isinstance(x, ropes.SBytes):
        S().oblige('memory safety: %s' % what, zt(total(x.p)) >= zt(n))
        l, r = split(x.p, n)
        x._set(list(ps) + r)
        for L in S().loopstack:
            if L.inductive and x.birth <= L.births:
                raise Unsupported('a bytes object made before the loop is overwritten by C code')
        return
    l = loc(x)
    if l is None:
        if isinstance(x, bytes):
            raise Unsupported('a constant bytes object is overwritten by C code')
        if x is None:
            S().oblige('memory safety: %s' % what, z3.BoolVal(False))
        raise pyerr(ctypes_argument_error(x))
    m, o = l
    S().oblige('memory safety: %s' % what, zt(norm(o + n)) <= zt(m.size()))
    m.write(o, ps)


def memmove(dst, src, count):
    n = idx(count)
    S().oblige('memory safety: memmove', zt(n) >= 0)
    write_ptr(dst, read_ptr(src, n, 'memmove source'), 'memmove destination')
    return dst


def memset(dst, c, count):
    n = idx(count)
    S().oblige('memory safety: memset', zt(n) >= 0)
    write_ptr(dst, norm_pieces([Rep(term(c), n)]), 'memset destination')
    return dst


def string_at(p, size=-1):
    if isinstance(size, int) and size == -1:
        raise Unsupported('string_at without a size')
    return mk_bytes(read_ptr(p, idx(size), 'string_at'))


def create_string_buffer(init, size=None):
    ps = pieces_of(init) if isinstance(init, (bytes, ropes.SBytes)) else None
    if ps is not None:
        n = norm(total(ps) + 1) if size is None else idx(size)
        b = (c_char * mk_int(n))()
        if not leq(total(ps), n) and decide(zt(total(ps)) > zt(n)):
            raise pyerr(ValueError('byte string too long'))
        b._m.write(0, ps)
        return b
    if isinstance(init, (int, SInt)):
        return (c_char * init)()
    raise pyerr(TypeError(init))


def names():
    d = dict(c_uint8=c_uint8, c_ubyte=c_uint8, c_int8=c_int8, c_byte=c_int8, c_uint16=c_uint16, c_ushort=c_uint16, c_int16=c_int16, c_short=c_int16,
             c_uint32=c_uint32, c_uint=c_uint32, c_int32=c_int32, c_int=c_int32, c_uint64=c_uint64, c_ulonglong=c_uint64, c_ulong=c_uint64, c_size_t=c_uint64,
             c_int64=c_int64, c_longlong=c_int64, c_long=c_int64, c_ssize_t=c_int64, c_char=c_char, c_bool=c_bool, Structure=Structure, LittleEndianStructure=Structure,
             Array=Array, sizeof=c_sizeof, addressof=addressof, byref=byref, memmove=memmove, memset=memset, string_at=string_at,
             create_string_buffer=create_string_buffer, ArgumentError=RC.ArgumentError)
    return d

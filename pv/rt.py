"""Runtime support for transformed code: operations of Python on concrete or symbolic values."""
import itertools
import builtins as B
import inspect
import operator
import re as _re
import types as _types
import z3
from . import core, ropes, lists
from .core import SInt, SBool, EngineSignal, Unsupported, PathEnd, term, norm, mk_int, mk_bool, is_symbolic
from .ropes import SBytes, SByteArray, pieces_of, mk_bytes, need, pyerr, decide, zt, leq, same, total, Lit
from .lists import MList, SDeque, Items, Map, segs_of, mk_tuple

PVDIR = __file__.rsplit('/', 1)[0]


def S():
    return core.S


class Poison:
    """The value of a variable after a loop whose invariant says nothing about it."""
    _pv_symbolic = True

    def __init__(self, why='value not described by the loop invariant'):
        object.__setattr__(self, 'why', why)

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, 'why'))

    def __getattribute__(self, n):
        if n in ('__class__', '_pv_symbolic'):
            return object.__getattribute__(self, n)
        raise Unsupported(object.__getattribute__(self, 'why'))

    __setattr__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = __hash__ = \
        __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __call__ = __index__ = __int__ = __str__ = __format__ = __contains__ = \
        __mod__ = __and__ = __or__ = __rand__ = __ror__ = __neg__ = __invert__ = __iadd__ = __await__ = _no


def unpoison(v):
    if type(v) is Poison:
        raise Unsupported(object.__getattribute__(v, 'why'))
    return v


class SStr:
    """A string built from symbolic values (only passed around)."""
    _pv_symbolic = True

    def __init__(self, parts=()):
        self.parts = parts

    def __add__(self, o):
        return SStr() if isinstance(o, (str, SStr)) else NotImplemented
    __radd__ = __mod__ = __add__

    def __str__(self):
        return '<sym>'
    __repr__ = __str__

    def __format__(self, s):
        return '<sym>'

    def _no(self, *a):
        raise Unsupported('operation on a string built from symbolic values')
    __eq__ = __ne__ = __lt__ = __hash__ = __bool__ = __len__ = __iter__ = __getitem__ = __contains__ = _no

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('format', 'join', 'upper', 'lower', 'strip'):
            return lambda *a, **k: SStr()
        raise Unsupported('operation on a string built from symbolic values')


# ---- bookkeeping --------------------------------------------------------------------------------------
def enter(q):
    S().functions.add(q)


def inductive():
    return any(L.inductive for L in S().loopstack)


def wrote(obj, name):
    st = S()
    st.mutations += 1
    if st.loopstack:
        if id(obj) not in st.oid and inductive():
            raise Unsupported('write to an untracked object inside a loop (%s.%s)' % (type(obj).__name__, name))
        if id(obj) in st.oid:
            st.wrote(obj, name)


def wrote_cell(name):
    if inductive():
        raise Unsupported('rebinding of an outer variable inside a loop: ' + name)


def caught():
    """Called on entry of every except clause: an error raised inside the verifier itself is not the program's."""
    import sys
    e = sys.exc_info()[1]
    check_exc(e)


ENGINE_TYPE = _re.compile(r'\b(SInt|SBool|SBytes|SByteArray|SView|SStr|SDeque|SRange|SEnumerate|MList|Splat|Poison|Stub|Mem|\w*Shim)\b')


def check_exc(e):
    if e is None or getattr(e, '_pv_ok', False):
        return
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is not None and last.tb_frame.f_code.co_filename.startswith(PVDIR) and not last.tb_frame.f_locals.get('_pv_native'):
        raise Unsupported('error inside the verifier: %s: %s' % (type(e).__name__, e)) from e
    x = e
    while x is not None and not getattr(x, '_pv_ok', False):
        if isinstance(x, (TypeError, AttributeError, SystemError)) and ENGINE_TYPE.search(str(x)):
            # library code in C was handed a value only the verifier has
            raise Unsupported('library function applied to an unknown value: %s' % str(x)[:120]) from e
        x = x.__cause__


# ---- attributes -----------------------------------------------------------------------------------------
def setattr_(o, n, v):
    unpoison(o)
    t = type(o)
    f = getattr(t, '__setattr__', None)
    if isinstance(o, type):
        if inductive():
            if n in vars(o) and vars(o)[n] is v:
                return              # no change
            raise Unsupported('class attribute assigned inside a loop: %s.%s' % (o.__name__, n))
        _pv_native = True
        B.setattr(o, n, v)
        return
    if isinstance(f, _types.FunctionType) and not getattr(t, '_pv_model', False):
        f(o, n, v)          # user-defined __setattr__
        return
    raw_setattr(o, n, v)


def raw_setattr(o, n, v):
    t = type(o)
    if hasattr(type(v), '__next__') and type(v).__module__ in ('builtins', 'itertools'):
        # an iterator kept in an object has a position that no loop invariant would see
        if type(v) is not itertools.count:
            raise Unsupported('an iterator kept in an attribute')
        v = import_defs().Count(*v.__reduce__()[1])
    d = None
    for k in t.__mro__:
        if n in k.__dict__:
            d = k.__dict__[n]
            break
    if not (d is not None and hasattr(type(d), '__set__')):
        wrote(o, n)
    _pv_native = True
    object.__setattr__(o, n, v) if not isinstance(o, (_types.ModuleType, _types.FunctionType, BaseException)) else B.setattr(o, n, v)


def delattr_(o, n):
    wrote(o, n)
    if inductive():
        raise Unsupported('del of an attribute inside a loop')
    _pv_native = True
    B.delattr(o, n)


def shim_getattr(o, n, *d):
    unpoison(o)
    _pv_native = True
    return B.getattr(o, n, *d)


NATIVE_BYTES_OK = {'hex', 'decode'}


def attr(o, n):
    t = type(o)
    if t is bytes:
        if n == 'join':
            return lambda it: ropes.join(o, it)
        if n in ('hex', 'decode'):
            return native_call(B.getattr(o, n))
        if hasattr(SBytes, n) and hasattr(bytes, n):
            def f(*a, **k):
                if any(is_symbolic(x) for x in a):
                    return B.getattr(SBytes([Lit(o)] if o else []), n)(*a, **k)
                _pv_native = True
                return wrap_native(B.getattr(o, n)(*a, **k))
            return f
        return native_call(B.getattr(o, n)) if hasattr(o, n) else B.getattr(o, n)
    if t is str:
        if n == 'join':
            def j(it):
                it = list(it)
                if any(isinstance(x, SStr) for x in it):
                    return SStr()
                _pv_native = True
                return o.join(it)
            return j
        if n == 'format':
            def f(*a, **k):
                if any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()):
                    return SStr()
                _pv_native = True
                return o.format(*a, **k)
            return f
        return native_call(B.getattr(o, n))
    if t in (int, bool, float):
        return native_call(B.getattr(o, n))
    if isinstance(o, super):
        if n == '__setattr__':
            me = o.__self__
            f = B.getattr(o, n)
            if isinstance(f, _types.MethodWrapperType):
                return lambda k, v: raw_setattr(me, k, v)
            return f
        return B.getattr(o, n)
    if t is dict or t is set or t is list:
        if n in ('update', 'pop', 'setdefault', 'clear', 'popitem', 'add', 'append', 'remove', 'extend', 'insert', 'discard') and inductive():
            raise Unsupported('%s.%s inside a loop' % (t.__name__, n))
        f = B.getattr(o, n)
        if t is dict and n in ('items', 'keys', 'values', 'copy'):
            return f
        return native_call(f, conv=False)
    if o is object and n == '__setattr__':
        return raw_setattr
    _pv_native = True
    return B.getattr(o, n)


def deep_sym(x):
    return is_symbolic(x) or isinstance(x, SStr) or (isinstance(x, tuple) and any(deep_sym(y) for y in x)) or hasattr(type(x), '_pv_bytes')


def native_call(f, conv=True):
    def g(*a, **k):
        if conv and (any(is_symbolic(x) for x in a) or any(is_symbolic(x) for x in k.values())):
            raise Unsupported('%s with a symbolic argument' % getattr(f, '__qualname__', f))
        _pv_native = True
        return wrap_native(f(*a, **k))
    return g


def wrap_native(r):
    if type(r) is list:
        return MList.of(r)
    return r


# ---- items --------------------------------------------------------------------------------------------------
def slice_(a, b, c):
    return slice(a, b, c)


def sym_index(i):
    if isinstance(i, slice):
        return any(is_symbolic(x) for x in (i.start, i.stop, i.step))
    return is_symbolic(i)


def getitem(o, i):
    unpoison(o)
    unpoison(i)
    t = type(o)
    if t is bytes or t is bytearray:
        if sym_index(i):
            ps = [Lit(bytes(o))] if o else []
            if isinstance(i, slice):
                return mk_bytes(ropes.slice_pieces(ps, i))
            return mk_int(ropes.index_pieces(ps, i))
    elif t is tuple or t is list or isinstance(o, tuple):
        if sym_index(i):
            m = MList([Items(list(o))], tup=not isinstance(o, list))
            return m[i]
    elif t is range and sym_index(i):
        raise Unsupported('range index')
    _pv_native = True
    return o[i]


def setitem(o, i, v):
    unpoison(o)
    unpoison(i)
    if type(o) in (dict, list) and inductive():
        raise Unsupported('item assignment of a native container inside a loop')
    _pv_native = True
    o[i] = v


def delitem(o, i):
    unpoison(o)
    if type(o) in (dict, list) and inductive():
        raise Unsupported('item deletion inside a loop')
    _pv_native = True
    del o[i]


def contains(x, c):
    unpoison(c)
    unpoison(x)
    if isinstance(c, (MList, tuple, list)) and (is_symbolic(x) or isinstance(c, MList) or any(is_symbolic(y) for y in c)):
        if isinstance(c, MList) and not c.concrete():
            raise Unsupported('membership in a symbolic list')
        it = [y for s in (c.segs if isinstance(c, MList) else [Items(list(c))]) for y in s.v]
        conds = []
        for y in it:
            if y is x:
                return True
            r = (x == y)
            if isinstance(r, SBool):
                conds.append(r.b)
            elif r:
                return True
        if not conds:
            return False
        return bool(mk_bool(z3.Or(*conds)))
    if isinstance(c, (range, SRange)):
        if is_symbolic(x) or isinstance(c, SRange):
            lo, hi, st = (c.start, c.stop, c.step)
            if st != 1:
                raise Unsupported('membership in a stepped range')
            return bool((x >= lo) & (x < hi)) if isinstance(x, (SInt, int)) else False
    if isinstance(c, bytes) and is_symbolic(x):
        if isinstance(x, (SInt, SBool)):
            return bool(mk_bool(z3.Or(*[zt(term(x)) == v for v in set(c)]))) if c else False
        raise Unsupported('substring test')
    _pv_native = True
    return x in c


# ---- calls with * -----------------------------------------------------------------------------------------------
class Star:
    def __init__(self, x):
        self.x = x


class Splat:
    """The symbolic rest of the positional arguments of a call."""
    _pv_symbolic = True

    def __init__(self, segs):
        self.segs = segs


def flat_parts(parts):
    segs = []
    for p in parts:
        if isinstance(p, Star):
            x = unpoison(p.x)
            if isinstance(x, (MList, SDeque)):
                segs.extend(segs_of(x))
            else:
                segs.append(Items(list(x)))
        else:
            segs.append(Items([p]))
    return lists.norm_segs(segs)


def positional(f):
    """(number of named positional parameters, accepts *args, runs transformed code)"""
    skip = 0
    if inspect.ismethod(f):
        skip = 1
        f = f.__func__
    if isinstance(f, _types.FunctionType):
        c = f.__code__
        return max(c.co_argcount - skip, 0), bool(c.co_flags & inspect.CO_VARARGS), not c.co_filename.startswith(PVDIR)
    return None


def call(f, parts, kw):
    segs = flat_parts(parts)
    if all(isinstance(s, Items) for s in segs):
        return f(*[x for s in segs for x in s.v], **kw)
    if getattr(f, '_pv_splat', False):
        lead = []
        while segs and isinstance(segs[0], Items):
            lead.extend(segs[0].v)
            segs = segs[1:]
        return f(*(lead + [Splat(segs)]), **kw)
    p = positional(f)
    if p is None or not p[1] or not p[2]:
        m = MList(segs, tup=True)
        return f(*m.native(), **kw)
    n = p[0]
    out = []
    while len(out) < n:
        m = MList(segs, tup=True)
        if not m.segs:
            break
        z = m.size()
        if not decide(zt(z) > 0):
            segs = []
            break
        l, r = lists.split_segs(m.segs, 1)
        out.append(MList(l, tup=True).at(0))
        segs = r
    if segs and all(isinstance(s, Items) for s in segs):
        out.extend(x for s in segs for x in s.v)
        segs = []
    if not segs:
        return f(*out, **kw)
    return f(*(out + [Splat(segs)]), **kw)


def varargs(a):
    if a and isinstance(a[-1], Splat):
        return mk_tuple([Items(list(a[:-1]))] + list(a[-1].segs))
    return a


def mklist(x):
    return MList.of(x)


def mkparts(kind, *parts):
    segs = flat_parts(parts)
    return MList(segs) if kind == 'list' else mk_tuple(segs)


def unpack(v, n):
    unpoison(v)
    if isinstance(v, MList):
        if n is not None:
            if not decide(zt(v.size()) == n):
                raise pyerr(ValueError('wrong number of values to unpack'))
            return tuple(v.at(k) for k in range(n))
        return tuple(v.native())
    if isinstance(v, (SBytes, SByteArray)):
        if n is not None:
            if not decide(zt(total(v.p)) == n):
                raise pyerr(ValueError('wrong number of values to unpack'))
            return tuple(v[k] for k in range(n))
        return tuple(v)
    if hasattr(type(v), '_pv_iter'):
        return tuple(v._pv_iter())
    return v


def unpack_star(v, before, after):
    """a, *b, c = v: the items before the star, the list in the middle, the items after it"""
    unpoison(v)
    m = symlist(v)
    if m is not None:
        n = m.size()
        if before + after and not decide(zt(n) >= before + after):
            raise pyerr(ValueError('not enough values to unpack'))
        end = mk_int(norm(zt(n) - after))
        mid = MList(lists.split_segs(lists.split_segs(m.segs, norm(zt(n) - after))[0], before)[1])
        return tuple(m.at(k) for k in range(before)) + (mid,) + tuple(m.at(norm(term(end) + k)) for k in range(after))
    xs = list(native_items(v))
    if len(xs) < before + after:
        raise pyerr(ValueError('not enough values to unpack'))
    return tuple(xs[:before]) + (MList.of(xs[before:len(xs) - after]),) + tuple(xs[len(xs) - after:])


IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'BitAnd': operator.iand,
        'BitOr': operator.ior, 'BitXor': operator.ixor, 'LShift': operator.ilshift, 'RShift': operator.irshift, 'Div': operator.itruediv, 'Pow': operator.ipow}


def iop(op, a, b):
    if op == 'Mod':
        return mod(a, b)
    _pv_native = True
    return IOPS[op](a, b)


def mod(a, b):
    if isinstance(a, str) and (deep_sym(b)):
        return SStr()
    if isinstance(a, bytes) and deep_sym(b):
        raise Unsupported('bytes formatting')
    _pv_native = True
    return a % b


def fmt(v):
    return v


def fstr(*vals):
    if any(deep_sym(v) for v in vals):
        return SStr()
    return ''.join(str(v) for v in vals)


def is_(a, b):
    unpoison(a)
    unpoison(b)
    if isinstance(a, SBool) and isinstance(b, bool):
        return bool(a) is b
    if isinstance(b, SBool) and isinstance(a, bool):
        return bool(b) is a
    if isinstance(a, SBool) and isinstance(b, SBool) and a is not b:
        return bool(a == b)
    return a is b


def mkdict(d):
    return d


# ---- builtins ---------------------------------------------------------------------------------------------------
class Shim:
    def __init__(self, native):
        self.native = native
        self.__name__ = native.__name__

    def __mro_entries__(self, bases):
        return (self.native,)

    def __repr__(self):
        return repr(self.native)

    def __eq__(self, o):
        return self is o or o is self.native

    def __hash__(self):
        return hash(self.native)

    def __or__(self, o):
        return self.native | (o.native if isinstance(o, Shim) else o)

    def __getattr__(self, n):
        if n in ('native', '__name__'):
            raise AttributeError(n)
        _pv_native = True
        return B.getattr(self.native, n)


class BytesShim(Shim):
    def __call__(self, *a, **k):
        if not a and not k:
            return b''
        if len(a) > 1 or k:
            _pv_native = True
            return bytes(*a, **k)
        x = unpoison(a[0])
        if isinstance(x, SBytes):
            return x
        if type(x) is bytes:
            return x
        f = B.getattr(type(x), '__bytes__', None)
        if f is not None and not isinstance(x, (bytes, bytearray)):
            r = f(x)
            if not isinstance(r, (bytes, SBytes)):
                raise pyerr(TypeError('__bytes__ returned non-bytes'))
            return r
        ps = pieces_of(x)
        if ps is not None:
            return mk_bytes(ps)
        if isinstance(x, (int, SInt, SBool)):
            n = norm(term(x))
            if isinstance(n, int):
                if n < 0:
                    raise pyerr(ValueError('negative count'))
                return bytes(n)
            if not leq(0, n) and decide(n < 0):
                raise pyerr(ValueError('negative count'))
            return ropes.repeat(b'\0', mk_int(n))
        if isinstance(x, (MList, list, tuple)):
            return mk_bytes(ropes.ints_to_pieces(x))
        if isinstance(x, (str, SStr)):
            raise pyerr(TypeError('string argument without an encoding'))
        if hasattr(type(x), '__index__'):
            return self(x.__index__())
        if hasattr(type(x), '_pv_iter'):
            return mk_bytes(ropes.ints_to_pieces(list(x._pv_iter())))
        if hasattr(type(x), '__iter__'):
            return mk_bytes(ropes.ints_to_pieces(list(x)))
        raise pyerr(TypeError("cannot convert '%s' object to bytes" % type(x).__name__))

    def join(self, sep, it):
        return ropes.join(sep, it)


class ByteArrayShim(Shim):
    def __call__(self, *a, **k):
        if not a:
            return SByteArray()
        if len(a) == 1 and isinstance(a[0], (int, SInt)):
            return SByteArray(need(BYTES(a[0])))
        return SByteArray(need(BYTES(*a, **k)))


class IntShim(Shim):
    def __call__(self, x=0, *a, **k):
        unpoison(x)
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return mk_int(term(x))
        if isinstance(x, SStr) or a and is_symbolic(a[0]):
            raise Unsupported('int of a string')
        if isinstance(x, (SBytes, SByteArray)):
            raise Unsupported('int of bytes')
        if hasattr(type(x), '__int__') and not isinstance(x, (int, float, str, bytes)):
            return type(x).__int__(x)
        if hasattr(type(x), '__index__') and not isinstance(x, (int, float, str, bytes)):
            return type(x).__index__(x)
        _pv_native = True
        return int(x, *a, **k)

    def from_bytes(self, b, byteorder='big', *, signed=False):
        if isinstance(b, bytes):
            return int.from_bytes(b, byteorder, signed=signed)
        return ropes.int_from_bytes(BYTES(b), byteorder, signed)

    def to_bytes(self, v, *a, **k):
        return v.to_bytes(*a, **k)


class BoolShim(Shim):
    def __call__(self, x=False):
        unpoison(x)
        if isinstance(x, SBool):
            return x
        if isinstance(x, SInt):
            return mk_bool(x.t != 0)
        return truth(x)


def truth(x):
    _pv_native = True
    return bool(x)


class StrShim(Shim):
    def __call__(self, *a, **k):
        if a and deep_sym(unpoison(a[0])):
            if len(a) > 1:
                raise Unsupported('decoding symbolic bytes')
            return SStr()
        _pv_native = True
        return str(*a, **k)


class ListShim(Shim):
    def __call__(self, x=()):
        unpoison(x)
        if isinstance(x, (MList, SDeque)):
            return MList(segs_of(x))
        if isinstance(x, (SBytes, SByteArray)):
            return bytes_to_list(x)
        if hasattr(type(x), '_pv_list'):
            return x._pv_list()
        if isinstance(x, (SRange, SEnumerate)):
            return MList(x.segs())
        return MList.of(list(x))


def bytes_to_list(x):
    n = total(x.p)
    if isinstance(n, int) and n <= 512:
        return MList.of([mk_int(ropes.piece_byte(x.p, k)) for k in range(n)])
    raise Unsupported('list of a byte string of symbolic length')


class TupleShim(Shim):
    def __call__(self, x=()):
        unpoison(x)
        if type(x) is tuple:
            return x
        l = LIST(x)
        return mk_tuple(l.segs)

    def __getattr__(self, n):
        _pv_native = True
        return B.getattr(tuple, n)


BYTES, BYTEARRAY, INT, BOOL, STR, LIST, TUPLE = (BytesShim(bytes), ByteArrayShim(bytearray), IntShim(int), BoolShim(bool), StrShim(str), ListShim(list), TupleShim(tuple))
SHIMS = {bytes: BYTES, bytearray: BYTEARRAY, int: INT, bool: BOOL, str: STR, list: LIST, tuple: TUPLE}


def pytype(x):
    """The Python type a value stands for."""
    t = type(x)
    if t is SInt:
        return int
    if t is SBool:
        return bool
    if t is SBytes:
        return bytes
    if t is SByteArray:
        return bytearray
    if t is ropes.SView:
        return memoryview
    if t is MList:
        return tuple if x.tup else list
    if t is SStr:
        return str
    if t is Poison:
        raise Unsupported('type of a value not described by the loop invariant')
    return t


def type_(x):
    t = pytype(x)
    return SHIMS.get(t, t)


class TypeShim(Shim):
    """the builtin `type`"""

    def __call__(self, *a, **k):
        if len(a) == 1 and not k:
            return type_(a[0])
        return type(*a, **k)


def shim_isinstance(x, cls):
    unpoison(x)
    if isinstance(cls, MList):
        cls = tuple(cls)
    if isinstance(cls, tuple):
        return any(shim_isinstance(x, c) for c in cls)
    if isinstance(cls, Shim):
        cls = cls.native
    t = pytype(x)
    if t is not type(x):
        return cls in t.__mro__ if isinstance(cls, type) else isinstance_native_abc(t, cls)
    if isinstance(cls, type) and getattr(cls, '_pv_deque', False):
        return isinstance(x, SDeque)
    _pv_native = True
    return isinstance(x, cls)


def isinstance_native_abc(t, cls):
    return issubclass(t, cls)


def shim_issubclass(a, cls):
    u = lambda c: c.native if isinstance(c, Shim) else c
    if isinstance(cls, tuple):
        return any(shim_issubclass(a, c) for c in cls)
    _pv_native = True
    return issubclass(u(a), u(cls))


def shim_len(x):
    unpoison(x)
    f = B.getattr(type(x), 'length', None) if is_symbolic(x) or B.getattr(type(x), '_pv_model', False) else None
    if f is not None:
        return f(x)
    if isinstance(x, (SRange, SEnumerate)):
        return mk_int(x.size())
    f = B.getattr(type(x), '__len__', None)
    if isinstance(f, _types.FunctionType):
        r = f(x)
        if not isinstance(r, (int, SInt)):
            raise pyerr(TypeError('__len__ should return an integer'))
        if isinstance(r, SInt):
            if not leq(0, r.t) and decide(r.t < 0):
                raise pyerr(ValueError('__len__() should return >= 0'))
        return r
    _pv_native = True
    return len(x)


class SRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def size(self):
        if self.step != 1:
            raise Unsupported('stepped symbolic range')
        n = norm(zt(term(self.stop)) - zt(term(self.start)))
        if leq(0, n):
            return n
        return n if decide(zt(n) > 0) else 0

    def segs(self):
        k = z3.Int('#r')
        n = self.size()
        d = lists.MapDef(k, mk_int(k + zt(term(self.start))))
        return [Map(d, 0, n)]

    def __iter__(self):
        return iter(MList(self.segs(), tup=True))

    def __getitem__(self, i):
        return MList(self.segs(), tup=True)[i]


class SEnumerate:
    def __init__(self, it, start=0):
        self.m = it if isinstance(it, MList) else MList(segs_of(it), tup=True)
        self.start = start

    def size(self):
        return self.m.size()

    def segs(self):
        out = []
        k = z3.Int('#e')
        pos = zt(term(self.start))
        for s in self.m.segs:
            if isinstance(s, Items):
                out.append(Items([(mk_int(pos + j), x) for j, x in enumerate(s.v)]))
            else:
                d = lists.MapDef(k, (mk_int(pos + k - zt(s.lo)), s.d.at(k)))
                out.append(Map(d, s.lo, s.hi))
            pos = norm(pos + s.n)
        return out

    def __iter__(self):
        return iter(MList(self.segs(), tup=True))


def shim_range(*a):
    for x in a:
        unpoison(x)
    a = [x.__index__() if not isinstance(x, (int, SInt, SBool)) and hasattr(x, '__index__') else x for x in a]
    if any(is_symbolic(x) for x in a):
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)
    _pv_native = True
    return range(*a)


def symlist(x):
    """MList of a value iterated symbolically, or None when native iteration is right."""
    if isinstance(x, SDeque):
        return x.m if not x.m.concrete() else None
    if isinstance(x, MList):
        return x if not x.concrete() else None
    if isinstance(x, (SRange, SEnumerate)):
        m = MList(x.segs(), tup=True)
        return m
    if isinstance(x, (SBytes, SByteArray)):
        n = total(x.p)
        if isinstance(n, int) and n <= 512:
            return None
        return bytes_map(mk_bytes(x.p))
    if hasattr(type(x), '_pv_seq'):
        m = x._pv_seq()
        return m if m is not None and not m.concrete() else None
    return None


def bytes_map(b):
    """The bytes of a byte string as an indexed list (one unstructured string only)."""
    out = []
    k = z3.Int('#b')
    for p in need(b):
        if isinstance(p, ropes.Arr):
            d = lists.MapDef(k, mk_int(p.base.fn(*[zt(a) for a in p.base.args], zt(p.off) + k)))
            S().fact(lambda j, p=p: z3.And(p.base.fn(*[zt(a) for a in p.base.args], zt(p.off) + j) >= 0, p.base.fn(*[zt(a) for a in p.base.args], zt(p.off) + j) <= 255), 0, p.n)
            out.append(Map(d, 0, p.n))
        elif isinstance(p, ropes.Rep):
            out.append(Map(lists.MapDef(k, mk_int(zt(p.v))), 0, p.n))
        elif isinstance(p.n, int):
            out.append(Items([mk_int(p.byte(i)) for i in range(p.n)]))
        else:
            raise Unsupported('iteration over a concatenation')
    return MList(out, tup=True)


def native_items(x):
    """A native iterator over a value of concrete length."""
    if isinstance(x, (MList, SDeque)):
        return list(x)
    if hasattr(type(x), '_pv_iter'):
        return list(x._pv_iter())
    _pv_native = True
    return iter(x)


def shim_iter(x, *a):
    unpoison(x)
    if a:
        raise Unsupported('iter() with a sentinel')
    if symlist(x) is not None:
        raise Unsupported('iter() of a symbolic sequence')
    return iter(native_items(x))


def shim_enumerate(x, start=0):
    unpoison(x)
    m = symlist(x)
    if m is None:
        if is_symbolic(start):
            return SEnumerate(MList.of(native_items(x)), start)
        return enumerate(native_items(x), start)
    return SEnumerate(m, start)


def shim_zip(*a, **k):
    ms = [symlist(unpoison(x)) for x in a]
    if all(m is None for m in ms):
        return zip(*[native_items(x) for x in a], **k)
    ms = [m if m is not None else MList.of(native_items(x)) for m, x in zip(ms, a)]
    n = ms[0].size()
    for m in ms[1:]:
        z = m.size()
        if not same(n, z):
            n = n if decide(zt(n) <= zt(z)) else z
    segs = [lists.split_segs(m.segs, n)[0] for m in ms]
    out = []
    while any(segs):
        if not all(segs):
            if any(decide(zt(x.n) > 0) for s in segs for x in s):
                raise Unsupported('zip')
            break
        w = segs[0][0].n
        for s in segs[1:]:
            z = s[0].n
            if not same(w, z) and not leq(w, z):
                w = z if leq(z, w) or decide(zt(z) <= zt(w)) else w
        if not leq(1, w) and not decide(zt(w) > 0):
            for i, s in enumerate(segs):
                if same(s[0].n, w):
                    segs[i] = s[1:]                # an empty segment
            continue
        heads = []
        for i, s in enumerate(segs):
            l, r = lists.split_segs(s, w)
            heads.append(l[0])
            segs[i] = r
        if all(isinstance(h, Items) for h in heads):
            out.append(Items(list(zip(*[h.v for h in heads]))))
        else:
            if any(isinstance(h, Items) for h in heads):
                w = next(len(h.v) for h in heads if isinstance(h, Items))
                out.append(Items(list(zip(*[h.v if isinstance(h, Items) else [h.d.at(norm(zt(h.lo) + k)) for k in range(w)] for h in heads]))))
                continue
            kk = z3.Int('#z')
            out.append(Map(lists.MapDef(kk, tuple(h.d.at(kk + zt(h.lo)) for h in heads)), 0, w))
    return MList(out, tup=True)


def shim_minmax(fn):
    def f(*a, **k):
        for x in a:
            unpoison(x)
        if len(a) == 1 and not k:
            m = symlist(a[0])
            if m is not None:
                raise Unsupported('%s of a symbolic list' % fn.__name__)
            a = list(native_items(a[0]))
        if any(isinstance(x, (SInt, SBool)) for x in a) and not k:
            r = a[0]
            for x in a[1:]:
                t, u = zt(term(r)), zt(term(x))
                if fn is min:
                    r = x if leq(u, t) and not leq(t, u) else (r if leq(t, u) else mk_int(z3.If(u < t, u, t)))
                else:
                    r = x if leq(t, u) and not leq(u, t) else (r if leq(u, t) else mk_int(z3.If(u > t, u, t)))
            return r
        _pv_native = True
        return fn(*a, **k)
    return f


def shim_sum(it, start=0):
    m = symlist(unpoison(it))
    if m is None:
        r = start
        for x in native_items(it):
            r = r + x
        return r
    r = term(start)
    for s in m.segs:
        if isinstance(s, Items):
            for x in s.v:
                r = r + term(x)
        else:
            P = ropes.get_sum(s.d.var, zt(term(s.d.template)))
            r = r + P.at(s.hi) - P.at(s.lo)
    return mk_int(r)


def shim_any(it):
    m = symlist(unpoison(it))
    if m is not None:
        raise Unsupported('any() of a symbolic list')
    for x in native_items(it):
        if x:
            return True
    return False


def shim_all(it):
    m = symlist(unpoison(it))
    if m is not None:
        raise Unsupported('all() of a symbolic list')
    for x in native_items(it):
        if not x:
            return False
    return True


def shim_sorted(it, **k):
    if symlist(unpoison(it)) is not None:
        raise Unsupported('sorted() of a symbolic list')
    xs = list(native_items(it))
    _pv_native = True
    return MList.of(sorted(xs, **k))


def shim_reversed(it):
    if symlist(unpoison(it)) is not None:
        raise Unsupported('reversed() of a symbolic list')
    return iter(list(native_items(it))[::-1])


def shim_abs(x):
    _pv_native = True
    return abs(x)


def shim_divmod(a, b):
    _pv_native = True
    return (a // b, a % b)


def shim_hex(x):
    return SStr() if is_symbolic(x) else hex(x)


def shim_repr(x):
    return SStr() if deep_sym(x) else repr(x)


def shim_callable(x):
    return callable(unpoison(x))


def shim_hasattr(o, n):
    unpoison(o)
    if isinstance(o, (SBytes, SByteArray, MList, SInt, SBool)):
        return hasattr(pytype(o), n)
    _pv_native = True
    try:
        B.getattr(o, n)
        return True
    except AttributeError as e:
        check_exc(e)
        return False


def shim_memoryview(x):
    ps = pieces_of(x)
    if ps is None:
        raise pyerr(TypeError('memoryview: a bytes-like object is required'))
    if isinstance(x, SByteArray):
        return ropes.SView(x)
    if isinstance(x, ropes.SView):
        return x
    return mk_bytes(ps)


def shim_next(it, *d):
    if isinstance(it, (list, MList)):
        raise Unsupported('next() of a generator expression')
    if type(it).__module__ in ('builtins', 'itertools') and inductive():
        raise Unsupported('an iterator advances inside a loop')          # its position is not among the locations of the loop invariant
    _pv_native = True
    return next(it, *d)


def import_defs():
    from . import loader
    return loader.import_module('builtin_defs')


def shim_map(f, *its):
    ms = [symlist(x) for x in its]
    if any(m is not None for m in ms):
        defs = import_defs()
        return defs.map1(f, its[0]) if len(its) == 1 else defs.map2(f, shim_zip(*its))
    return map(f, *[native_items(x) for x in its])


def shim_filter(f, it):
    if symlist(it) is not None:
        defs = import_defs()
        return defs.filter0(it) if f is None else defs.filter1(f, it)
    return filter(f, native_items(it))


def shim_print(*a, **k):
    pass


def build_class(func, name, *bases, **kw):
    _pv_native = True
    c = B.__build_class__(func, name, *bases, **kw)
    if isinstance(c, type) and not issubclass(c, (type, BaseException)) and c.__new__ is object.__new__:
        def __new__(cls, *a, **k):
            _pv_native = True
            if cls.__init__ is object.__init__ and (a or k):
                raise TypeError('%s() takes no arguments' % cls.__name__)
            o = object.__new__(cls)
            S().track(o)
            return o
        c.__new__ = staticmethod(__new__)
    return c


def unsupported(name):
    def f(*a, **k):
        raise Unsupported('builtin ' + name)
    return f


def make_builtins(import_):
    d = dict(B.__dict__)
    d.update(bytes=BYTES, bytearray=BYTEARRAY, int=INT, bool=BOOL, str=STR, list=LIST, tuple=TUPLE, len=shim_len, range=shim_range, enumerate=shim_enumerate,
             zip=shim_zip, min=shim_minmax(min), max=shim_minmax(max), sum=shim_sum, any=shim_any, all=shim_all, sorted=shim_sorted, reversed=shim_reversed,
             isinstance=shim_isinstance, issubclass=shim_issubclass, getattr=shim_getattr, setattr=setattr_, delattr=delattr_, hasattr=shim_hasattr, abs=shim_abs, divmod=shim_divmod,
             hex=shim_hex, bin=shim_hex, repr=shim_repr, iter=shim_iter, next=shim_next, map=shim_map, filter=shim_filter, callable=shim_callable, memoryview=shim_memoryview,
             print=shim_print, __import__=import_, __build_class__=build_class)
    d["__debug__"] = True
    for n in ('open', 'exec', 'eval', 'compile', 'input', 'globals', 'vars', 'dir', 'id', 'hash', 'pow', 'round', 'chr', 'ord'):
        if n in ('chr', 'ord', 'pow', 'round', 'hash', 'id'):
            g = B.__dict__[n]

            def f(*a, g=g, n=n):
                if any(is_symbolic(x) for x in a):
                    raise Unsupported('builtin %s of a symbolic value' % n)
                _pv_native = True
                return g(*a)
            d[n] = f
        elif n in ('vars',):
            d[n] = lambda *a: B.vars(*a) if a else unsupported('vars')()
        else:
            d[n] = unsupported(n)
    return d


# names used by transformed code
setattr = setattr_
delattr = delattr_

from .loops import head, leave, loop_for, loop_while   # noqa

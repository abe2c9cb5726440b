"""Loads the code under proof: /repo's current source and the contracts, transformed (xform), fresh for every path;
everything outside the repository is a model (assumed contract) or, for pure-Python plumbing, the native module."""
import os
import sys
import types
import importlib
import inspect
import asyncio as _asyncio
import binascii as _binascii
import codecs as _codecs
import collections as _collections
import re as _re
import struct as _struct
import z3
from . import core, ropes, lists, rt, xform, cmodel, crypt
from .core import SInt, SBool, Unsupported, PathEnd, norm, term, mk_int, mk_bool
from .ropes import S, pyerr, pieces_of, mk_bytes, total, split, leq, same, decide, zt, Num, Lit, need, norm_pieces

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
CONTRACTS_DIR = os.environ.get('PV_CONTRACTS') or os.path.join(HERE, 'contracts')
NATIVE = {'abc', 'enum', 'functools', 'typing', 'inspect', 'contextlib', 'operator', 'math', 'types', 'warnings', 'weakref', 'collections.abc', 'sys', 'itertools', 'copy',
          'dataclasses', 'string', 'numbers', '__future__', 'binascii', 'codecs', 'traceback', 'io'}
STUBS = {'socket', 'socketserver', 'threading', 'multiprocessing', 'concurrent', 'concurrent.futures', 'timeit', 'random', 'importlib', 'importlib.util', 'pathlib', 'argparse', 'array', 'json', 'datetime',
         'queue', 'signal', 'select', 'tempfile', 'shutil', 'subprocess', 'atexit', 'platform', 'errno', 'secrets'}


class Stub:
    """Something outside the verifier's reach; only its use is an error."""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Stub(self._n + '.' + n)

    def __call__(self, *a, **k):
        raise Unsupported('call of ' + self._n)

    def __mro_entries__(self, bases):
        if self._n.split('.')[0] in ('socketserver', 'threading', 'multiprocessing'):
            n = self._n

            class Outside:
                def __new__(cls, *a, **k):
                    raise Unsupported('an instance of a class derived from ' + n)
            return (Outside,)
        raise Unsupported('class derived from ' + self._n)


class Noop:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Noop()

    def __call__(self, *a, **k):
        return Noop()


class Fn:
    """A built-in function (not bound when found on an instance)."""
    _pv_model = True

    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        return self.f(*a, **k)


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Stub(self.__name__ + '.' + n)


class SFloat:
    """An unknown float (a clock reading)."""
    _pv_symbolic = True

    def _op(self, o):
        return SFloat() if isinstance(o, (int, float, SFloat, SInt)) else NotImplemented
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _op

    def __bool__(self):
        return S().branch(S().fresh('clock', z3.BoolSort()))

    def __format__(self, s):
        return '<sym>'

    def __int__(self):
        v = S().fresh('clock', z3.IntSort())
        return mk_int(v)

    def _cmp(self, o):
        return mk_bool(S().fresh('clock', z3.BoolSort()))
    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    def _pv_subst(self, var, val):
        return self

    def __repr__(self):
        return 'SFloat'


# ---- struct -------------------------------------------------------------------------------------------------------
SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def fmt_items(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(fmt, str):
        raise Unsupported('struct format')
    order = 'little'
    if fmt[:1] in '<>!=@' and fmt:
        if fmt[0] in '>!':
            order = 'big'
        if fmt[0] in '=@' and fmt[0] == '@':
            raise Unsupported('struct native alignment')
        fmt = fmt[1:]
    elif len(fmt) != 1:
        raise Unsupported('struct native alignment')
    out = []
    k = ''
    for c in fmt:
        if c.isdigit():
            k += c
        elif c == 's':
            out.append(('s', int(k or 1)))
            k = ''
        elif c == 'x':
            out.extend([('x', 1)] * int(k or 1))
            k = ''
        elif c in SIZES:
            out.extend([(c, SIZES[c])] * int(k or 1))
            k = ''
        elif c != ' ':
            raise Unsupported('struct format ' + c)
    return order, out


def struct_pack(fmt, *vals):
    order, items = fmt_items(fmt)
    want = [i for i in items if i[0] != 'x']
    if len(want) != len(vals):
        raise pyerr(_struct.error('pack expected %d items for packing (got %d)' % (len(want), len(vals))))
    out = []
    vs = list(vals)
    for c, n in items:
        if c == 'x':
            out.append(Lit(b'\0'))
            continue
        v = vs.pop(0)
        if c == 's':
            ps = pieces_of(v)
            if ps is None:
                raise pyerr(_struct.error("argument for 's' must be a bytes object"))
            L = total(ps)
            if leq(n, L) or decide(zt(L) >= n):
                out.extend(split(ps, n)[0])
            else:
                out.extend(list(ps) + [ropes.Rep(0, norm(n - L))])
            continue
        if isinstance(v, float) or not isinstance(v, (int, SInt, SBool)) and not hasattr(type(v), '__index__'):
            raise pyerr(_struct.error('required argument is not an integer'))
        if not isinstance(v, (int, SInt, SBool)):
            v = type(v).__index__(v)
        try:
            out.extend(need(ropes.int_to_bytes(v, n, order, signed=c.islower())))
        except OverflowError:
            raise pyerr(_struct.error('argument out of range'))
    return mk_bytes(out)


def struct_unpack_ps(fmt, ps):
    order, items = fmt_items(fmt)
    out = []
    for c, n in items:
        a, ps = split(ps, n)
        if c == 's':
            out.append(mk_bytes(a))
        elif c != 'x':
            out.append(ropes.int_from_bytes(mk_bytes(a), order, c.islower()))
    return tuple(out)


def struct_size(fmt):
    return sum(n for c, n in fmt_items(fmt)[1])


def struct_unpack(fmt, buf):
    ps = need(buf)
    n = struct_size(fmt)
    if not same(total(ps), n) and decide(zt(total(ps)) != n):
        raise pyerr(_struct.error('unpack requires a buffer of %d bytes' % n))
    return struct_unpack_ps(fmt, ps)


def struct_unpack_from(fmt, buffer, offset=0):
    ps = need(buffer)
    n = struct_size(fmt)
    off = norm(term(offset))
    if not leq(0, off) and decide(zt(off) < 0):
        raise Unsupported('negative offset')
    if not leq(norm(off + n), total(ps)) and decide(zt(total(ps)) < zt(norm(off + n))):
        raise pyerr(_struct.error('unpack_from requires a larger buffer'))
    return struct_unpack_ps(fmt, split(split(ps, off)[1], n)[0])


class StructObj:
    _pv_model = True

    def __init__(self, fmt):
        self.format, self.size = fmt, struct_size(fmt)

    def pack(self, *v):
        return struct_pack(self.format, *v)

    def unpack(self, b):
        return struct_unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return struct_unpack_from(self.format, b, offset)


# ---- re -----------------------------------------------------------------------------------------------------------
class Match:
    _pv_model = True

    def __init__(self, s):
        self.s = s

    def group(self, *a):
        if a and a != (0,):
            raise Unsupported('match group')
        return self.s

    def __bool__(self):
        return True

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('match.' + n)


class Pattern:
    """bytes patterns of the form [set]{min,max} with optional anchors; anything else only on concrete strings"""
    _pv_model = True

    def __init__(self, p, flags=0):
        _pv_native = True
        self.native = _re.compile(p, flags)
        self.pattern = p
        self.flags = flags
        self.shape = None
        P = _re._parser
        seq = list(P.parse(p, flags))
        C = _re._constants
        end = None
        if seq and seq[0][0] == C.AT and seq[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            seq = seq[1:]
        if seq and seq[-1][0] == C.AT and seq[-1][1] in (C.AT_END, C.AT_END_STRING):
            end = seq[-1][1]
            seq = seq[:-1]
        if isinstance(p, bytes) and len(seq) == 1 and not (self.native.flags & ~0):
            op, av = seq[0]
            if op == C.MAX_REPEAT and len(av[2]) == 1 and av[2][0][0] in (C.IN, C.LITERAL, C.NOT_LITERAL):
                lo, hi, item = av
                allowed = self.atoms(item, p, flags)
                self.shape = (lo, None if hi == C.MAXREPEAT else hi, allowed, end, C)

    def atoms(self, item, p, flags):
        comp = _re._compiler
        P = _re._parser
        st = P.State()
        st.flags = flags
        st.str = p
        sub = P.SubPattern(st, list(item))
        pat = comp.compile(sub, flags)
        return frozenset(b for b in range(256) if pat.fullmatch(bytes([b])))

    def _run(self, s, mode):
        ps = pieces_of(s)
        if ps is None:
            if isinstance(s, str) and isinstance(self.pattern, str):
                _pv_native = True
                return getattr(self.native, mode)(s)
            raise pyerr(TypeError('expected string or bytes-like object'))
        b = mk_bytes(ps)
        if isinstance(b, bytes):
            _pv_native = True
            return getattr(self.native, mode)(b)
        if self.shape is None or mode == 'search':
            n = total(ps)
            if not isinstance(n, int) or n > 64 or not isinstance(self.pattern, bytes):
                raise Unsupported('regular expression %r on symbolic bytes' % (self.pattern,))
            return Match(b if mode == 'fullmatch' else None) if S().branch(self.general(ps, n, mode)) else None
        lo, hi, allowed, end, C = self.shape
        n = total(ps)
        if not isinstance(n, int):
            raise Unsupported('regular expression on a string of symbolic length')

        def ok(a, z):
            return z3.And(*([z3.BoolVal(True)] + [inset(zt(ropes.piece_byte(ps, k)), allowed) for k in range(a, z)]))
        inr = lambda m: lo <= m and (hi is None or m <= hi)
        if mode == 'fullmatch' or end == C.AT_END_STRING:
            c = ok(0, n) if inr(n) else z3.BoolVal(False)
        elif end == C.AT_END:
            c = ok(0, n) if inr(n) else z3.BoolVal(False)
            if n and inr(n - 1):
                c = z3.Or(c, z3.And(ok(0, n - 1), zt(ropes.piece_byte(ps, n - 1)) == 10))
        else:
            c = ok(0, lo) if lo <= n else z3.BoolVal(False)
        return Match(b if mode == 'fullmatch' else None) if S().branch(c) else None

    def general(self, ps, n, mode):
        """The condition for a match of a string of n bytes: all ways through the pattern (no back references)."""
        P, C = _re._parser, _re._constants
        flags = self.native.flags
        if flags & (_re.MULTILINE | _re.LOCALE):
            raise Unsupported('regular expression flags')
        byte = [zt(ropes.piece_byte(ps, k)) for k in range(n)]

        def add(d, k, c):
            d[k] = z3.Or(d[k], c) if k in d else c

        def one(op, av, cur):
            out = {}
            if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
                a = self.atoms([(op, av)], self.pattern, self.flags)
                for k, c in cur.items():
                    if k < n and a:
                        add(out, k + 1, z3.And(c, inset(byte[k], a)))
            elif op == C.AT:
                for k, c in cur.items():
                    if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                        if k == 0:
                            out[k] = c
                    elif av == C.AT_END_STRING or av == C.AT_END:
                        if k == n:
                            out[k] = c
                        elif av == C.AT_END and k == n - 1:
                            out[k] = z3.And(c, byte[k] == 10)
                    else:
                        raise Unsupported('regular expression %r' % (self.pattern,))
            elif op == C.BRANCH:
                for alt in av[1]:
                    for k, c in seq(alt, cur).items():
                        add(out, k, c)
            elif op == C.SUBPATTERN:
                if av[1] or av[2]:
                    raise Unsupported('regular expression %r' % (self.pattern,))
                out = seq(av[3], cur)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, sub = av
                for _ in range(min(lo, n + 1)):
                    cur = seq(sub, cur)
                for k, c in cur.items():
                    add(out, k, c)
                for _ in range(n if hi == C.MAXREPEAT else min(hi - lo, n)):
                    cur = seq(sub, cur)
                    if not cur:
                        break
                    for k, c in cur.items():
                        add(out, k, c)
            else:
                raise Unsupported('regular expression %r' % (self.pattern,))
            return out

        def seq(items, cur):
            for op, av in items:
                cur = one(op, av, cur)
            return cur
        start = {0: z3.BoolVal(True)}
        if mode == 'search':
            start = {k: z3.BoolVal(True) for k in range(n + 1)}
        ends = seq(P.parse(self.pattern, self.flags), start)
        return z3.simplify(z3.Or(*([z3.BoolVal(False)] + [c for k, c in ends.items() if mode != 'fullmatch' or k == n])))

    def fullmatch(self, s):
        return self._run(s, 'fullmatch')

    def match(self, s):
        return self._run(s, 'match')

    def search(self, s):
        return self._run(s, 'search')

    def _pv_subst(self, var, val):
        return self


def inset(t, allowed):
    xs = sorted(allowed)
    runs = []
    for x in xs:
        if runs and runs[-1][1] == x - 1:
            runs[-1][1] = x
        else:
            runs.append([x, x])
    return z3.Or(*([z3.BoolVal(False)] + [(t == a if a == b else z3.And(t >= a, t <= b)) for a, b in runs]))


# ---- asyncio -------------------------------------------------------------------------------------------------------
class PauseTok:
    """yielded by a suspended coroutine; it goes on at any time after cond() holds"""
    def __init__(self, cond=None):
        self.cond = cond


class Sleep0:
    def __await__(self):
        yield 'sleep'


class Blocked(core.EngineSignal):
    pass


def drive(coro):
    """Run an awaitable to completion; it must not wait for anything outside."""
    if inspect.iscoroutine(coro) or isinstance(coro, types.GeneratorType):
        it = coro
    elif hasattr(type(coro), '__await__'):
        it = coro.__await__()
    else:
        raise pyerr(TypeError('An asyncio.Future, a coroutine or an awaitable is required'))
    n = 0
    while True:
        try:
            _pv_native = True
            tok = it.send(None) if hasattr(it, 'send') else next(it)
        except StopIteration as e:
            return e.value
        n += 1
        if isinstance(tok, PauseTok):
            # nobody else runs: a wait for a peer never ends
            S().oblige('terminates', z3.BoolVal(False))
            raise PathEnd('blocked')
        if tok != 'sleep' or n > 50:
            raise Unsupported('suspension of a coroutine')


class Loop:
    _pv_model = True

    def __init__(self):
        S().track(self)

    def run_until_complete(self, c):
        S().trusted.add('asyncio event loop: run_until_complete runs the coroutine to its end and returns its result or raises its exception')
        return drive(c)

    def is_running(self):
        return False

    def is_closed(self):
        return False

    def close(self):
        pass

    def __bool__(self):
        return True

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('event loop method ' + n)


def get_event_loop():
    r = S().run_state
    if 'loop' not in r:
        r['loop'] = Loop()
    return r['loop']


def new_event_loop():
    return Loop()


def set_event_loop(l):
    S().run_state['loop'] = l


class IncompleteReadError(EOFError):
    def __init__(self, partial, expected):
        super().__init__('incomplete read')
        self.partial, self.expected = partial, expected


class StreamReader:
    """The documented contract of asyncio.StreamReader over a byte stream that arrives in arbitrary fragments."""

    def __init__(self, limit=65536, loop=None):
        self.d = b''
        self.end = 'open'
        self.exc = None
        self.failed = False

    def pv_feed(self, data, end, exc):
        self.d, self.end, self.exc = data, end, exc

    def exception(self):
        return self.exc if self.failed else None

    def feed_data(self, data):
        rt.setattr_(self, 'd', self.d + data)

    def feed_eof(self):
        rt.setattr_(self, 'end', 'eof')

    def set_exception(self, e):
        rt.setattr_(self, 'exc', e)
        rt.setattr_(self, 'failed', True)

    def set_transport(self, t):
        rt.setattr_(self, '_transport', t)

    def at_eof(self):
        if self.end != 'eof':
            return False
        return not decide(zt(total(need(self.d))) > 0)

    def pv_fail(self):
        rt.setattr_(self, 'failed', True)
        raise pyerr(self.exc)

    def pv_early(self):
        # the error may already have been reported while data is still buffered
        if self.failed:
            raise pyerr(self.exc)
        if self.end == 'error' and S().branch(S().fresh('reported', z3.BoolSort())):
            self.pv_fail()

    async def readexactly(self, n):
        S().trusted.add('asyncio.StreamReader.readexactly: returns exactly n bytes of the stream or raises IncompleteReadError at its end')
        n = rt.unpoison(n)
        if not isinstance(n, (int, SInt, SBool)):
            raise pyerr(TypeError('not supported between instances'))
        t = norm(term(n))
        if not leq(0, t) and decide(zt(t) < 0):
            raise pyerr(ValueError('readexactly size can not be less than zero'))
        self.pv_early()
        if not leq(1, t) and decide(zt(t) == 0):
            return b''
        ps = need(self.d)
        L = total(ps)
        if leq(t, L) or decide(zt(t) <= zt(L)):
            a, b = split(ps, t)
            rt.setattr_(self, 'd', mk_bytes(b))
            return mk_bytes(a)
        if self.end == 'eof':
            rt.setattr_(self, 'd', b'')
            raise pyerr(IncompleteReadError(mk_bytes(ps), n))
        if self.end == 'error':
            self.pv_fail()
        S().oblige('terminates', z3.BoolVal(False))
        raise PathEnd('blocked')

    async def read(self, n=-1):
        t = norm(term(n))
        self.pv_early()
        if isinstance(t, int) and t == 0:
            return b''
        ps = need(self.d)
        L = total(ps)
        if isinstance(t, int) and t < 0:
            if self.end == 'eof':
                rt.setattr_(self, 'd', b'')
                return mk_bytes(ps)
            if self.end == 'error':
                self.pv_fail()
            S().oblige('terminates', z3.BoolVal(False))
            raise PathEnd('blocked')
        if not leq(1, t) and decide(zt(t) <= 0):
            raise Unsupported('read of a symbolic number of bytes')
        if not leq(1, L) and decide(zt(L) == 0):
            if self.end == 'eof':
                return b''
            if self.end == 'error':
                self.pv_fail()
            S().oblige('terminates', z3.BoolVal(False))
            raise PathEnd('blocked')
        k = S().fresh('chunk', z3.IntSort())
        S().add(z3.And(k >= 1, k <= t, k <= L))
        a, b = split(ps, k)
        rt.setattr_(self, 'd', mk_bytes(b))
        return mk_bytes(a)

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr(_asyncio.StreamReader, n):
            raise pyerr(AttributeError(n))
        raise Unsupported('StreamReader.' + n)


class StreamWriter:
    def __init__(self, transport, protocol, reader, loop):
        self._transport, self._protocol, self._reader, self._loop = transport, protocol, reader, loop

    @property
    def transport(self):
        return self._transport

    def write(self, data):
        S().trusted.add('asyncio.StreamWriter.write passes the bytes to the transport in order; drain reports transport errors')
        self._transport.write(data)

    def writelines(self, data):
        self._transport.writelines(data)

    def close(self):
        return self._transport.close()

    def is_closing(self):
        return self._transport.is_closing()

    async def drain(self):
        if self._reader is not None:
            e = self._reader.exception()
            if e is not None:
                raise pyerr(e)
        await self._protocol._drain_helper()

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr(_asyncio.StreamWriter, n):
            raise pyerr(AttributeError(n))
        raise Unsupported('StreamWriter.' + n)


class StreamReaderProtocol:
    def __init__(self, reader, client_connected_cb=None, loop=None):
        self._stream_reader, self._client_connected_cb, self._loop = reader, client_connected_cb, loop
        self._stream_writer = None


def async_sleep(delay=0, result=None):
    return Sleep0()


def module(name, **names):
    m = types.ModuleType(name)
    m.__dict__.update(names)
    return m


def aio_names():
    return dict(get_event_loop=get_event_loop, new_event_loop=new_event_loop, set_event_loop=set_event_loop, iscoroutinefunction=_asyncio.iscoroutinefunction, iscoroutine=_asyncio.iscoroutine,
                StreamReader=StreamReader, StreamWriter=StreamWriter, StreamReaderProtocol=StreamReaderProtocol, IncompleteReadError=IncompleteReadError, sleep=async_sleep,
                CancelledError=_asyncio.CancelledError, TimeoutError=TimeoutError)


class PartialModule(StubModule):
    pass


def partial(name, **names):
    m = PartialModule(name)
    m.__dict__.update(names)
    return m


def urandom(n):
    if not isinstance(n, (int, SInt)):
        raise pyerr(TypeError('an integer is required'))
    return crypt.random('os', n)


def find_library(n):
    return 'libsodium.so.23' if n == 'sodium' else None


class DLL:
    def LoadLibrary(self, n):
        if n != 'libsodium.so.23':
            raise pyerr(OSError('cannot open shared object file'))
        r = S().run_state
        if 'sodium' not in r:
            r['sodium'] = crypt.Sodium()
        return r['sodium']


def cdll(n=None, *a, **k):
    return DLL().LoadLibrary(n)


ASSUMED = {
    'ctypes': 'ctypes: field access, slicing, from_buffer_copy, memmove, addressof as documented; layout taken from the real ctypes; memory safety of memmove is an obligation',
    'struct': 'struct: pack/unpack of fixed-size integers as documented',
    'asyncio': 'asyncio: StreamReader.readexactly, StreamWriter.write/drain, event loops as documented; coroutines are interleaved at suspension points only',
    're': 're: patterns of character classes, alternatives, groups and repetitions (no back references or lookaround), on at most 64 bytes, as documented',
    'multiprocessing': 'multiprocessing.Pipe (tunnels): delivers whole messages of any size, in order (replaced by two queues in the contracts)',
    'logging': 'logging: no effect on the behaviour observed',
    'nacl.bindings': 'PyNaCl: passes its arguments to libsodium after checking their sizes, raises nacl.exceptions.* where libsodium refuses',
    'tweetnacl.raw': 'tweetnacl: as nacl.bindings (the package is not installed; the concrete runs use a shim over libsodium)',
}


def hexlify(x, *a):
    # the digits of a symbolic byte string are not modelled, only their number
    if isinstance(x, (ropes.SBytes, ropes.SByteArray)) and not a:
        st = S()
        st.inexact = st.inexact or 'hexadecimal digits'
        return ropes.sym_bytes('hex', norm(2 * zt(total(pieces_of(x)))))
    return _binascii.hexlify(x, *a)


def compare_digest(a, b):
    if not all(isinstance(x, (bytes, bytearray, ropes.SBytes, ropes.SByteArray)) for x in (a, b)):
        raise Unsupported('compare_digest of something else than bytes')
    return a == b


def codecs_encode(x, *a, **k):
    if isinstance(x, (ropes.SBytes, ropes.SByteArray)) and not k and len(a) == 1 and a[0] in ('hex', 'hex_codec'):
        return hexlify(x)
    return _codecs.encode(x, *a, **k)


def build_model(name):
    if name == 'ctypes':
        m = partial('ctypes', **cmodel.names())
        m.cdll = DLL()
        m.CDLL = cdll
        mods()[name] = m
        m.util = import_module('ctypes.util')
        return m
    if name == 'ctypes.util':
        return module(name, find_library=find_library)
    if name == 'struct':
        return module(name, pack=struct_pack, unpack=struct_unpack, unpack_from=struct_unpack_from, calcsize=struct_size, Struct=StructObj, error=_struct.error)
    if name == 're':
        d = {k: getattr(_re, k) for k in ('ASCII', 'A', 'IGNORECASE', 'I', 'DOTALL', 'S', 'MULTILINE', 'M', 'VERBOSE', 'X', 'escape', 'error')}
        return module(name, compile=Pattern, fullmatch=lambda p, s, f=0: Pattern(p, f).fullmatch(s), match=lambda p, s, f=0: Pattern(p, f).match(s), search=lambda p, s, f=0: Pattern(p, f).search(s), **d)
    if name == 'os':
        return partial(name, urandom=Fn(urandom), environ={}, sep='/')
    if name == 'time':
        t = lambda: SFloat()
        return partial(name, perf_counter=Fn(t), time=Fn(t), monotonic=Fn(t))
    if name in ('codecs', 'binascii'):
        return partial(name, **({'encode': Fn(codecs_encode)} if name == 'codecs' else {'hexlify': Fn(hexlify), 'b2a_hex': Fn(hexlify)}))
    if name in ('hmac', 'secrets'):
        m = StubModule(name)
        m.compare_digest = Fn(compare_digest)
        if name == 'secrets':
            m.token_bytes = Fn(urandom)
        return m
    if name == 'logging':
        return partial_noop(name)
    if name == 'collections':
        d = {k: getattr(_collections, k) for k in ('namedtuple', 'OrderedDict', 'defaultdict', 'Counter', 'abc')}
        return module(name, deque=lists.SDeque, **d)
    if name == 'asyncio':
        m = partial(name, **aio_names())
        mods()[name] = m
        m.streams = import_module('asyncio.streams')
        m.events = import_module('asyncio.events')
        m.coroutines = import_module('asyncio.coroutines')
        return m
    if name == 'asyncio.streams':
        return partial(name, _DEFAULT_LIMIT=65536, **{k: v for k, v in aio_names().items() if k.startswith('Stream') or k == 'IncompleteReadError'})
    if name == 'asyncio.events':
        return partial(name, get_event_loop=get_event_loop, new_event_loop=new_event_loop, set_event_loop=set_event_loop)
    if name == 'asyncio.coroutines':
        return partial(name, iscoroutine=_asyncio.iscoroutine, iscoroutinefunction=_asyncio.iscoroutinefunction)
    if name.startswith('nacl') or name.startswith('tweetnacl'):
        r = S().run_state
        if 'naclexc' not in r:
            r['naclexc'] = crypt.NaclExc().d
        E = r['naclexc']
        if name == 'nacl.exceptions':
            return module(name, **E)
        if name == 'nacl.bindings':
            return module(name, **crypt.nacl_bindings(E))
        if name == 'nacl._sodium':
            return module(name, ffi=crypt.Ffi(), lib=crypt.NaclLib())
        if name == 'nacl':
            return module(name, __path__=[])
        if name == 'tweetnacl':
            return module(name, __path__=[])
        if name == 'tweetnacl.raw':
            return module(name, **crypt.nacl_bindings(E, 'tweetnacl'))
    return None


def partial_noop(name):
    class M(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return Noop()
    m = M(name)
    for k, v in dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50).items():
        setattr(m, k, v)
    return m


# ---- import ------------------------------------------------------------------------------------------------------
def mods():
    return S().run_state.setdefault('mods', {})


def source_path(name):
    if name == 'saltchannel' or name.startswith('saltchannel.'):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False
    if name == 'builtin_defs':
        return os.path.join(os.path.dirname(os.path.abspath(__file__)), name + '.py'), False
    if '.' not in name and os.path.isfile(os.path.join(CONTRACTS_DIR, name + '.py')):
        return os.path.join(CONTRACTS_DIR, name + '.py'), False
    return None, False


def import_module(name):
    M = mods()
    if name in M:
        return M[name]
    parent = None
    if '.' in name:
        parent = import_module(name.rsplit('.', 1)[0])
    if name in M:
        return M[name]
    path, pkg = source_path(name)
    if path is not None:
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = builtins()
        m.__dict__['_pv_rt'] = rt
        M[name] = m
        if parent is not None:
            parent.__dict__[name.rsplit('.', 1)[1]] = m
        if os.path.exists(path):
            code = xform.compile_file(path, name, name.startswith('saltchannel'))
            try:
                exec(code, m.__dict__)
            except BaseException:
                M.pop(name, None)
                raise
        return m
    if name == 'pv':
        m = M[name] = module('pv', __path__=[])
        return m
    if name == 'pv.spec':
        reg = S().run_state.setdefault('contracts', [])

        def contract(prop, covers=(), on=(), samples=1.0, bound=None):
            def deco(fn):
                reg.append((prop, fn))
                return fn
            return deco
        m = M[name] = module(name, contract=contract)
        return m
    m = build_model(name)
    if m is not None and name in ASSUMED:
        S().trusted.add(ASSUMED[name])
    if m is None and name in NATIVE:
        m = importlib.import_module(name)
    if m is None and name in STUBS:
        if name in ASSUMED:
            S().trusted.add(ASSUMED[name])
        m = StubModule(name)
        m.__path__ = []
    if m is None:
        if name.split('.')[0] in ('saltchannel',):
            raise pyerr(ModuleNotFoundError('No module named %r' % name))
        try:
            ok = importlib.util.find_spec(name.split('.')[0]) is not None
        except Exception:
            ok = True
        if ok:
            raise Unsupported('import of ' + name)
        raise pyerr(ModuleNotFoundError('No module named %r' % name))
    M[name] = m
    if parent is not None and not hasattr(parent, name.rsplit('.', 1)[1]):
        parent.__dict__[name.rsplit('.', 1)[1]] = m
    elif parent is not None and isinstance(parent, StubModule):
        parent.__dict__[name.rsplit('.', 1)[1]] = m
    return m


def import_(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals.get('__package__') or ''
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        full = pkg + ('.' + name if name else '')
    else:
        full = name
    m = import_module(full)
    if fromlist:
        for n in fromlist:
            if n != '*' and not hasattr(m, n) and hasattr(m, '__path__') and source_path(full + '.' + n)[0]:
                import_module(full + '.' + n)
            elif n != '*' and hasattr(m, '__path__') and (full + '.' + n).startswith(('nacl.', 'tweetnacl.')) and not hasattr(m, n):
                import_module(full + '.' + n)
        return m
    if level:
        return m
    return mods()[name.split('.')[0]]


_B = None


def builtins():
    global _B
    if _B is None:
        _B = rt.make_builtins(import_)
    return _B

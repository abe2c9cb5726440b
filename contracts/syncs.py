"""C17: synchronous twins."""
import inspect
from pv.spec import contract
from common import *

CS = 'saltchannel.v2.salt_client_session'
SS = 'saltchannel.v2.salt_server_session'
AC = 'saltchannel.v2.app_channel_v2'
CH = 'saltchannel.channel'
CSA = 'saltchannel.dev.client_server_a'
A1S = 'saltchannel.a1a2.a1_client_session'

PUBLIC = [(CS, 'SaltClientSession', ['handshake', 'do_m1', 'do_m2', 'do_m3', 'do_m4']),
          (SS, 'SaltServerSession', ['handshake', 'do_m1', 'do_m2', 'do_m3', 'do_m4', 'do_a2']),
          (AC, 'AppChannelV2', ['read', 'write']),
          (CH, 'AsyncioChannel', ['read', 'write'])]


@contract('C17', on=['Syncizer.__new__', 'Syncizer.sync_maker'])
def c17_twins_exist(env):
    mod, cls, names = env.choice('class', PUBLIC)
    c = getattr(env.mod(mod), cls)
    for n in names[:1] if cls.startswith('Salt') else names:
        env.check('twin of ' + n, callable(getattr(c, n + '_sync', None)))
    for n in sorted(vars(c)):
        if not n.startswith('_') and inspect.iscoroutinefunction(vars(c)[n]):
            env.check('every public coroutine has a twin', callable(getattr(c, n + '_sync', None)))


class OwnError(Exception):
    """An exception the application defines."""


FAILURES = [None, ValueError, TypeError, KeyError, OSError, ConnectionResetError, TimeoutError, EOFError, RuntimeError, AttributeError, AssertionError, OwnError]


@contract('C17', covers=['returned', 'raised'], on=['Syncizer.sync_maker'], samples=2)
def c17_generic(env):
    """For any coroutine method: same arguments in, same result or exception out."""
    U = env.mod('saltchannel.util')
    boom = env.choice('exception', FAILURES)
    fails = boom is not None
    if fails:
        boom = boom('boom')
    answer = env.bytes('answer')
    log = []

    class Thing(metaclass=U.Syncizer):
        def __init__(self):
            self.loop = U.force_event_loop()

        async def op(self, a, *args, flag=False, **kw):
            log.append((self, a, args, flag, kw))
            if fails:
                raise boom
            return answer

        async def other(self, a, *args, flag=False, **kw):
            return None
    t = Thing()
    a = env.bytes('a')
    more = env.bytes_list('more', 0, None)
    flag = env.bool('flag')
    kw = env.bytes('kw')
    out = env.call(t.op_sync, a, *more, flag=flag, extra=kw)
    env.check('called once', len(log) == 1)
    s, a1, args, f1, kw1 = log[0]
    env.check('same object', s is t)
    env.check('first argument', a1 == a)
    env.forall_pairs('further arguments', args, more, lambda j, x, y: x == y)
    env.check('keyword', f1 == flag)
    env.check('extra keyword', list(kw1.keys()) == ['extra'] and kw1['extra'] == kw)
    if fails:
        env.cover('raised')
        env.check('same exception', out.exc is boom)
    else:
        env.cover('returned')
        env.check('same result', out.ok and out.value == answer)


class App(StandIn):
    def __init__(self, env, boom=None):
        self.env, self.boom = env, boom
        self.last_flag = False
        self.replies = []
        self.writes = []

    async def read(self):
        if self.boom is not None:
            raise self.boom
        return self.replies.pop(0)

    async def write(self, msg, *args, is_last=False):
        self.writes.append(((msg,) + args, is_last))
        if self.boom is not None:
            raise self.boom


@contract('C17', on=['AppChannelV2.read_sync', 'AppChannelV2.write_sync'], samples=2)
def c17_app(env):
    A = env.mod(AC)
    T = env.mod('saltchannel.util.time')
    boom = family(env)('broken') if env.bool('fails') else None
    ua, ub = App(env, boom), App(env, boom)
    a = A.AppChannelV2(ua, T.NullTimeKeeper(), T.NullTimeChecker())
    b = A.AppChannelV2(ub, T.NullTimeKeeper(), T.NullTimeChecker())
    if env.bool('write'):
        m, more, last = env.bytes('m'), env.bytes_list('more', 0, None), env.bool('last')
        x = env.run(a.write(m, *more, is_last=last))
        y = env.call(b.write_sync, m, *more, is_last=last)
        env.check('same calls below', len(ua.writes) == 1 and len(ub.writes) == 1)
        env.forall_pairs('same packets', ua.writes[0][0], ub.writes[0][0], lambda j, p, q: p == q)
        env.check('same marker', ua.writes[0][1] == ub.writes[0][1])
    else:
        p = env.bytes('packet', hint=lambda: wire_app(3, b'hello'))
        ua.replies, ub.replies = [p], [p]
        x = env.run(a.read())
        y = env.call(b.read_sync)
    env.check('same kind of result', x.ok == y.ok)
    if x.ok:
        env.check('same value', x.value == y.value)
    else:
        env.check('same exception class', type(x.exc) is type(y.exc))


class Sock2(StandIn):
    kind = 'socket'

    def __init__(self, env, fail):
        self.env, self.fail = env, fail
        self.out = b''

    def sendall(self, data, flags=0):
        if self.fail:
            raise OSError('transport')
        self.out = self.out + bytes(data)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)


@contract('C17', on=['SocketChannel.write', 'SocketChannel.write_sync'], samples=2)
def c17_socket(env):
    C = env.mod(CH)
    fail = env.bool('fails')
    sa, sb = Sock2(env, fail), Sock2(env, fail)
    a, b = C.SocketChannel(sa), C.SocketChannel(sb)
    m, more, last = env.bytes('m'), env.bytes_list('more', 0, None), env.bool('last')
    x = env.run(a.write(m, *more, is_last=last))
    y = env.call(b.write_sync, m, *more, is_last=last)
    env.check('same bytes', sa.out == sb.out)
    env.check('same kind of result', x.ok == y.ok)
    if x.ok:
        env.check('same value', x.value == y.value)
    else:
        env.check('same exception class', type(x.exc) is type(y.exc))


@contract('C17', covers=['whole', 'broken'], on=['SocketChannel.read', 'SocketChannel.read_sync'], samples=2)
def c17_socket_read(env):
    """The coroutine and the blocking read both return the message of the stream, or both raise the same exception."""
    import channels
    C = env.mod(CH)
    stream = env.bytes('stream', hint=lambda: channels.frame(env.rng.randbytes(env.rng.choice([0, 1, 5, 300]))))
    sock = channels.Sock(env, stream)
    ch = C.SocketChannel(sock)
    out = env.run(ch.read()) if env.bool('coroutine') else env.call(ch.read_sync)
    n = u32(stream, 0) if len(stream) >= 4 else -1
    if 0 <= n < 2147483648 and 4 + n <= len(stream):
        env.cover('whole')
        env.check('the message of the stream', out.ok and out.value == stream[4:4 + n])
        env.check('that much of the stream', sock.pos == 4 + n)
    else:
        env.cover('broken')
        env.check('exactly the communication exception', not out.ok and type(out.exc) is family(env))


class Both(Transport):
    def read_sync(self):
        o = self.env.run(self.read())
        if not o.ok:
            raise o.exc
        return o.value

    def write_sync(self, msg, *args, is_last=False):
        o = self.env.run(self.write(msg, *args, is_last=is_last))
        if not o.ok:
            raise o.exc


@contract('C17', on=['A1ClientSession.do_a1a2', 'A1ClientSession.do_a1a2_sync'])
def c17_a1(env):
    S = env.mod(A1S)
    n = env.choice('entries', [0, 1])
    src = env.bytes('answer', 3 + 20 * n, hint=lambda: b'\x09\x80' + bytes([n]) + b'SCv2------ECHO------' * n)
    ta, tb = Both(env, [src]), Both(env, [src])
    a, b = S.A1ClientSession(ta), S.A1ClientSession(tb)
    fail = env.bool('fails')
    ta.fail_write = tb.fail_write = fail
    x = env.run(a.do_a1a2())
    y = env.call(b.do_a1a2_sync)
    env.check('same bytes sent', len(ta.writes) == 1 and len(tb.writes) == 1 and ta.writes[0][0][0] == tb.writes[0][0][0])
    env.check('same kind of result', x.ok == y.ok)
    if x.ok:
        env.check('same answer', bytes(a.a2) == bytes(b.a2))
    else:
        env.check('same exception class', type(x.exc) is type(y.exc))


@contract('C17', on=['SaltClientSession.handshake_sync', 'SaltServerSession.handshake_sync'], samples=2)
def c17_sessions(env):
    """Handshakes against the same peer messages end in the same way."""
    enc, sig = enc_pair(env, 'enc'), sig_pair(env, 'sig')
    first = env.bytes('first', hint=lambda: env.rng.choice([b'\x02\x00' + bytes(4) + env.crypto.enc_pub(bytes(range(32))), b'\x02\x81' + bytes(36), b'\x08\x00\x00\x00\x00', wire_m1(0, env.crypto.enc_pub(bytes(range(32))))]))
    ta, tb = Transport(env, [first]), Transport(env, [first])
    if env.bool('client'):
        K = env.mod(CS).SaltClientSession
    else:
        K = env.mod(SS).SaltServerSession
    a, b = K(sig, ta), K(sig, tb)
    if env.bool('keys_set'):
        a.enc_keypair = b.enc_keypair = enc
    x = env.run(a.handshake())
    y = env.call(b.handshake_sync)
    env.check('same number of writes', len(ta.writes) == len(tb.writes))
    for i in range(len(ta.writes)):
        env.check('same messages', len(ta.writes[i][0]) == len(tb.writes[i][0]) and ta.writes[i][0][0] == tb.writes[i][0][0] and ta.writes[i][1] == tb.writes[i][1])
    env.check('same kind of result', x.ok == y.ok)
    if not x.ok:
        env.check('same exception class', type(x.exc) is type(y.exc))
    else:
        env.check('same value', x.value is None and y.value is None)


@contract('C17', on=['AsyncioChannel.read_sync', 'AsyncioChannel.write_sync'])
def c17_asyncio(env):
    C = env.mod(CH)
    D = env.mod(CSA)
    import channels
    if env.bool('write'):
        where = env.choice('where', ['none', 'write', 'drain'])
        error = channels.lost(env) if where != 'none' else None
        ta = channels.Wire(env, where == 'write', where == 'drain', error=error)
        tb = channels.Wire(env, where == 'write', where == 'drain', error=error)
        a = C.AsyncioChannel(None, env.stream_writer(D.SaltChannelStreamWriter, ta))
        b = C.AsyncioChannel(None, env.stream_writer(D.SaltChannelStreamWriter, tb))
        m, more, last = env.bytes('m'), env.bytes_list('more', 0, None), env.bool('last')
        x = env.run(a.write(m, *more, is_last=last))
        y = env.call(b.write_sync, m, *more, is_last=last)
        env.check('same bytes', ta.out == tb.out)
    else:
        stream = env.bytes('stream', hint=lambda: b'\x05\x00\x00\x00hello')
        a = C.AsyncioChannel(env.stream_reader(D.SaltChannelStreamReader, stream, 'eof'), None)
        b = C.AsyncioChannel(env.stream_reader(D.SaltChannelStreamReader, stream, 'eof'), None)
        x = env.run(a.read())
        y = env.call(b.read_sync)
    env.check('same kind of result', x.ok == y.ok)
    if x.ok:
        env.check('same value', x.value == y.value)
    else:
        env.check('same exception class', type(x.exc) is type(y.exc))


@contract('C17', on=['Syncizer.__new__', 'Syncizer.sync_maker'], samples=2)
def c17_overridden(env):
    """The twin runs the operation the object itself has, also when a plain base class (a mix-in) overrides it."""
    U = env.mod('saltchannel.util')
    answer, other = env.bytes('answer'), env.bytes('other')

    class Thing(metaclass=U.Syncizer):
        def __init__(self):
            self.loop = U.force_event_loop()

        async def op(self, a):
            return answer

    class Mixin:
        async def op(self, a):
            r = await super().op(a)
            return r + a + other

    class Mixed(Mixin, Thing):
        pass

    class Sub(Thing):
        async def op(self, a):
            return other
    a = env.bytes('a')
    for t, want in [(Mixed(), answer + a + other), (Sub(), other), (Thing(), answer)]:
        out = env.call(t.op_sync, a)
        env.check('same operation', out.ok and out.value == want)


class Loop(StandIn):
    """An event loop the application gives."""
    kind = 'event loop'

    def __init__(self, env):
        self.env = env
        self.ran = 0

    def is_running(self):
        return False

    def is_closed(self):
        return False

    def run_until_complete(self, coro):
        self.ran = self.ran + 1
        o = self.env.run(coro)
        if not o.ok:
            raise o.exc
        return o.value


@contract('C17', on=['ByteChannel.__init__', 'SaltClientSession.__init__', 'SaltServerSession.__init__', 'force_event_loop', 'Syncizer.sync_maker'], samples=2)
def c17_loop(env):
    """The event loop given to a channel or session is the one its synchronous calls run in."""
    import channels
    loop = Loop(env)
    what = env.choice('what', ['asyncio', 'app', 'client', 'server'])
    if what == 'asyncio':
        tr = channels.Wire(env)
        x = env.mod(CH).AsyncioChannel(None, env.stream_writer(env.mod(CSA).SaltChannelStreamWriter, tr), loop=loop)
        m = env.bytes('m', hi=2147483647)
        out = env.call(x.write_sync, m)
        env.check('written', out.ok and tr.out == channels.frame(m))
    elif what == 'app':
        T = env.mod('saltchannel.util.time')
        u = App(env)
        x = env.mod(AC).AppChannelV2(u, T.NullTimeKeeper(), T.NullTimeChecker(), loop=loop)
        m = env.bytes('m')
        out = env.call(x.write_sync, m)
        env.check('written', out.ok and len(u.writes) == 1)
    else:
        K = env.mod(CS).SaltClientSession if what == 'client' else env.mod(SS).SaltServerSession
        x = K(sig_pair(env, 'sig'), Transport(env, []), loop=loop)
        x.enc_keypair = enc_pair(env, 'enc')
        out = env.call(x.handshake_sync)
        env.check('no peer: the communication exception', out.raised(family(env)))
    env.check('ran in the loop given', loop.ran == 1)

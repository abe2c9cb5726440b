"""C05, C06, C17, C20: transports, synchronous twins, the logging channel."""
from pv.spec import contract
from common import *

CH = 'saltchannel.channel'
CSA = 'saltchannel.dev.client_server_a'
MITM = 'saltchannel.dev.mitm_channel'


def frame(m):
    return le(len(m), 4) + m


def lost(env):
    """A failure of the transport: any of the exceptions sockets and asyncio transports raise."""
    return env.choice('lost', [OSError, ConnectionResetError, ConnectionAbortedError, BrokenPipeError, TimeoutError, EOFError, RuntimeError, ValueError])('transport')


class Sock(StandIn):
    """A stream socket: recv returns 1..n of the remaining bytes, chosen by the network, b'' at the end."""
    kind = 'socket'

    def __init__(self, env, stream=b'', at=0, fail_recv=False, fail_send=False):
        self.env, self.stream, self.pos = env, stream, at
        self.fail_recv, self.fail_send = fail_recv, fail_send
        self.out = b''
        self.no_more_in = self.no_more_out = self.gone = False

    def close(self):
        self.gone = True

    def shutdown(self, how):
        if self.gone:
            raise OSError(9, 'Bad file descriptor')
        if how in (0, 2):
            self.no_more_in = True
        if how in (1, 2):
            self.no_more_out = True

    def usable(self, out):
        if self.gone:
            raise OSError(9, 'Bad file descriptor')
        if out and self.no_more_out:
            raise BrokenPipeError('Broken pipe')

    def recv(self, n, flags=0):
        self.usable(False)
        if self.fail_recv:
            if self.env.bool('recv_fails'):
                raise lost(self.env)
        if n < 0:
            raise ValueError('negative buffersize in recv')
        left = len(self.stream) - self.pos
        if n == 0 or left == 0 or self.no_more_in:
            return b''
        k = self.env.int('recv', 1, min(n, left))
        out = self.stream[self.pos:self.pos + k]
        self.pos = self.pos + k
        return out

    def recv_into(self, buffer, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buffer))
        buffer[:len(data)] = data
        return len(data)

    def sendall(self, data, flags=0):
        self.usable(True)
        if self.fail_send:
            raise lost(self.env)
        self.out = self.out + bytes(data)

    def send(self, data, flags=0):
        self.usable(True)
        if self.fail_send:
            raise lost(self.env)
        data = bytes(data)
        k = self.env.int('send', min(1, len(data)), len(data))
        self.out = self.out + data[:k]
        return k


@contract('C05', on=['SocketChannel.write_sync', 'SocketChannel.write'])
def c05_socket_write(env):
    C = env.mod(CH)
    sock = Sock(env)
    ch = C.SocketChannel(sock)
    m = env.bytes('msg', hi=2147483647)
    rest = env.bytes_list('more', 0, None, 2147483647)
    last = env.bool('last')
    if env.bool('coroutine'):
        out = env.run(ch.write(m, *rest, is_last=last))
    else:
        out = env.call(ch.write_sync, m, *rest, is_last=last)
    env.check('write succeeds', out.ok)
    env.check('exactly the frames, in order', sock.out == frame(m) + env.concat_map(rest, frame))
    m2 = env.bytes('msg2', hi=2147483647)
    env.check('next write succeeds', env.call(ch.write_sync, m2).ok)
    env.check('next write appends its frame', sock.out == frame(m) + env.concat_map(rest, frame) + frame(m2))


@contract('C05', on=['SocketChannel.read_sync', 'SocketChannel.read', 'SocketChannel.recvall'], samples=2)
def c05_socket_read(env):
    C = env.mod(CH)
    start = [0]

    def two_frames():
        size = [0, 1, 2, 5, 255, 256, 1023, 1024, 1025, 4096, 5000, 16384, 65535, 65536, 70000]
        start[0] = env.rng.choice([0, 0, 3])
        return bytes(start[0]) + b''.join(frame(env.rng.randbytes(env.rng.choice(size))) for _ in range(2)) + env.rng.choice([b'', b'more'])
    stream = env.bytes('stream', hint=two_frames)
    at = env.int('at', 0, 2 ** 61, hint=lambda: start[0])
    env.assume(at + 4 <= len(stream))
    n = int.from_bytes(stream[at:at + 4], 'little')
    env.assume(n <= 2147483647)
    env.assume(at + 8 + n <= len(stream))
    n2 = int.from_bytes(stream[at + 4 + n:at + 8 + n], 'little')
    env.assume(n2 <= 2147483647)
    env.assume(at + 8 + n + n2 <= len(stream))
    m = stream[at + 4:at + 4 + n]
    m2 = stream[at + 8 + n:at + 8 + n + n2]
    sock = Sock(env, stream, at=at)
    ch = C.SocketChannel(sock)
    co = env.bool('coroutine')
    if env.bool('after_writing_last'):
        env.check('written', env.call(ch.write_sync, b'request', is_last=True).ok)
    out = env.run(ch.read()) if co else env.call(ch.read_sync)
    env.check('read succeeds', out.ok)
    env.check('the message', out.value == m)
    env.check('nothing more consumed', sock.pos == at + 4 + n)
    out = env.run(ch.read()) if co else env.call(ch.read_sync)
    env.check('second read succeeds', out.ok)
    env.check('the second message', out.value == m2)
    env.check('nothing more consumed after two', sock.pos == at + 8 + n + n2)


class Wire(StandIn):
    """The transport under an asyncio stream writer."""
    kind = 'transport'

    def __init__(self, env, fail_write=False, fail_drain=False, pausing=False, error=None):
        self.env = env
        self.out = b''
        self.closed = False
        self.error = error
        self.fail_write = fail_write
        self.pausing = pausing
        self.drain_error = (error or lost(env)) if fail_drain else None

    def write(self, data):
        if self.fail_write:
            raise self.error or lost(self.env)
        if not self.closed:
            self.out = self.out + data

    def writelines(self, data):
        self.write(b''.join(data))

    def is_closing(self):
        return self.closed

    def close(self):
        self.closed = True


@contract('C05', on=['AsyncioChannel.write', 'SaltChannelStreamWriter.write_msg'])
def c05_asyncio_write(env):
    C = env.mod(CH)
    D = env.mod(CSA)
    tr = Wire(env)
    ch = C.AsyncioChannel(None, env.stream_writer(D.SaltChannelStreamWriter, tr))
    m = env.bytes('msg', hi=2147483647)
    rest = env.bytes_list('more', 0, None, 2147483647)
    out = env.run(ch.write(m, *rest, is_last=env.bool('last')))
    env.check('write succeeds', out.ok)
    env.check('exactly the frames, in order', tr.out == frame(m) + env.concat_map(rest, frame))
    m2 = env.bytes('msg2', hi=2147483647)
    env.check('next write succeeds', env.run(ch.write(m2)).ok)
    env.check('next write appends its frame', tr.out == frame(m) + env.concat_map(rest, frame) + frame(m2))


@contract('C05', on=['AsyncioChannel.write', 'SaltChannelStreamWriter.write_msg'], samples=3)
def c05_asyncio_concurrent(env):
    """Writes of several tasks, each waiting for the transport to drain: every frame stays whole."""
    C = env.mod(CH)
    D = env.mod(CSA)
    tr = Wire(env, pausing=True)
    ch = C.AsyncioChannel(None, env.stream_writer(D.SaltChannelStreamWriter, tr))

    def some():
        return env.rng.randbytes(env.rng.choice([0, 1, 9, 255, 5000, 16383, 16384, 16385, 65535, 65536, 65537, 70000, 200000]))
    a = env.bytes('a', hi=2147483647, hint=some)
    b = env.bytes('b', hi=2147483647, hint=some)
    c = env.bytes('c', hi=2147483647, hint=some)
    outs = env.interleave([ch.write(a, b), ch.write(c)])
    env.check('writes succeed', outs[0].ok and outs[1].ok)
    fa, fb, fc = frame(a), frame(b), frame(c)
    env.check('whole frames', tr.out == fa + fb + fc or tr.out == fc + fa + fb or tr.out == fa + fc + fb)


@contract('C05', on=['AsyncioChannel.read', 'SaltChannelStreamReader.read_msg'], samples=2)
def c05_asyncio_read(env):
    C = env.mod(CH)
    D = env.mod(CSA)
    m = env.bytes('msg', hi=2147483647)
    m2 = env.bytes('msg2', hi=2147483647)
    post = env.bytes('after')
    rd = env.stream_reader(D.SaltChannelStreamReader, frame(m) + frame(m2) + post, 'open')
    ch = C.AsyncioChannel(rd, None)
    out = env.run(ch.read())
    env.check('read succeeds', out.ok)
    env.check('the message', out.value == m)
    out = env.run(ch.read())
    env.check('second read succeeds', out.ok)
    env.check('the second message', out.value == m2)
    env.check('nothing more consumed', env.stream_rest(rd) == post)


# ================================================================ C06
@contract('C06', covers=['cut', 'negative', 'failed'], on=['SocketChannel.read_sync', 'SocketChannel.recvall'], samples=3)
def c06_socket_read(env):
    """Any stream at all: a whole message or ComException."""
    C = env.mod(CH)
    stream = env.bytes('stream', hint=lambda: frame(env.rng.randbytes(env.rng.randrange(0, 40))))
    fails = env.bool('may_fail')
    sock = Sock(env, stream, fail_recv=fails)
    ch = C.SocketChannel(sock)
    out = env.run(ch.read()) if env.bool('coroutine') else env.call(ch.read_sync)
    com = family(env)
    if not out.ok:
        env.check('only ComException', out.raised(com))
        if fails:
            env.cover('failed')
    if len(stream) < 4:
        env.cover('cut')
        env.check('no length: ComException', out.raised(com))
    else:
        n = u32(stream, 0)
        if n >= 2147483648:
            env.cover('negative')
            env.check('negative length: ComException', out.raised(com))
        elif n > len(stream) - 4:
            env.cover('cut')
            env.check('cut message: ComException', out.raised(com))
        elif out.ok:
            env.check('whole message', out.value == stream[4:4 + n])
        else:
            env.check('raises only because the transport failed', fails)


@contract('C06', on=['SocketChannel.write_sync'])
def c06_socket_write(env):
    C = env.mod(CH)
    ch = C.SocketChannel(Sock(env, fail_send=True))
    m = env.bytes('msg')
    rest = env.bytes_list('more', 0, None)
    last = env.bool('last')
    out = env.run(ch.write(m, *rest, is_last=last)) if env.bool('coroutine') else env.call(ch.write_sync, m, *rest, is_last=last)
    env.check('failing transport: ComException', out.raised(family(env)))


class Huge(bytes):
    """A message that claims a length too long for the length field."""

    def __len__(self):
        return 2147483648


@contract('C06', on=['SocketChannel.write_sync', 'AsyncioChannel.write'])
def c06_too_long(env):
    C = env.mod(CH)
    D = env.mod(CSA)
    if env.symbolic:
        m = env.bytes('msg', lo=2147483648)
    else:
        m = Huge(b'x')
    if env.bool('socket'):
        sock = Sock(env)
        out = env.call(C.SocketChannel(sock).write_sync, m)
    else:
        tr = Wire(env)
        out = env.run(C.AsyncioChannel(None, env.stream_writer(D.SaltChannelStreamWriter, tr)).write(m))
    env.check('too long: ComException', out.raised(family(env)))


@contract('C06', covers=['cut', 'negative', 'failed'], on=['AsyncioChannel.read', 'SaltChannelStreamReader.read_msg'], samples=3)
def c06_asyncio_read(env):
    C = env.mod(CH)
    D = env.mod(CSA)
    stream = env.bytes('stream', hint=lambda: frame(env.rng.randbytes(env.rng.randrange(0, 40))))
    end = env.choice('end', ['eof', 'error'])
    rd = env.stream_reader(D.SaltChannelStreamReader, stream, end, exc=lost(env) if end == 'error' else None)
    ch = C.AsyncioChannel(rd, None)
    out = env.run(ch.read())
    com = family(env)
    if not out.ok:
        env.check('only ComException', out.raised(com))
    if end == 'error':
        env.cover('failed')
    if len(stream) < 4:
        env.cover('cut')
        env.check('no length: ComException', out.raised(com))
    else:
        n = u32(stream, 0)
        if n >= 2147483648:
            env.cover('negative')
            env.check('negative length: ComException', out.raised(com))
        elif n > len(stream) - 4:
            env.cover('cut')
            env.check('cut message: ComException', out.raised(com))
        elif out.ok:
            env.check('whole message', out.value == stream[4:4 + n])
        else:
            env.check('raises only because the transport failed', end == 'error')


@contract('C06', on=['AsyncioChannel.write'])
def c06_asyncio_write(env):
    C = env.mod(CH)
    D = env.mod(CSA)
    where = env.choice('where', ['write', 'drain'])
    tr = Wire(env, fail_write=where == 'write', fail_drain=where == 'drain')
    ch = C.AsyncioChannel(None, env.stream_writer(D.SaltChannelStreamWriter, tr))
    m = env.bytes('msg')
    rest = env.bytes_list('more', 0, None)
    out = env.run(ch.write(m, *rest, is_last=env.bool('last')))
    env.check('failing transport: ComException', out.raised(family(env)))


# ================================================================ C20
class Log(StandIn):
    kind = 'logger'

    def __init__(self, env):
        self.env = env
        self.lines = 0

    def info(self, *a):
        self.lines += 1


class Inner(StandIn):
    """The wrapped channel: records calls, answers with arbitrary messages."""

    def __init__(self, env):
        self.env = env
        self.calls = []
        self.recording = True
        self.seen = None
        self.fail = None

    def _note(self, *call):
        self.seen = call
        if self.recording:
            self.calls.append(call)

    def _write(self, kind, msg, args, last):
        self._note(kind, msg, args, last)
        if self.fail is not None:
            raise self.fail

    def _read(self, kind):
        self._note(kind, None, None, None)
        if self.fail is not None:
            raise self.fail
        return self.env.bytes('inner.read')

    async def read(self):
        return self._read('read')

    def read_sync(self):
        return self._read('read_sync')

    async def write(self, msg, *args, is_last=False):
        self._write('write', msg, args, is_last)

    def write_sync(self, msg, *args, is_last=False):
        self._write('write_sync', msg, args, is_last)

    def close(self):
        self._note('close', None, None, None)


def mitm_history(env, ch, inner):
    """An arbitrary history of reads and writes; every call is checked.  -> bytes read, bytes written"""
    r = w = 0
    inner.recording = False
    for _ in env.times('before'):
        op = env.choice('earlier', ['read', 'read_sync', 'write', 'write_sync'])
        if op == 'read' or op == 'read_sync':
            o = env.run(ch.read()) if op == 'read' else env.call(ch.read_sync)
            env.check('earlier read succeeds', o.ok)
            env.check('earlier call', inner.seen[0] == op)
            r = r + len(o.value)
        else:
            m0 = env.bytes('earlier.msg')
            last0 = env.bool('earlier.last')
            o = env.run(ch.write(m0, is_last=last0)) if op == 'write' else env.call(ch.write_sync, m0, is_last=last0)
            env.check('earlier write succeeds', o.ok)
            env.check('earlier call', inner.seen[0] == op and inner.seen[1] == m0 and len(inner.seen[2]) == 0 and inner.seen[3] == last0)
            w = w + len(m0)
    inner.recording = True
    return r, w


@contract('C20', on=['MitmChannel.write', 'MitmChannel.write_sync'], samples=2)
def c20_write(env):
    M = env.mod(MITM)
    inner = Inner(env)
    ch = M.MitmChannel(inner)
    r, w = mitm_history(env, ch, inner)
    m = env.bytes('msg')
    rest = env.bytes_list('more', 0, None)
    last = env.bool('last')
    sync = env.bool('sync')
    out = env.call(ch.write_sync, m, *rest, is_last=last) if sync else env.run(ch.write(m, *rest, is_last=last))
    env.check('write succeeds', out.ok)
    env.check('one call', len(inner.calls) == 1)
    kind, m1, args, last1 = inner.calls[0]
    env.check('same kind of call', kind == ('write_sync' if sync else 'write'))
    env.check('first message', m1 == m)
    env.forall_pairs('further messages', args, rest, lambda j, a, b: a == b)
    env.check('last marker', last1 == last)
    env.check('write counter', ch.counter_write == w + len(m) + env.sum_map(rest, len))
    env.check('read counter untouched', ch.counter_read == r)


@contract('C20', on=['MitmChannel.read', 'MitmChannel.read_sync'])
def c20_read(env):
    M = env.mod(MITM)
    inner = Inner(env)
    ch = M.MitmChannel(inner)
    r, w = mitm_history(env, ch, inner)
    sync = env.bool('sync')
    answer = env.bytes('answer')
    inner._read = lambda kind: (inner._note(kind, None, None, None), answer)[1]
    out = env.call(ch.read_sync) if sync else env.run(ch.read())
    env.check('read succeeds', out.ok)
    env.check('the message', out.value == answer)
    env.check('one call', len(inner.calls) == 1 and inner.calls[0][0] == ('read_sync' if sync else 'read'))
    env.check('read counter', ch.counter_read == r + len(answer))
    env.check('write counter untouched', ch.counter_write == w)


@contract('C20', on=['MitmChannel.read', 'MitmChannel.write'])
def c20_errors(env):
    """A failure of the wrapped channel passes through; nothing is counted."""
    M = env.mod(MITM)
    inner = Inner(env)
    inner.fail = family(env)('broken')
    ch = M.MitmChannel(inner)
    op = env.choice('op', ['read', 'read_sync', 'write', 'write_sync'])
    m = env.bytes('msg')
    if op == 'read':
        out = env.run(ch.read())
    elif op == 'read_sync':
        out = env.call(ch.read_sync)
    elif op == 'write':
        out = env.run(ch.write(m))
    else:
        out = env.call(ch.write_sync, m)
    env.check('same exception', out.exc is inner.fail)
    env.check('nothing counted', ch.counter_read == 0 and ch.counter_write == 0)


@contract('C20', on=['MitmChannel.__init__'])
def c20_two(env):
    """Two logging channels are independent."""
    M = env.mod(MITM)
    a, b = Inner(env), Inner(env)
    ca, cb = M.MitmChannel(a), M.MitmChannel(b)
    m = env.bytes('msg')
    env.run(ca.write(m))
    o = env.run(cb.read())
    env.check('counters a', ca.counter_write == len(m) and ca.counter_read == 0)
    env.check('counters b', cb.counter_write == 0 and cb.counter_read == len(o.value))
    env.check('calls', len(a.calls) == 1 and len(b.calls) == 1)


@contract('C20', on=['MitmChannel.write'])
def c20_logging(env):
    """Logging to a log object, immediately or held back, changes nothing else."""
    M = env.mod(MITM)
    inner = Inner(env)
    ch = M.MitmChannel(inner, log=Log(env))
    ch.log_buffering = env.bool('held_back')
    m = env.bytes('msg')
    n = env.bytes('msg2')
    out = env.run(ch.write(m, n, is_last=True))
    env.check('write succeeds', out.ok)
    kind, m1, args, last1 = inner.calls[0]
    env.check('passed through', m1 == m and len(args) == 1 and args[0] == n and last1 == True)
    env.check('counter', ch.counter_write == len(m) + len(n))
    o = env.run(ch.read())
    env.check('read counter', ch.counter_read == len(o.value))

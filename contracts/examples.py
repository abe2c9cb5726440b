"""C26: the example sessions."""
from pv.spec import contract
from common import *
from session import sig1, sig2, opened

EX = 'saltchannel.dev.example_session'


def streams(env, read, wrote):
    e = env

    class Reader(StandIn):
        env, kind = e, 'reader'

        async def read_msg(self):
            env.check('everything flushed before waiting', w.drained)
            return read()

    e = env

    class Writer(StandIn):
        env, kind = e, 'writer'
        drained = True
        closed = 0

        def get_extra_info(self, name, default=None):
            return ('127.0.0.1', 1)

        def write_msg(self, m):
            env.check('still open', self.closed == 0)
            self.drained = False
            wrote(m)

        async def drain(self):
            self.drained = True

        def close(self):
            self.closed = self.closed + 1
    w = Writer()
    return Reader(), w


class ExampleClient:
    """A client that follows the specification, against the example servers; any number of sessions one after the other."""

    def __init__(self, env, kind, keys, single):
        self.env, self.kind, self.single = env, kind, single
        self.enc, self.sig = keys
        self.stage = 'new'
        self.over = self.broken = False

    def start(self):
        env = self.env
        self.cenc, self.csig = enc_pair(env, 'client_enc'), sig_pair(env, 'client_sig')
        ok, self.k = env.crypto.shared(self.cenc.pub, self.enc.sec)
        env.assume(ok)
        self.m1 = wire_m1(0, self.cenc.pub, self.sig.pub if env.bool('asks_for_server') else None)
        self.sent = []
        self.r, self.w = 2, 1

    def frame(self, p, last=False):
        f = wire_enc(self.env.crypto.box(p, nonce(self.w), self.k), last)
        self.w = self.w + 2
        return f

    def next(self):
        """The next message of the client."""
        env = self.env
        env.check('reads only in a session not over', not self.over and not self.broken)
        if self.stage == 'new':
            if not env.bool('another'):
                raise env.mod('saltchannel.exceptions').ComException('closed')
            self.start()
            self.stage = 'm1'
            return self.m1
        if not self.single and env.bool('breaks_off'):
            self.broken = True
            raise env.mod('saltchannel.exceptions').ComException('broken')
        if self.stage == 'm3':
            self.stage = 'm4'
            return self.frame(wire_m4(0, self.csig.pub, sig2(env, self.m1, self.sent[0], self.csig.sec)))
        if self.stage == 'm4':
            self.msg = env.bytes('msg')
            self.last = env.bool('last')
            self.stage = 'one'
            return self.frame(wire_app(0, self.msg), self.last)
        if self.stage == 'one echoed':
            self.x, self.y = env.bytes('x', hi=65535), env.bytes('y', hi=65535)
            self.last = env.bool('last')
            self.stage = 'two'
            return self.frame(wire_multi(env, 0, [self.x, self.y]), self.last)
        env.check('no read while the client waits', False)

    def got(self, f, marked):
        env = self.env
        timed = self.kind == 3
        if self.stage == 'm1':
            self.sent.append(f)
            if len(self.sent) == 1:
                env.check('M2', f == wire_m2(1 if timed else 0, self.enc.pub))
            else:
                t = 2 if timed else 0
                env.check('M3', f == wire_enc(env.crypto.box(wire_m3(t, self.sig.pub, sig1(env, self.m1, self.sent[0], self.sig.sec)), nonce(2), self.k)))
                self.stage = 'm3'
            return
        if self.stage == 'one':
            env.check('the message, echoed once', f == wire_enc(env.crypto.box(wire_app(3 if timed else 0, self.msg), nonce(4), self.k)))
            self.stage = 'one echoed' if self.kind == 3 else 'done'
        elif self.stage == 'two':
            env.check('both messages, echoed in one packet marked last',
                      f == wire_enc(env.crypto.box(wire_multi(env, 4, [self.x, self.y]), nonce(6), self.k), True))
            self.stage = 'done'
        else:
            env.check('nothing else is sent', False)
        if self.stage == 'done':
            self.over = self.single or self.last
            self.stage = 'new'


def keys(env, s):
    s.server_enc_keypair, s.server_sig_keypair = enc_pair(env, 'server_enc'), sig_pair(env, 'server_sig')
    return s.server_enc_keypair, s.server_sig_keypair


@contract('C26', covers=['last', 'closed', 'broken'], on=['example_session1.ExampleSession.server_session', 'example_session3.ExampleSession.server_session'], samples=2)
def c26_blocking_server(env):
    kind = env.choice('kind', [1, 3])
    s = env.mod(EX + str(kind)).ExampleSession()
    p = ExampleClient(env, kind, keys(env, s), False)
    env.mod('saltchannel.v2.salt_server_session').SaltServerSession(s.server_sig_keypair, None)

    e = env

    class Chan(StandIn):
        env, kind = e, 'channel'
        loop = None

        async def read(self):
            return p.next()

        async def write(self, msg, *args, is_last=False):
            for m in (msg,) + args:
                p.got(m, is_last)
    out = env.call(s.server_session, Chan())
    env.check('ends normally', out.ok)
    env.check('only between two sessions, or when the client breaks off', p.stage == 'new' or p.broken)
    if p.over:
        env.cover('last')
    elif p.broken:
        env.cover('broken')
    else:
        env.cover('closed')


@contract('C26', on=['example_session1_a.ExampleSessionA.server_session', 'example_session3_a.ExampleSessionA.server_session'], samples=2)
def c26_asyncio_server(env):
    kind = env.choice('kind', [1, 3])
    s = env.mod(EX + str(kind) + '_a').ExampleSessionA()
    p = ExampleClient(env, kind, keys(env, s), True)

    r, w = streams(env, p.next, lambda m: p.got(m, None))
    out = env.run(s.server_session(r, w))
    if out.ok:
        env.check('one whole session, flushed and closed', p.over and w.drained and w.closed == 1)
    else:
        env.check('a client that does not come', p.stage == 'new' and not p.over and out.raised(family(env)))


class ExampleServer:
    """A server that follows the specification, against the example clients."""

    def __init__(self, env, kind, s):
        self.env, self.kind = env, kind
        self.enc, self.sig = enc_pair(env, 'server_enc'), sig_pair(env, 'server_sig')
        s.client_enc_keypair, s.client_sig_keypair = enc_pair(env, 'client_enc'), sig_pair(env, 'client_sig')
        self.cenc, self.csig = s.client_enc_keypair, s.client_sig_keypair
        ok, self.k = env.crypto.shared(self.enc.pub, self.cenc.sec)
        env.assume(ok)
        self.m2 = wire_m2(1 if kind == 3 else 0, self.enc.pub)
        self.sent = []
        self.reads = 0
        self.counter_read = self.counter_write = 0

    def next(self):
        env = self.env
        n = self.reads
        self.reads = n + 1
        timed = self.kind == 3
        sent = [1, 1, 3, 4, 4][n]
        env.check('reads after sending', len(self.sent) == sent)
        if n == 0:
            return self.m2
        if n == 1:
            return wire_enc(env.crypto.box(wire_m3(2 if timed else 0, self.sig.pub, sig1(env, self.sent[0], self.m2, self.sig.sec)), nonce(2), self.k))
        if n == 2:
            return wire_enc(env.crypto.box(wire_app(3 if timed else 0, b'\x01\x05\x05\x05\x05\x05'), nonce(4), self.k))
        return wire_enc(env.crypto.box(wire_multi(env, 4, [b'\x01\x04\x04\x04\x04', b'\x03\x03\x03\x03']), nonce(6), self.k), True)

    def got(self, f):
        env = self.env
        n = len(self.sent)
        timed = self.kind == 3
        self.sent.append(f)
        if n == 0:
            env.check('M1', f == wire_m1(1 if timed else 0, self.cenc.pub))
        elif n == 1:
            env.check('M4', f == wire_enc(env.crypto.box(wire_m4(2 if timed else 0, self.csig.pub, sig2(env, self.sent[0], self.m2, self.csig.sec)), nonce(1), self.k)))
        elif n == 2:
            env.check('first request', f == wire_enc(env.crypto.box(wire_app(3 if timed else 0, b'\x01\x05\x05\x05\x05\x05'), nonce(3), self.k), not timed))
        elif n == 3:
            env.check('second request', timed and f == wire_enc(env.crypto.box(wire_multi(env, 4, [b'\x01\x04\x04\x04\x04', b'\x03\x03\x03\x03']), nonce(5), self.k)))
        else:
            env.check('nothing else', False)


@contract('C26', on=['example_session1.ExampleSession.client_session', 'example_session3.ExampleSession.client_session'], samples=2)
def c26_blocking_client(env):
    kind = env.choice('kind', [1, 3])
    s = env.mod(EX + str(kind)).ExampleSession()
    p = ExampleServer(env, kind, s)

    e = env

    class Chan(StandIn):
        env, kind = e, 'channel'
        counter_read = 0
        counter_write = 0

        async def read(self):
            return p.next()

        async def write(self, msg, *args, is_last=False):
            for m in (msg,) + args:
                p.got(m)
    out = env.call(s.client_session, Chan())
    env.check('ends normally', out.ok)
    env.check('whole session', p.reads == (4 if kind == 3 else 3) and len(p.sent) == (4 if kind == 3 else 3))


@contract('C26', on=['example_session1_a.ExampleSessionA.client_session', 'example_session3_a.ExampleSessionA.client_session'], samples=2)
def c26_asyncio_client(env):
    kind = env.choice('kind', [1, 3])
    s = env.mod(EX + str(kind) + '_a').ExampleSessionA()
    p = ExampleServer(env, kind, s)
    r, w = streams(env, p.next, p.got)
    out = env.run(s.client_session(r, w))
    env.check('ends normally', out.ok)
    env.check('whole session', p.reads == (4 if kind == 3 else 3) and len(p.sent) == (4 if kind == 3 else 3))
    env.check('flushed and closed once', w.drained and w.closed == 1)


ECHO = b'\x09\x80\x01SCv2------ECHO------'


@contract('C26', on=['example_session2.ExampleSession.server_session', 'example_session2_a.ExampleSessionA.server_session'], samples=2)
def c26_inquiry_server(env):
    """The second example answers an inquiry for any server or for its own key with one entry."""
    a = env.bool('asyncio')
    s = env.mod(EX + '2_a').ExampleSessionA() if a else env.mod(EX + '2').ExampleSession()
    enc, sig = keys(env, s)
    adr = env.bytes('address', 32, hint=lambda: sig.pub)
    a1 = b'\x08\x00\x01\x20\x00' + adr if env.bool('pubkey') else b'\x08\x00\x00\x00\x00'
    mine = len(a1) == 5 or adr == sig.pub
    tr = Transport(env, [a1])
    if a:
        r, w = streams(env, lambda: tr.replies.pop(0), lambda m: tr.writes.append(((m,), None)))
        out = env.run(s.server_session(r, w))
        env.check('flushed and closed once', w.drained and w.closed == 1)
    else:
        out = env.call(s.server_session, tr)
    env.check('ends normally', out.ok)
    env.check('one answer', len(tr.writes) == 1 and len(tr.writes[0][0]) == 1)
    env.check('the entry of the example', tr.writes[0][0][0] == (ECHO if mine else b'\x09\x81\x00'))


@contract('C26', on=['example_session2.ExampleSession.client_session', 'example_session2_a.ExampleSessionA.client_session'], samples=2)
def c26_inquiry_client(env):
    a = env.bool('asyncio')
    s = env.mod(EX + '2_a').ExampleSessionA() if a else env.mod(EX + '2').ExampleSession()
    enc, sig = keys(env, s)
    sent = []
    if a:
        r, w = streams(env, lambda: ECHO, sent.append)
        out = env.run(s.client_session(r, w))
        env.check('flushed and closed once', w.drained and w.closed == 1)
    else:
        e = env

        class Chan(StandIn):
            env, kind = e, 'channel'
            counter_read = 0
            counter_write = 0

            def read_sync(self):
                env.check('reads after sending', len(sent) == 1)
                return ECHO

            def write_sync(self, msg, *args, is_last=False):
                env.check('one message', len(args) == 0)
                sent.append(msg)
        out = env.call(s.client_session, Chan())
    env.check('ends normally', out.ok)
    env.check('asks for the server by its key', len(sent) == 1 and sent[0] == b'\x08\x00\x01\x20\x00' + sig.pub)

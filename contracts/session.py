"""C11-C16, C21, C22 (and the session part of C07): handshakes."""
from pv.spec import contract
from common import *

CS = 'saltchannel.v2.salt_client_session'
SS = 'saltchannel.v2.salt_server_session'
A1S = 'saltchannel.a1a2.a1_client_session'
AP = 'saltchannel.a1a2.packets'


def sig1(env, m1, m2, sec):
    return env.crypto.signed(SIG1 + env.crypto.sha512(m1) + env.crypto.sha512(m2), sec)[:64]


def sig2(env, m1, m2, sec):
    return env.crypto.signed(SIG2 + env.crypto.sha512(m1) + env.crypto.sha512(m2), sec)[:64]


def opened(env, f, counter, key):
    """(authentic?, cleartext) of an encrypted packet."""
    if len(f) < 18:
        return False, b''
    if f[0] != 6:
        return False, b''
    return env.crypto.box_open(f[2:], nonce(counter), key)


class Client:
    """A client session over an abstract transport, and an honest server's keys."""
    known = []

    def __init__(self, env, wanted=None, times=False):
        self.env = env
        self.enc = enc_pair(env, 'client_enc')
        self.sig = sig_pair(env, 'client_sig')
        self.tr = Transport(env)
        self.s = env.mod(CS).SaltClientSession(self.sig, self.tr)
        self.s.enc_keypair = self.enc
        if wanted is not None:
            self.s.wanted_server_sig_key = wanted
        self.keeper = None
        if times:
            self.keeper = Keeper(env)
            self.s.time_keeper = self.keeper

    def m1(self):
        return self.tr.writes[0][0][0]

    def no_more(self):
        """Nothing was sent after M1."""
        return len(self.tr.writes) == 1 and len(self.tr.writes[0][0]) == 1


class Server:
    """A server session over an abstract transport."""
    known = []

    def __init__(self, env, times=False):
        self.env = env
        self.enc = enc_pair(env, 'server_enc')
        self.sig = sig_pair(env, 'server_sig')
        self.tr = Transport(env)
        self.s = env.mod(SS).SaltServerSession(self.sig, self.tr)
        self.s.enc_keypair = self.enc
        self.keeper = None
        if times:
            self.keeper = Keeper(env)
            self.s.time_keeper = self.keeper


def flip(env, b):
    """Concrete search only: damage a byte string now and then."""
    if env.rng.random() < 0.3:
        return env.mutate(b)
    return b


def some_time(env):
    """Concrete search only."""
    return env.rng.choice([0, 5, 0, 5, 0, 5, 1, 2 ** 31, 2 ** 32 - 1] + [v % 2 ** 32 for v in env.consts[0] if v >= 0])


def special(env, key, others):
    """Concrete search only: now and then a key the peer knows already."""
    if env.rng.random() < 0.12:
        return env.rng.choice(others + [bytes(32)])
    return key


# ================================================================ C11
@contract(['C11', 'C21'], covers=['completed', 'failed'], on=['SaltClientSession.handshake'], samples=3)
def client_any_server(env):
    """A server sending anything at all."""
    c = Client(env, times=True)
    c.s.buffer_M4 = env.bool('buffer_M4')
    client_attempt(env, c)


@contract(['C11', 'C21'], covers=['completed', 'failed', 'first completed', 'first failed'], on=['SaltClientSession.handshake'], samples=2)
def client_again(env):
    """The same session object after an earlier handshake that completed or failed."""
    c = Client(env, times=True)
    c.s.buffer_M4 = env.bool('buffer_M4')
    se, ss = enc_pair(env, 'earlier_enc'), sig_pair(env, 'earlier_sig')
    ok, k = env.crypto.shared(se.pub, c.enc.sec)
    env.assume(ok)
    m2 = wire_m2(1, se.pub)
    if env.bool('breaks_off'):
        c.tr.replies = [m2]
    else:
        c.tr.replies = [m2, lambda: wire_enc(env.crypto.box(wire_m3(3, ss.pub, sig1(env, c.m1(), m2, ss.sec)), nonce(2), k))]
    out = env.run(c.s.handshake())
    if out.ok:
        env.cover('first completed')
    else:
        env.cover('first failed')
    c.tr.writes = []
    c.known = [ss.pub]
    client_attempt(env, c)


def client_attempt(env, c):
    hk = {}

    def m2_hint():
        hk['sec'] = bytes(range(1, 33))
        hk['sig'] = env.crypto.sig_pair(bytes(range(2, 34)))
        return b'\x02' + bytes([env.rng.choice([0, 0, 0, 0, 1, 128, 2])]) + le(env.rng.choice([0, 0, 1, 2]), 4) + flip(env, env.crypto.enc_pub(hk['sec'])) + env.rng.choice([b'', b'', b'extra'])

    def m3_hint():
        m2 = c.m2
        if 'sec' not in hk or len(m2) < 38:
            return b'\x06\x00' + bytes(118)
        ok, k = env.crypto.shared(c.enc.pub, hk['sec'])
        pub, sec = hk['sig']
        h1, h2 = env.crypto.sha512(c.m1()), env.crypto.sha512(m2)
        what = env.rng.choice([SIG1 + h1 + h2] * 4 + [SIG2 + h1 + h2, SIG1 + h2 + h1, SIG1 + h1, SIG1 + h1 + env.crypto.sha512(m2[:38]), SIG1 + h1 + h1, SIG1 + h2 + h2, b'', SIG1, h1 + h2])
        sig = flip(env, env.crypto.signed(what, sec)[:64])
        p = flip(env, bytes([env.rng.choice([3, 3, 3, 3, 4, 5]), 0]) + le(some_time(env), 4) + special(env, flip(env, pub), [c.sig.pub, c.enc.pub] + c.known) + sig)
        n = nonce(env.rng.choice([2, 2, 2, 2, 2, 1, 4, 0]))
        return wire_enc(env.crypto.box(p, n, k), env.rng.random() < 0.2)

    c.m2 = b''

    def m2_reply():
        c.m2 = env.bytes('m2', hint=m2_hint)
        return c.m2

    def m3_reply():
        c.m3 = env.bytes('m3', hint=m3_hint)
        return c.m3

    c.m3 = b''
    c.tr.replies = [m2_reply, m3_reply]
    out = env.run(c.s.handshake())
    if not out.ok:
        env.cover('failed')
        env.check('only the library\'s communication errors', out.raised(family(env)))
        env.check('nothing sent after M1', c.no_more())
    else:
        env.cover('completed')
        m2, m3 = c.m2, c.m3
        env.check('M2 is an M2 with a server', len(m2) >= 38 and m2[0] == 2 and m2[1] % 2 == 0)
        env.check('first time is 0 or 1', u32(m2, 2) <= 1)
        ok, k = env.crypto.shared(m2[6:38], c.enc.sec)
        env.check('key agreed', ok)
        ok, p = opened(env, m3, 2, k)
        env.check('M3 authenticated under the agreed key with the server\'s first counter', ok)
        env.check('M3 is an M3', len(p) == 102 and p[0] == 3)
        ok, _ = env.crypto.verify(p[38:102] + SIG1 + env.crypto.sha512(c.m1()) + env.crypto.sha512(m2), p[6:38])
        env.check('signature over the transcript is valid', ok)
        env.check('server key reported is the verified one', c.s.m3.ServerSigKey == p[6:38])
        env.check('session key is the agreed one', c.s.session_key == k)
        env.check('exactly M1 and then M4 at most', len(c.tr.writes) == (1 if c.s.buffer_M4 else 2))


# ================================================================ C12
@contract(['C12', 'C21'], covers=['completed', 'failed', 'a1'], on=['SaltServerSession.handshake'], samples=3)
def server_any_client(env):
    """A client sending anything at all."""
    s = Server(env, times=True)
    s.s.buffer_m2 = env.bool('buffer_m2')
    server_attempt(env, s, True)


@contract(['C12', 'C21'], covers=['completed', 'failed', 'first completed', 'first failed'], on=['SaltServerSession.handshake'], samples=2)
def server_again(env):
    """The same session object after an earlier handshake that completed or failed."""
    s = Server(env, times=True)
    s.s.buffer_m2 = env.bool('buffer_m2')
    ce, cs = enc_pair(env, 'earlier_enc'), sig_pair(env, 'earlier_sig')
    ok, k = env.crypto.shared(ce.pub, s.enc.sec)
    env.assume(ok)
    m1 = wire_m1(1, ce.pub)
    if env.bool('breaks_off'):
        s.tr.replies = [m1]
    else:
        s.tr.replies = [m1, lambda: wire_enc(env.crypto.box(wire_m4(3, cs.pub, sig2(env, m1, s.tr.flat()[0], cs.sec)), nonce(1), k))]
    out = env.run(s.s.handshake())
    if out.ok:
        env.cover('first completed')
    else:
        env.cover('first failed')
    s.tr.writes = []
    s.known = [cs.pub]
    server_attempt(env, s, False)


def server_attempt(env, s, first):
    hk = {'sec': bytes(range(1, 33))}

    def m1_hint():
        r = env.rng.random()
        if r < 0.15:
            return env.rng.choice([b'\x08\x00\x00\x00\x00', b'\x08\x00\x01\x20\x00' + s.sig.pub, b'\x08\x00\x01\x20\x00' + bytes(32)])
        inc = env.rng.choice([0, 0, 1])
        return b'SCv2\x01' + bytes([inc | env.rng.choice([0, 0, 2, 64])]) + le(env.rng.choice([0, 0, 1, 2]), 4) + flip(env, env.crypto.enc_pub(hk['sec'])) + (env.rng.choice([s.sig.pub, s.sig.pub, bytes(32)]) if inc else b'') + env.rng.choice([b'', b'', b'extra'])

    def m4_hint():
        m1 = s.m1
        w = s.tr.flat()
        if not w:
            return bytes(120)
        m2 = w[0]
        ok, k = env.crypto.shared(s.enc.pub, hk['sec'])
        pub, sec = env.crypto.sig_pair(bytes(range(2, 34)))
        h1, h2 = env.crypto.sha512(m1), env.crypto.sha512(m2)
        what = env.rng.choice([SIG2 + h1 + h2] * 4 + [SIG1 + h1 + h2, SIG2 + h2 + h1, SIG2 + h1, SIG2 + env.crypto.sha512(m1[:env.rng.choice([42, 74, 64])]) + h2, SIG2 + h1 + h1, SIG2 + h2 + h2, b'', SIG2, h1 + h2])
        if len(m1) not in (42, 74) and env.rng.random() < 0.5:
            # M1 carries more than its fields: a signature over the fields only
            what = SIG2 + env.crypto.sha512(m1[:74 if m1[5:6] == b'\x01' else 42]) + h2
        sig = flip(env, env.crypto.signed(what, sec)[:64])
        p = flip(env, bytes([env.rng.choice([4, 4, 4, 4, 3, 5]), 0]) + le(some_time(env), 4) + special(env, flip(env, pub), [s.sig.pub, s.enc.pub] + s.known) + sig)
        n = nonce(env.rng.choice([1, 1, 1, 1, 1, 2, 3, 0]))
        return wire_enc(env.crypto.box(p, n, k), env.rng.random() < 0.2)

    s.m1 = s.m4 = b''

    def m1_reply():
        s.m1 = env.bytes('m1', hint=m1_hint)
        return s.m1

    def m4_reply():
        s.m4 = env.bytes('m4', hint=m4_hint)
        return s.m4

    s.tr.replies = [m1_reply, m4_reply]
    out = env.run(s.s.handshake())
    if not out.ok:
        env.cover('failed')
        env.check('only the library\'s communication errors', out.raised(family(env)))
    elif s.s.is_done:
        env.cover('a1')
        env.check('an A1 was answered, no session', s.m1[0] == 8 and len(s.tr.writes) == 1 and s.tr.writes[0][1] == True)
        env.check('no session', not first or s.s.app_channel is None and s.s.client_sig_key is None)
    else:
        env.cover('completed')
        m1, m4 = s.m1, s.m4
        env.check('M1 is an M1 for this server', len(m1) >= 42 and m1[:5] == b'SCv2\x01' and (m1[5] % 2 == 0 or m1[42:74] == s.sig.pub))
        env.check('first time is 0 or 1', u32(m1, 6) <= 1)
        sent = s.tr.flat()
        env.check('M2 and M3 sent', len(sent) == 2)
        ok, k = env.crypto.shared(m1[10:42], s.enc.sec)
        env.check('key agreed', ok)
        ok, p = opened(env, m4, 1, k)
        env.check('M4 authenticated under the agreed key with the client\'s first counter', ok)
        env.check('M4 is an M4', len(p) >= 102 and p[0] == 4)
        ok, _ = env.crypto.verify(p[38:102] + SIG2 + env.crypto.sha512(m1) + env.crypto.sha512(sent[0]), p[6:38])
        env.check('signature over the transcript is valid', ok)
        env.check('client key reported is the verified one', s.s.client_sig_key == p[6:38])
        env.check('session key is the agreed one', s.s.session_key == k)


# ================================================================ C13 (one honest side against the specification)
@contract(['C13', 'C07', 'C22'], on=['SaltClientSession.handshake', 'SaltClientSession.do_m1', 'SaltClientSession.do_m4'], samples=2)
def honest_client(env):
    """The client against a server that follows the specification."""
    want = env.bool('asks_for_server')
    se = enc_pair(env, 'server_enc')
    ss = sig_pair(env, 'server_sig')
    c = Client(env, wanted=ss.pub if want else None)
    deferred = env.bool('buffer_M4')
    c.s.buffer_M4 = deferred
    t2 = env.int('t2', 0, 1)
    t3 = env.int('t3', 0, 4294967295)
    m2 = wire_m2(t2, se.pub)
    ok1, k = env.crypto.shared(se.pub, c.enc.sec)
    ok2, k2 = env.crypto.shared(c.enc.pub, se.sec)
    env.assume(ok1 and ok2)
    env.check('agreement of the primitives', k == k2)

    def m3_reply():
        return wire_enc(env.crypto.box(wire_m3(t3, ss.pub, sig1(env, c.m1(), m2, ss.sec)), nonce(2), k))

    c.tr.replies = [m2, m3_reply]
    out = env.run(c.s.handshake())
    env.check('handshake completes', out.ok)
    m1 = wire_m1(0, c.enc.pub, ss.pub if want else None)
    env.check('M1 as prescribed', c.m1() == m1)
    env.check('session key', c.s.session_key == k)
    env.check('server key known', c.s.m3.ServerSigKey == ss.pub)
    env.check('a session', c.s.app_channel is not None)
    msg, msg2 = env.bytes('msg'), env.bytes('msg2')
    if not deferred:
        env.check('M4 sent', len(c.tr.writes) == 2 and len(c.tr.writes[1][0]) == 1)
    else:
        env.check('M4 held back', len(c.tr.writes) == 1)
    last = env.bool('last')
    out = env.run(c.s.app_channel.write(msg, is_last=last))
    env.check('application write', out.ok)
    sent = c.tr.flat()
    env.check('M1, M4, application packet', len(sent) == 3)
    if deferred:
        env.check('M4 goes with the first application write', len(c.tr.writes) == 2)
    plain4 = wire_m4(0, c.sig.pub, sig2(env, m1, m2, c.sig.sec))
    env.check('M4 as prescribed', sent[1] == wire_enc(env.crypto.box(plain4, nonce(1), k)))
    env.check('application packet as prescribed', sent[2] == wire_enc(env.crypto.box(wire_app(0, msg), nonce(3), k), last))
    out = env.run(c.s.app_channel.write(msg2))
    env.check('M4 never again, counter goes on', c.tr.writes[-1][0][0] == wire_enc(env.crypto.box(wire_app(0, msg2), nonce(5), k)) and len(c.tr.flat()) == 4)
    back = env.bytes('back')
    c.tr.replies = [wire_enc(env.crypto.box(wire_app(7, back), nonce(4), k))]
    got = env.run(c.s.app_channel.read())
    env.check('application message arrives', got.ok and got.value == back)


@contract(['C13', 'C07', 'C22'], on=['SaltServerSession.handshake', 'SaltServerSession.do_m2', 'SaltServerSession.do_m3'], samples=2)
def honest_server(env):
    """The server against a client that follows the specification."""
    s = Server(env)
    ce = enc_pair(env, 'client_enc')
    cs = sig_pair(env, 'client_sig')
    want = env.bool('asks_for_server')
    deferred = env.bool('buffer_m2')
    s.s.buffer_m2 = deferred
    t1 = env.int('t1', 0, 1)
    t4 = env.int('t4', 0, 4294967295)
    m1 = wire_m1(t1, ce.pub, s.sig.pub if want else None)
    ok1, k = env.crypto.shared(ce.pub, s.enc.sec)
    ok2, k2 = env.crypto.shared(s.enc.pub, ce.sec)
    env.assume(ok1 and ok2)
    m2 = wire_m2(0, s.enc.pub)

    def m4_reply():
        return wire_enc(env.crypto.box(wire_m4(t4, cs.pub, sig2(env, m1, s.tr.flat()[0], cs.sec)), nonce(1), k))

    s.tr.replies = [m1, m4_reply]
    out = env.run(s.s.handshake())
    env.check('handshake completes', out.ok)
    sent = s.tr.flat()
    env.check('M2 and M3 sent', len(sent) == 2)
    env.check('M2 as prescribed', sent[0] == m2)
    plain3 = wire_m3(0, s.sig.pub, sig1(env, m1, m2, s.sig.sec))
    env.check('M3 as prescribed, over the bytes sent', sent[1] == wire_enc(env.crypto.box(plain3, nonce(2), k)))
    if deferred:
        env.check('M2 and M3 together', len(s.tr.writes) == 1)
    else:
        env.check('M2 at once, then M3', len(s.tr.writes) == 2)
    env.check('session key', s.s.session_key == k)
    env.check('client key known', s.s.client_sig_key == cs.pub)
    env.check('not an A1 session', not s.s.is_done)
    msg, msg2 = env.bytes('msg'), env.bytes('msg2')
    s.tr.replies = [wire_enc(env.crypto.box(wire_app(7, msg), nonce(3), k))]
    got = env.run(s.s.app_channel.read())
    env.check('application message arrives', got.ok and got.value == msg)
    last = env.bool('last')
    out = env.run(s.s.app_channel.write(msg2, is_last=last))
    env.check('application write with the next counter', s.tr.writes[-1][0][0] == wire_enc(env.crypto.box(wire_app(0, msg2), nonce(4), k), last))


@contract('C13', on=['SaltClientSession.handshake', 'SaltClientSession.do_m1', 'SaltClientSession.do_m4'], samples=2)
def c13_client_times(env):
    """An honest handshake of a client whose time keeper reports any times: the bytes signed are the bytes sent."""
    c = Client(env, times=True)
    se, ss = enc_pair(env, 'server_enc'), sig_pair(env, 'server_sig')
    c.s.buffer_M4 = env.bool('buffer_M4')
    m2 = wire_m2(env.int('t2', 0, 1), se.pub)
    ok, k = env.crypto.shared(se.pub, c.enc.sec)
    env.assume(ok)
    t3 = env.int('t3', 0, 4294967295)
    c.tr.replies = [m2, lambda: wire_enc(env.crypto.box(wire_m3(t3, ss.pub, sig1(env, c.m1(), m2, ss.sec)), nonce(2), k))]
    out = env.run(c.s.handshake())
    env.check('handshake completes', out.ok)
    out = env.run(c.s.app_channel.write(env.bytes('msg')))
    sent = c.tr.flat()
    env.check('M1, M4, application packet', out.ok and len(sent) == 3)
    ok, p = opened(env, sent[1], 1, k)
    env.check('M4 under the session key', ok)
    env.check('signature over the bytes sent', len(p) == 102 and p[:2] == b'\x04\x00' and p[6:] == c.sig.pub + sig2(env, sent[0], m2, c.sig.sec))


@contract(['C13', 'C22'], on=['SaltServerSession.handshake', 'SaltServerSession.do_m2', 'SaltServerSession.do_m3'], samples=2)
def server_times(env):
    """An honest handshake of a server whose time keeper reports any times: the bytes signed are the bytes sent."""
    s = Server(env, times=True)
    ce, cs = enc_pair(env, 'client_enc'), sig_pair(env, 'client_sig')
    s.s.buffer_m2 = env.bool('buffer_m2')
    m1 = wire_m1(env.int('t1', 0, 1), ce.pub)
    ok, k = env.crypto.shared(ce.pub, s.enc.sec)
    env.assume(ok)
    t4 = env.int('t4', 0, 4294967295)
    s.tr.replies = [m1, lambda: wire_enc(env.crypto.box(wire_m4(t4, cs.pub, sig2(env, m1, s.tr.flat()[0], cs.sec)), nonce(1), k))]
    out = env.run(s.s.handshake())
    env.check('handshake completes', out.ok)
    sent = s.tr.flat()
    env.check('M2 and M3 sent', len(sent) == 2)
    ok, p = opened(env, sent[1], 2, k)
    env.check('M3 under the session key', ok)
    env.check('signature over the bytes sent', len(p) == 102 and p[:2] == b'\x03\x00' and p[6:] == s.sig.pub + sig1(env, m1, sent[0], s.sig.sec))


@contract('C13', on=['SaltClientSession.handshake'], samples=2)
def c13_client_again(env):
    """A session object can go through one handshake after the other, whatever became of the earlier one."""
    c = Client(env)
    c.s.buffer_M4 = env.bool('buffer_M4')
    for i in range(2):
        name = ['first', 'second'][i]
        se, ss = enc_pair(env, name + '_enc'), sig_pair(env, name + '_sig')
        ok, k = env.crypto.shared(se.pub, c.enc.sec)
        env.assume(ok)
        m2 = wire_m2(env.int('t2', 0, 1), se.pub)
        m3 = lambda: wire_enc(env.crypto.box(wire_m3(3, ss.pub, sig1(env, c.m1(), m2, ss.sec)), nonce(2), k))
        c.tr.replies = [m2, m3] if i == 1 or env.bool('first_completes') else [m2]
        c.tr.writes = []
        out = env.run(c.s.handshake())
    env.check('second handshake completes', out.ok and c.s.session_key == k and c.s.m3.ServerSigKey == ss.pub)
    msg = env.bytes('msg')
    out = env.run(c.s.app_channel.write(msg))
    sent = c.tr.flat()
    env.check('M1, M4, application packet of the second session', out.ok and len(sent) == 3)
    env.check('M4', sent[1] == wire_enc(env.crypto.box(wire_m4(0, c.sig.pub, sig2(env, c.m1(), m2, c.sig.sec)), nonce(1), k)))
    env.check('application packet', sent[2] == wire_enc(env.crypto.box(wire_app(0, msg), nonce(3), k)))


@contract('C13', on=['SaltServerSession.handshake'], samples=2)
def c13_server_again(env):
    s = Server(env)
    s.s.buffer_m2 = env.bool('buffer_m2')
    for i in range(2):
        name = ['first', 'second'][i]
        ce, cs = enc_pair(env, name + '_enc'), sig_pair(env, name + '_sig')
        ok, k = env.crypto.shared(ce.pub, s.enc.sec)
        env.assume(ok)
        m1 = wire_m1(env.int('t1', 0, 1), ce.pub)
        m4 = lambda: wire_enc(env.crypto.box(wire_m4(3, cs.pub, sig2(env, m1, s.tr.flat()[0], cs.sec)), nonce(1), k))
        s.tr.replies = [m1, m4] if i == 1 or env.bool('first_completes') else [m1]
        s.tr.writes = []
        out = env.run(s.s.handshake())
    env.check('second handshake completes', out.ok and s.s.session_key == k and s.s.client_sig_key == cs.pub)
    msg, back = env.bytes('msg'), env.bytes('back')
    out = env.run(s.s.app_channel.write(msg))
    sent = s.tr.flat()
    env.check('M2, M3, application packet of the second session', out.ok and len(sent) == 3)
    env.check('M3', sent[1] == wire_enc(env.crypto.box(wire_m3(0, s.sig.pub, sig1(env, m1, sent[0], s.sig.sec)), nonce(2), k)))
    env.check('application packet', sent[2] == wire_enc(env.crypto.box(wire_app(0, msg), nonce(4), k)))
    s.tr.replies = [wire_enc(env.crypto.box(wire_app(7, back), nonce(3), k))]
    got = env.run(s.s.app_channel.read())
    env.check('application message arrives', got.ok and got.value == back)


@contract('C13', on=['SaltClientSession.handshake', 'SaltServerSession.handshake'], samples=2)
def c13_both(env):
    """Real client and real server over a faithful channel."""
    pc, ps = pipes(env)
    ce, se = enc_pair(env, 'client_enc'), enc_pair(env, 'server_enc')
    cs, ss = sig_pair(env, 'client_sig'), sig_pair(env, 'server_sig')
    ok1, k = env.crypto.shared(se.pub, ce.sec)
    ok2, k2 = env.crypto.shared(ce.pub, se.sec)
    env.assume(ok1 and ok2)
    c = env.mod(CS).SaltClientSession(cs, pc)
    s = env.mod(SS).SaltServerSession(ss, ps)
    c.enc_keypair, s.enc_keypair = ce, se
    c.time_keeper, s.time_keeper = Keeper(env, 'client_time'), Keeper(env, 'server_time')
    c.buffer_M4, s.buffer_m2 = env.bool('buffer_M4'), env.bool('buffer_m2')
    if env.bool('asks_for_server'):
        c.wanted_server_sig_key = ss.pub
    up, down = env.bytes('up'), env.bytes('down')

    async def client():
        await c.handshake()
        await c.app_channel.write(up)
        return await c.app_channel.read()

    async def server():
        await s.handshake()
        x = await s.app_channel.read()
        await s.app_channel.write(down)
        return x
    outs = env.interleave([client(), server()])
    env.check('both complete', outs[0] is not None and outs[1] is not None and outs[0].ok and outs[1].ok)
    env.check('same session key', c.session_key == k and s.session_key == k)
    env.check('client knows the server', c.m3.ServerSigKey == ss.pub)
    env.check('server knows the client', s.client_sig_key == cs.pub)
    env.check('client to server', outs[1].value == up)
    env.check('server to client', outs[0].value == down)


# ================================================================ C14
@contract('C14', covers=['completed'], on=['SaltClientSession.do_m1', 'SaltClientSession.validate_signature1'], samples=3)
def c14_client(env):
    """A client that wants one key, a server that can authenticate with any key it owns."""
    wanted = env.bytes('wanted', 32, hint=lambda: env.crypto.sig_pair(bytes(range(2, 34)))[0])
    c = Client(env, wanted=wanted)
    c.s.buffer_M4 = env.bool('buffer_M4')
    hk = {'sec': bytes(range(1, 33))}

    def m2_hint():
        return wire_m2(0, env.crypto.enc_pub(hk['sec']))

    def m3_hint():
        ok, k = env.crypto.shared(c.enc.pub, hk['sec'])
        pub, sec = env.crypto.sig_pair(bytes(range(2, 34)))
        return wire_enc(env.crypto.box(wire_m3(0, pub, sig1(env, c.m1(), c.m2, sec)), nonce(2), k))

    c.m2 = b''

    def m2_reply():
        c.m2 = env.bytes('m2', hint=m2_hint)
        return c.m2

    c.tr.replies = [m2_reply, lambda: env.bytes('m3', hint=m3_hint)]
    out = env.run(c.s.handshake())
    env.check('M1 asks for the key', c.m1() == wire_m1(0, c.enc.pub, wanted))
    if out.ok:
        env.cover('completed')
        env.check('only with that server', c.s.m3.ServerSigKey == wanted)
    else:
        env.check('nothing sent after M1', c.no_more())


@contract('C14', on=['SaltClientSession.validate_signature1'], samples=2)
def c14_client_other_server(env):
    """A genuine but different server."""
    se, ss = enc_pair(env, 'server_enc'), sig_pair(env, 'server_sig')
    wanted = env.bytes('wanted', 32, hint=lambda: ss.pub)
    env.assume(wanted != ss.pub)
    c = Client(env, wanted=wanted)
    c.s.buffer_M4 = env.bool('buffer_M4')
    m2 = wire_m2(env.int('t2', 0, 1), se.pub)
    ok, k = env.crypto.shared(se.pub, c.enc.sec)
    env.assume(ok)
    c.tr.replies = [m2, lambda: wire_enc(env.crypto.box(wire_m3(3, ss.pub, sig1(env, c.m1(), m2, ss.sec)), nonce(2), k))]
    out = env.run(c.s.handshake())
    env.check('refused', out.raised(family(env)))
    env.check('nothing sent after M1', c.no_more())


@contract('C14', on=['SaltClientSession.do_m2'])
def c14_client_no_such_server(env):
    c = Client(env, wanted=env.bytes('wanted', 32) if env.bool('asks') else None)
    flags = env.int('flags', 0, 255)
    env.assume(flags % 2 == 1)
    m2 = b'\x02' + le(flags, 1) + le(env.int('t2', 0, 1), 4) + env.bytes('key', 32)
    c.tr.replies = [m2]
    out = env.run(c.s.handshake())
    env.check('no-such-server exception', out.raised(env.mod('saltchannel.exceptions').NoSuchServerException))
    env.check('nothing sent after M1', c.no_more())


@contract('C14', covers=['other', 'own'], on=['SaltServerSession.do_m1'], samples=2)
def c14_server(env):
    s = Server(env)
    s.s.buffer_m2 = env.bool('buffer_m2')
    asked = env.bytes('asked', 32, hint=lambda: s.sig.pub)
    peer = env.bytes('client_key', 32, hint=lambda: env.crypto.enc_pub(bytes(range(32))))
    s.tr.replies = [wire_m1(env.int('t1', 0, 1), peer, asked)]
    out = env.run(s.s.handshake())
    env.check('not completed without the client', not out.ok)
    if asked == s.sig.pub:
        env.cover('own')
        env.check('no refusal for its own key', not out.raised(env.mod('saltchannel.exceptions').NoSuchServerException))
    else:
        env.cover('other')
        env.check('no-such-server exception', out.raised(env.mod('saltchannel.exceptions').NoSuchServerException))
        env.check('one message only', len(s.tr.writes) == 1 and len(s.tr.writes[0][0]) == 1)
        env.check('M2 no such server, last', s.tr.writes[0][0][0] == wire_m2(0, bytes(32), True) and s.tr.writes[0][1] == True)


@contract('C14', covers=['other', 'own'], on=['SaltServerSession.do_m1'], samples=2)
def c14_server_again(env):
    """The same session object after an inquiry, a refusal, or a handshake that broke off."""
    s = Server(env)
    s.s.buffer_m2 = env.bool('buffer_m2')
    ce = env.crypto.enc_pub(bytes(range(32)))
    before = env.choice('before', ['inquiry', 'refused', 'broke off', 'nonsense'])
    if before == 'inquiry':
        s.tr.replies = [b'\x08\x00\x00\x00\x00']
    elif before == 'refused':
        other = env.bytes('other', 32)
        env.assume(other != s.sig.pub)
        s.tr.replies = [wire_m1(0, ce, other)]
    elif before == 'broke off':
        s.tr.replies = [wire_m1(0, ce, s.sig.pub)]
    else:
        s.tr.replies = [b'nonsense']
    env.run(s.s.handshake())
    s.tr.writes = []
    asked = env.bytes('asked', 32, hint=lambda: s.sig.pub)
    s.tr.replies = [wire_m1(env.int('t1', 0, 1), ce, asked)]
    out = env.run(s.s.handshake())
    env.check('not completed without the client', not out.ok)
    if asked == s.sig.pub:
        env.cover('own')
        env.check('no refusal for its own key', not out.raised(env.mod('saltchannel.exceptions').NoSuchServerException))
    else:
        env.cover('other')
        env.check('no-such-server exception', out.raised(env.mod('saltchannel.exceptions').NoSuchServerException))
        env.check('one message only', len(s.tr.writes) == 1 and len(s.tr.writes[0][0]) == 1)
        env.check('M2 no such server, last', s.tr.writes[0][0][0] == wire_m2(0, bytes(32), True) and s.tr.writes[0][1] == True)


@contract('C14', covers=['refused', 'not a session'], on=['SaltClientSession.handshake', 'SaltClientSession.validate_signature1'], samples=2)
def c14_client_again(env):
    """The same client session, asked for another server after a handshake with a first one."""
    c = Client(env, wanted=None)
    se, s1, s2 = enc_pair(env, 'server_enc'), sig_pair(env, 'first_sig'), sig_pair(env, 'second_sig')
    ok, k = env.crypto.shared(se.pub, c.enc.sec)
    env.assume(ok)
    m2 = wire_m2(0, se.pub)
    c.s.buffer_M4 = env.bool('buffer_M4')
    if env.bool('asked'):
        c.s.wanted_server_sig_key = s1.pub
    c.tr.replies = [m2, lambda: wire_enc(env.crypto.box(wire_m3(0, s1.pub, sig1(env, c.m1(), m2, s1.sec)), nonce(2), k))]
    out = env.run(c.s.handshake())
    env.check('first handshake completes', out.ok)
    wanted = env.bytes('wanted', 32)
    presents = env.bool('the_first_again')
    peer = s1 if presents else s2
    env.assume(wanted != peer.pub)
    c.s.wanted_server_sig_key = wanted
    c.tr.writes = []
    c.tr.replies = [m2, lambda: wire_enc(env.crypto.box(wire_m3(0, peer.pub, sig1(env, c.m1(), m2, peer.sec)), nonce(2), k))]
    out = env.run(c.s.handshake())
    env.check('M1 asks for the wanted server', c.m1() == wire_m1(0, c.enc.pub, wanted))
    env.check('refused', out.raised(bad_peer(env)))
    env.check('nothing sent after M1', c.no_more())
    if presents:
        env.cover('refused')
    else:
        env.cover('not a session')


# ================================================================ C15
@contract('C15', covers=['any', 'own', 'other'], on=['SaltServerSession.do_a2'], samples=2)
def c15_server(env):
    s = Server(env)
    P = env.mod(AP)
    conf = env.choice('configured', ['no', 'entry', 'any'])
    if conf == 'any':
        want = env.bytes('a2', hint=lambda: env.rng.choice([b'\x09\x80\x02SCv2------ECHO------SCv3------ECHO------', a2_example(env.rng), b'\x09\x80\x00', b'\x09\x81\x00']))
        o = env.call(P.A2Packet, src_buf=want)
        env.assume(o.ok)
        s.s.a2 = o.value
    elif conf == 'entry':
        a2 = P.A2Packet(case=P.A2Packet.Case.A2_DEFAUT)
        a2.Prot[0].P2 = env.mod('saltchannel.util').cbytes(b'ECHO------')
        s.s.a2 = a2
    if env.bool('any'):
        env.cover('any')
        a1 = b'\x08' + env.bytes('reserved', 1) + b'\x00\x00\x00'
        mine = True
    else:
        adr = env.bytes('address', 32, hint=lambda: s.sig.pub)
        a1 = b'\x08' + env.bytes('reserved', 1) + b'\x01\x20\x00' + adr
        mine = adr == s.sig.pub
        if mine:
            env.cover('own')
        else:
            env.cover('other')
    s.tr.replies = [a1]
    out = env.run(s.s.handshake())
    env.check('answered', out.ok)
    env.check('session ended', s.s.is_done == True and s.s.app_channel is None)
    env.check('exactly one message, marked last', len(s.tr.writes) == 1 and len(s.tr.writes[0][0]) == 1 and s.tr.writes[0][1] == True)
    ans = s.tr.writes[0][0][0]
    if not mine:
        env.check('no such server', ans == b'\x09\x81\x00')
    elif conf == 'any':
        env.check('configured list of any length', ans == want)
    elif conf == 'entry':
        env.check('configured list', ans == b'\x09\x80\x01SCv2------ECHO------')
    else:
        env.check('default list', ans == b'\x09\x80\x01SCv2----------------')


@contract('C15', covers=['mine', 'other'], on=['SaltServerSession.do_a2'], samples=2)
def c15_server_again(env):
    """A second inquiry answered by the same session: the first one has no influence on the answer."""
    s = Server(env)
    P = env.mod(AP)
    configured = env.bool('configured')
    if configured:
        a2 = P.A2Packet(case=P.A2Packet.Case.A2_DEFAUT)
        a2.Prot[0].P2 = env.mod('saltchannel.util').cbytes(b'ECHO------')
        s.s.a2 = a2
    mine = True
    for name in ['first', 'second']:
        if env.bool(name + '_any'):
            a1 = b'\x08\x00\x00\x00\x00'
            mine = True
        else:
            adr = env.bytes(name + '_address', 32, hint=lambda: s.sig.pub)
            a1 = b'\x08\x00\x01\x20\x00' + adr
            mine = adr == s.sig.pub
        s.tr.replies = [a1]
        s.tr.writes = []
        out = env.run(s.s.handshake())
        env.check('answered', out.ok and s.s.is_done == True)
    env.check('exactly one message, marked last', len(s.tr.writes) == 1 and len(s.tr.writes[0][0]) == 1 and s.tr.writes[0][1] == True)
    ans = s.tr.writes[0][0][0]
    if not mine:
        env.cover('other')
        env.check('no such server', ans == b'\x09\x81\x00')
    else:
        env.cover('mine')
        env.check('the list', ans == (b'\x09\x80\x01SCv2------ECHO------' if configured else b'\x09\x80\x01SCv2----------------'))


@contract('C15', covers=['bad'], on=['SaltServerSession.handshake', 'SaltServerSession.do_m1'], samples=2)
def c15_server_neither(env):
    s = Server(env)
    m = env.bytes('first', hint=lambda: env.rng.choice([b'\x08\x00\x00\x00\x00', b'\x08\x00\x01\x20\x00' + s.sig.pub, wire_m1(0, bytes(32))]))
    is_m1 = len(m) >= 42 and m[:5] == b'SCv2\x01' and (m[5] % 2 == 0 or len(m) >= 74)
    env.assume(not is_m1)
    is_a1 = (len(m) >= 5 and m[0] == 8 and u16(m, 3) == len(m) - 5
             and ((m[2] == 0 and len(m) == 5) or (m[2] == 1 and len(m) == 37)))
    s.tr.replies = [m]
    out = env.run(s.s.handshake())
    if is_a1:
        env.check('A1 is answered', out.ok and len(s.tr.writes) == 1)
    else:
        env.cover('bad')
        env.check('bad peer', out.raised(bad_peer(env)))
        env.check('nothing sent', len(s.tr.writes) == 0)


class InquiryChannel(Transport):
    def read_sync(self):
        return self.env.run(self.read()).value

    def write_sync(self, msg, *args, is_last=False):
        self.env.run(self.write(msg, *args, is_last=is_last))


def inquiry(env, c, tr, name, src=None):
    """One inquiry and its answer; the answer is returned."""
    sync = src is None and env.bool('sync')
    if src is None:
        src = env.bytes(name, hint=lambda: a2_example(env.rng))
    tr.replies = [src]
    tr.writes = []
    if sync:
        out = env.call(c.do_a1a2_sync)
    else:
        out = env.run(c.do_a1a2())
    return src, out


def addressed(env, c, name):
    """The A1 the inquiry has to send."""
    if env.bool(name):
        adr = env.bytes(name + '_address', 32)
        c.a1.data.AddressType = 1
        c.a1.data.AddressSize = 32
        c.a1.Address = adr
        return b'\x08\x00\x01\x20\x00' + adr
    return b'\x08\x00\x00\x00\x00'


@contract('C15', covers=['valid', 'invalid'], on=['A1ClientSession.do_a1a2', 'A1ClientSession.do_a1a2_sync'], samples=2)
def c15_client(env):
    S = env.mod(A1S)
    tr = InquiryChannel(env)
    c = S.A1ClientSession(tr)
    exp = addressed(env, c, 'pubkey')
    src, out = inquiry(env, c, tr, 'answer')
    env.check('sends exactly the A1', len(tr.writes) == 1 and len(tr.writes[0][0]) == 1 and tr.writes[0][0][0] == exp)
    if a2_valid(src):
        env.cover('valid')
        env.check('valid A2 returned', out.ok and bytes(c.a2) == src)
    else:
        env.cover('invalid')
        env.check('invalid A2 refused', out.raised(bad_peer(env)) and c.a2 is None)


@contract('C15', covers=['valid', 'invalid', 'after a valid answer', 'after an invalid answer'], on=['A1ClientSession.do_a1a2', 'A1ClientSession.do_a1a2_sync'], samples=2)
def c15_client_again(env):
    """A second inquiry by the same session, after one of four first answers: its result is the second answer."""
    S = env.mod(A1S)
    tr = InquiryChannel(env)
    c = S.A1ClientSession(tr)
    exp = b'\x08\x00\x00\x00\x00'
    first, out = inquiry(env, c, tr, 'first', env.choice('first', [b'\x09\x80\x01SCv2----------------', b'\x09\x80\x02SCv2------ECHO------SCv3------ECHO------', b'\x09\x81\x00', b'\x09\x80']))
    if out.ok:
        env.cover('after a valid answer')
    else:
        env.cover('after an invalid answer')
    src, out = inquiry(env, c, tr, 'second')
    env.check('sends exactly the A1', len(tr.writes) == 1 and len(tr.writes[0][0]) == 1 and tr.writes[0][0][0] == exp)
    if a2_valid(src):
        env.cover('valid')
        env.check('valid A2 returned', out.ok and bytes(c.a2) == src)
    else:
        env.cover('invalid')
        env.check('invalid A2 refused', out.raised(bad_peer(env)))


# ================================================================ C16
def times_of(keeper, kind):
    return [t for (k, t) in keeper.log if k == kind]


def among(t, values):
    ok = False
    for v in values:
        ok = ok | (t == v)
    return ok


@contract('C16', on=['SaltClientSession.do_m1', 'SaltClientSession.do_m4', 'AppChannelV2.write'], samples=2)
def c16_client_sends(env):
    c = Client(env, times=True)
    deferred = env.bool('buffer_M4')
    c.s.buffer_M4 = deferred
    se, ss = enc_pair(env, 'server_enc'), sig_pair(env, 'server_sig')
    ok, k = env.crypto.shared(se.pub, c.enc.sec)
    env.assume(ok)
    m2 = wire_m2(1, se.pub)
    c.tr.replies = [m2, lambda: wire_enc(env.crypto.box(wire_m3(3, ss.pub, sig1(env, c.m1(), m2, ss.sec)), nonce(2), k))]
    out = env.run(c.s.handshake())
    env.check('handshake completes', out.ok)
    env.check('M1 has the first time', among(u32(c.m1(), 6), times_of(c.keeper, 'first')))
    sent_at = times_of(c.keeper, 'time')
    before = len(sent_at)
    msgs = [env.bytes('a')]
    if env.bool('two'):
        msgs.append(env.bytes('b'))
    out = env.run(c.s.app_channel.write(*msgs))
    env.check('write succeeds', out.ok)
    now = times_of(c.keeper, 'time')[before:]
    sent = c.tr.flat()
    ok4, m4 = opened(env, sent[1], 1, k)
    env.check('M4 has the current time', ok4 and among(u32(m4, 2), now if deferred else sent_at))
    for i in range(2, len(sent)):
        okp, p = opened(env, sent[i], 2 * i - 1, k)
        env.check('application packet has the current time', okp and among(u32(p, 2), now))


@contract('C16', on=['SaltServerSession.do_m2', 'SaltServerSession.do_m3', 'SaltServerSession.do_m1'], samples=2)
def c16_server_sends(env):
    s = Server(env, times=True)
    ce, cs = enc_pair(env, 'client_enc'), sig_pair(env, 'client_sig')
    deferred = env.bool('buffer_m2')
    s.s.buffer_m2 = deferred
    ok, k = env.crypto.shared(ce.pub, s.enc.sec)
    env.assume(ok)
    m1 = wire_m1(1, ce.pub)
    s.tr.replies = [m1, lambda: wire_enc(env.crypto.box(wire_m4(3, cs.pub, sig2(env, m1, s.tr.flat()[0], cs.sec)), nonce(1), k))]
    out = env.run(s.s.handshake())
    env.check('handshake completes', out.ok)
    sent = s.tr.flat()
    env.check('M2 has the first time', among(u32(sent[0], 2), times_of(s.keeper, 'first')))
    ok3, m3 = opened(env, sent[1], 2, k)
    at = times_of(s.keeper, 'time')
    env.check('M3 has the time', ok3 and (u32(m3, 2) == u32(sent[0], 2) if deferred else among(u32(m3, 2), at)))
    before = len(at)
    out = env.run(s.s.app_channel.write(env.bytes('a')))
    now = times_of(s.keeper, 'time')[before:]
    okp, p = opened(env, s.tr.flat()[2], 4, k)
    env.check('application packet has the current time', okp and among(u32(p, 2), now))


@contract('C16', on=['SaltServerSession.do_m1'])
def c16_server_refusal(env):
    s = Server(env, times=True)
    asked = env.bytes('asked', 32)
    env.assume(asked != s.sig.pub)
    s.tr.replies = [wire_m1(0, bytes(32), asked)]
    env.run(s.s.handshake())
    env.check('refusing M2 has the first time', among(u32(s.tr.writes[0][0][0], 2), times_of(s.keeper, 'first')))


@contract('C16', covers=['objected', 'accepted'], on=['SaltClientSession.do_m2', 'SaltClientSession.do_m3'], samples=2)
def c16_client_checks(env):
    c = Client(env)
    c.s.buffer_M4 = env.bool('buffer_M4')
    objects = env.choice('objects', [None, 0, 1])
    c.s.time_checker = Checker(env, objects=objects)
    se, ss = enc_pair(env, 'server_enc'), sig_pair(env, 'server_sig')
    ok, k = env.crypto.shared(se.pub, c.enc.sec)
    env.assume(ok)
    t2, t3 = env.int('t2', 0, 4294967295), env.int('t3', 0, 4294967295)
    m2 = wire_m2(t2, se.pub)
    c.tr.replies = [m2, lambda: wire_enc(env.crypto.box(wire_m3(t3, ss.pub, sig1(env, c.m1(), m2, ss.sec)), nonce(2), k))]
    out = env.run(c.s.handshake())
    log = c.s.time_checker.log
    env.check('first time reported', log[0][0] == 'first' and log[0][1] == t2)
    if objects is None:
        env.cover('accepted')
        env.check('completes', out.ok)
        env.check('later time checked', len(log) == 2 and log[1][0] == 'check' and log[1][1] == t3)
    else:
        env.cover('objected')
        env.check('objection stops the handshake', out.raised(env.mod('saltchannel.exceptions').TimeException))
        env.check('nothing sent after M1', c.no_more())


@contract('C16', covers=['objected', 'accepted'], on=['SaltServerSession.do_m1', 'SaltServerSession.do_m4'], samples=2)
def c16_server_checks(env):
    s = Server(env)
    s.s.buffer_m2 = env.bool('buffer_m2')
    objects = env.choice('objects', [None, 0, 1])
    s.s.time_checker = Checker(env, objects=objects)
    ce, cs = enc_pair(env, 'client_enc'), sig_pair(env, 'client_sig')
    ok, k = env.crypto.shared(ce.pub, s.enc.sec)
    env.assume(ok)
    t1, t4 = env.int('t1', 0, 4294967295), env.int('t4', 0, 4294967295)
    m1 = wire_m1(t1, ce.pub)
    s.tr.replies = [m1, lambda: wire_enc(env.crypto.box(wire_m4(t4, cs.pub, sig2(env, m1, s.tr.flat()[0], cs.sec)), nonce(1), k))]
    out = env.run(s.s.handshake())
    log = s.s.time_checker.log
    env.check('first time reported', log[0][0] == 'first' and log[0][1] == t1)
    if objects is None:
        env.cover('accepted')
        env.check('completes', out.ok)
        env.check('later time checked', len(log) == 2 and log[1][0] == 'check' and log[1][1] == t4)
    else:
        env.cover('objected')
        env.check('objection stops the handshake', out.raised(env.mod('saltchannel.exceptions').TimeException))
        if objects == 0:
            env.check('nothing sent', len(s.tr.writes) == 0)


@contract('C16', covers=['objected', 'accepted'], on=['AppChannelV2.read'], samples=2)
def c16_app_checks(env):
    A = env.mod('saltchannel.v2.app_channel_v2')
    under = Transport(env)
    objects = env.choice('objects', [None, 0])
    ck = Checker(env, objects=objects)
    app = A.AppChannelV2(under, Keeper(env), ck)
    t = env.int('time', 0, 4294967295)
    multi = env.bool('multi')
    x, y = env.bytes('x', hi=65535), env.bytes('y', hi=65535)
    t2, z = env.int('time2', 0, 4294967295), env.bytes('z')
    under.replies = [wire_multi(env, t, [x, y]) if multi else wire_app(t, x), wire_app(t2, z)]
    out = env.run(app.read())
    env.check('time checked', len(ck.log) == 1 and ck.log[0][0] == 'check' and ck.log[0][1] == t)
    if objects is None:
        env.cover('accepted')
        env.check('delivered', out.ok and out.value == x)
        if multi:
            out = env.run(app.read())
            env.check('second message', out.ok and out.value == y)
    else:
        env.cover('objected')
        env.check('objection stops the read', out.raised(env.mod('saltchannel.exceptions').TimeException))
    out = env.run(app.read())
    env.check('next packet', out.ok and out.value == z)
    env.check('its time checked', len(ck.log) == 2 and ck.log[1][1] == t2)


@contract('C16', on=['NullTimeChecker.report_first_time', 'NullTimeChecker.check_time', 'NullTimeKeeper'])
def c16_default(env):
    T = env.mod('saltchannel.util.time')
    ck = T.NullTimeChecker()
    t = env.int('time', 0, 4294967295)
    out = env.call(ck.report_first_time, t)
    if t <= 1:
        env.check('0 and 1 accepted', out.ok)
    else:
        env.check('anything else is a bad peer', out.raised(bad_peer(env)))
    env.check('later times accepted', env.call(ck.check_time, t).ok)
    kp = T.NullTimeKeeper()
    env.check('default keeper keeps no time', kp.get_first_time() == 0 and kp.get_time() == 0)


# ================================================================ C21 (channels)
@contract('C21', covers=['ok', 'failed'], on=['EncryptedChannelV2.read', 'AppChannelV2.read'], samples=3)
def c21_app_read(env):
    """Any frame: an app read succeeds or raises a communication error; so does the next one."""
    E = env.mod('saltchannel.v2.encrypted_channel_v2')
    A = env.mod('saltchannel.v2.app_channel_v2')
    T = env.mod('saltchannel.util.time')
    key = env.bytes('key', 32)
    tr = Transport(env)
    ch = E.EncryptedChannelV2(tr, key, E.Role.CLIENT)
    app = A.AppChannelV2(ch, T.NullTimeKeeper(), T.NullTimeChecker())

    def plain():
        return env.rng.choice([wire_app(1, b'hello'), b'\x0b\x00\x01\x00\x00\x00\x02\x00\x01\x00a\x00\x00', b'\x05\x00\x00', b'', wire_multi(env, 1, [b'x'] * 3)[:-1], b'\x0b\x00\x01\x00\x00\x00\x00\x00'])
    f = env.bytes('frame', hint=lambda: flip(env, wire_enc(env.crypto.box(flip(env, plain()), nonce(env.rng.choice([2, 2, 2, 4])), key))))
    tr.replies = [f]
    out = env.run(app.read())
    if out.ok:
        env.cover('ok')
    else:
        env.cover('failed')
        env.check('only communication errors', out.raised(family(env)))
    out = env.run(app.read())
    env.check('second read: a message or a communication error', out.ok or out.raised(family(env)))


@contract('C21', covers=['ok', 'failed'], on=['AppChannelV2.read'], samples=2)
def c21_app_plain(env):
    """Any decrypted content handed to the application channel."""
    A = env.mod('saltchannel.v2.app_channel_v2')
    T = env.mod('saltchannel.util.time')
    tr = Transport(env)
    app = A.AppChannelV2(tr, T.NullTimeKeeper(), T.NullTimeChecker())
    p = env.bytes('packet', hint=lambda: flip(env, env.rng.choice([wire_app(1, b'hello'), wire_multi(env, 1, [b'x', b'', b'yz'])])))
    tr.replies = [p]
    out = env.run(app.read())
    if out.ok:
        env.cover('ok')
    else:
        env.cover('failed')
        env.check('only communication errors', out.raised(family(env)))

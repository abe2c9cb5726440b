"""Histories at the level of a session (C07, C10, C16) and independence of sessions (C23)."""
from pv.spec import contract
from common import *
from session import Client, Server, sig1, sig2, opened, among, CS, SS, A1S, AP
from encrypted import Plain, AC, EC


def completed_client(env, times=False):
    """A client session after an honest handshake: (client, session key)."""
    c = Client(env, times=times)
    se, ss = enc_pair(env, 'server_enc'), sig_pair(env, 'server_sig')
    ok, k = env.crypto.shared(se.pub, c.enc.sec)
    env.assume(ok)
    m2 = wire_m2(1, se.pub)
    c.tr.replies = [m2, lambda: wire_enc(env.crypto.box(wire_m3(3, ss.pub, sig1(env, c.m1(), m2, ss.sec)), nonce(2), k))]
    out = env.run(c.s.handshake())
    env.check('handshake completes', out.ok)
    return c, k


def completed_server(env, times=False):
    s = Server(env, times=times)
    ce, cs = enc_pair(env, 'client_enc'), sig_pair(env, 'client_sig')
    ok, k = env.crypto.shared(ce.pub, s.enc.sec)
    env.assume(ok)
    m1 = wire_m1(1, ce.pub)
    s.tr.replies = [m1, lambda: wire_enc(env.crypto.box(wire_m4(3, cs.pub, sig2(env, m1, s.tr.flat()[0], cs.sec)), nonce(1), k))]
    out = env.run(s.s.handshake())
    env.check('handshake completes', out.ok)
    return s, k


# ================================================================ C07: a whole session
@contract('C07', on=['AppChannelV2.write', 'AppChannelV2.read', 'EncryptedChannelV2.write'], samples=2)
def c07_session_history(env):
    """Any history of application reads and writes after a handshake continues the counters of the handshake."""
    client = env.bool('client')
    if client:
        p, k = completed_client(env)
        first_w, first_r = 3, 4
    else:
        p, k = completed_server(env)
        first_w, first_r = 4, 3
    tr, app = p.tr, p.s.app_channel
    box = env.crypto.box
    tr.recording = False
    w = r = 0
    for _ in env.times('history'):
        op = env.choice('op', ['write', 'fails', 'read', 'bad'])
        if op == 'write' or op == 'fails':
            m = env.bytes('h.msg')
            tr.fail_write = op == 'fails'
            out = env.run(app.write(m))
            tr.fail_write = False
            env.check('write result', out.ok == (op == 'write'))
            env.check('one frame with the next own counter', len(tr.seen[0]) == 1 and tr.seen[0][0] == wire_enc(box(wire_app(0, m), nonce(first_w + 2 * w), k)))
            w = w + 1
        elif op == 'read':
            m = env.bytes('h.in')
            tr.replies = [wire_enc(box(wire_app(0, m), nonce(first_r + 2 * r), k))]
            out = env.run(app.read())
            env.check('message delivered', out.ok and out.value == m)
            r = r + 1
        else:
            f = env.bytes('h.bad')
            ok, x = opened(env, f, first_r + 2 * r, k)
            env.assume(not ok)
            tr.replies = [f]
            out = env.run(app.read())
            env.check('refused', out.raised(bad_peer(env)))
    tr.recording = True
    tr.writes = []
    x, y = env.bytes('x', hi=65535), env.bytes('y', hi=65535)
    out = env.run(app.write(x, y))
    env.check('two messages in one packet under the next counter',
              tr.flat() == [wire_enc(box(wire_multi(env, 0, [x, y]), nonce(first_w + 2 * w), k))])


# ================================================================ C16: any number of application packets
@contract('C16', on=['AppChannelV2.write', 'AppChannelV2.read'], samples=2)
def c16_app_history(env):
    """Over any history every packet sent has the time the keeper gave for it and every time received is checked."""
    A = env.mod(AC)
    under = Plain(env)
    keeper, checker = Keeper(env), Checker(env)
    app = A.AppChannelV2(under, keeper, checker)
    under.recording = False
    for _ in env.times('history'):
        keeper.log = []
        checker.log = []
        checker.objects = None
        op = env.choice('op', ['write', 'write2', 'read', 'objected'])
        if op == 'write' or op == 'write2':
            m = env.bytes('m')
            if op == 'write':
                out = env.run(app.write(m))
            else:
                out = env.run(app.write(m, env.bytes('m2', hi=65535)))
            env.check('write succeeds', out.ok)
            now = [t for (kind, t) in keeper.log if kind == 'time']
            env.check('only the current time is asked for', len(now) == len(keeper.log))
            for p in under.seen[0]:
                env.check('packet has a time the keeper gave for this write', among(u32(p, 2), now))
        else:
            m = env.bytes('in')
            t = env.int('t', 0, 4294967295)
            under.replies = [wire_app(t, m)]
            if op == 'objected':
                checker.objects = 0
            out = env.run(app.read())
            env.check('its time is checked once', len(checker.log) == 1 and checker.log[0][0] == 'check' and checker.log[0][1] == t)
            env.check('delivered unless the checker objects', out.ok == (op == 'read'))
            if op == 'read':
                env.check('the message', out.value == m)


# ================================================================ C10: packets in any order
@contract('C10', on=['AppChannelV2.read', 'AppChannelV2.write'], samples=2)
def c10_interrupted(env):
    """A read or write that breaks off in the channel below, in any way, neither loses nor repeats other messages."""
    A = env.mod(AC)
    under = Transport(env)
    app = A.AppChannelV2(under, Keeper(env), Checker(env))
    x, y, z, w = env.bytes('x', hi=65535), env.bytes('y', hi=65535), env.bytes('z'), env.bytes('w')
    waiting = env.bool('waiting')
    if waiting:
        under.replies = [wire_multi(env, 1, [x, y])]
        out = env.run(app.read())
        env.check('first of two', out.ok and out.value == x)
    how = breaks(env)
    if env.bool('write'):
        under.fail_write = how
        env.check('failure is reported', not env.run(app.write(z)).ok)
        under.fail_write = False
    else:
        under.fail_read = how
        out = env.run(app.read())
        if waiting:
            env.check('second of two, without reading', out.ok and out.value == y)
            out = env.run(app.read())
        env.check('nothing is delivered', not out.ok)
        under.fail_read = None
        waiting = False
    under.writes = []
    under.replies = [wire_app(1, w)]
    if waiting:
        out = env.run(app.read())
        env.check('second of two', out.ok and out.value == y)
    out = env.run(app.read())
    env.check('the next message', out.ok and out.value == w)
    out = env.run(app.write(w))
    env.check('only the next message is sent', out.ok and len(under.writes) == 1 and len(under.writes[0][0]) == 1 and under.writes[0][0][0][6:] == w)


@contract('C10', on=['AppChannelV2.read'], samples=2)
def c10_read_history(env):
    """Any sequence of app, multi-app and bad packets."""
    A = env.mod(AC)
    under = Plain(env)
    checker = Checker(env)
    app = A.AppChannelV2(under, Keeper(env), checker)
    for _ in env.times('history'):
        checker.log = []
        op = env.choice('op', ['one', 'multi', 'multi1', 'bad'])
        x = env.bytes('x', hi=65535)
        t = env.int('t', 0, 4294967295)
        if op == 'one':
            under.replies = [wire_app(t, x)]
            env.check('the message', env.run(app.read()).value == x)
        elif op == 'multi1':
            under.replies = [wire_multi(env, t, [x])]
            env.check('the only message', env.run(app.read()).value == x)
        elif op == 'multi':
            y = env.bytes('y', hi=65535)
            under.replies = [wire_multi(env, t, [x, y])]
            env.check('first', env.run(app.read()).value == x)
            env.check('second', env.run(app.read()).value == y)
        else:
            under.replies = [b'\x05\x00']
            env.check('refused', env.run(app.read()).raised(bad_peer(env)))
        env.check('no packet taken early or left', len(under.replies) == 0)


# ================================================================ C23
class Peer:
    """An honest server's side of one client handshake."""

    def __init__(self, env, name):
        self.env = env
        self.cenc, self.csig = enc_pair(env, name + '.client_enc'), sig_pair(env, name + '.client_sig')
        self.enc, self.sig = enc_pair(env, name + '.enc'), sig_pair(env, name + '.sig')
        self.keeper = Keeper(env, name + '.time')
        self.tr = Transport(env, pausing='read')
        ok, self.k = env.crypto.shared(self.enc.pub, self.cenc.sec)
        env.assume(ok)
        self.m2 = wire_m2(1, self.enc.pub)
        self.tr.replies = [self.m2, self.m3]
        s = self.s = env.mod(CS).SaltClientSession(self.csig, self.tr)
        s.enc_keypair = self.cenc
        s.time_keeper = self.keeper

    def m3(self):
        return wire_enc(self.env.crypto.box(wire_m3(3, self.sig.pub, sig1(self.env, self.tr.flat()[0], self.m2, self.sig.sec)), nonce(2), self.k))


@contract('C23', on=['SaltClientSession.__init__', 'SaltClientSession.handshake', 'AppChannelV2.write', 'EncryptedChannelV2.write'], samples=2)
def c23_two_clients(env):
    """Two client sessions with interleaved handshakes: each uses only its own keys, times, options and channel."""
    a, b = Peer(env, 'a'), Peer(env, 'b')
    a.s.wanted_server_sig_key = a.sig.pub
    b.s.buffer_M4 = True
    outs = env.interleave([a.s.handshake(), b.s.handshake()])
    env.check('both complete', outs[0].ok and outs[1].ok)
    sa, sb = a.tr.flat(), b.tr.flat()
    env.check('one sent M1 and M4, the other M1', len(sa) == 2 and len(sb) == 1)
    ta = [t for (kind, t) in a.keeper.log if kind == 'first']
    tb = [t for (kind, t) in b.keeper.log if kind == 'first']
    env.check('own M1 (wanting a server)', len(ta) == 1 and sa[0] == wire_m1(ta[0], a.cenc.pub, a.sig.pub))
    env.check('own M1 (any server)', len(tb) == 1 and sb[0] == wire_m1(tb[0], b.cenc.pub))
    env.check('own session keys', a.s.session_key == a.k and b.s.session_key == b.k)
    env.check('own peers', a.s.m3.ServerSigKey == a.sig.pub and b.s.m3.ServerSigKey == b.sig.pub)
    m, n = env.bytes('m'), env.bytes('n')
    outs = env.interleave([a.s.app_channel.write(m), b.s.app_channel.write(n)])
    env.check('both write', outs[0].ok and outs[1].ok)
    sa, sb = a.tr.flat(), b.tr.flat()
    env.check('three packets each', len(sa) == 3 and len(sb) == 3)
    oka, pa = opened(env, sa[2], 3, a.k)
    okb, pb = opened(env, sb[2], 3, b.k)
    env.check('own message under own key and counter', oka and pa[6:] == m and okb and pb[6:] == n)
    ok4, m4 = opened(env, sb[1], 1, b.k)
    env.check('own M4', ok4 and m4[6:38] == b.csig.pub)
    a.tr.replies = [wire_enc(env.crypto.box(wire_multi(env, 3, [b'1', b'2']), nonce(4), a.k))]
    b.tr.replies = [wire_enc(env.crypto.box(wire_app(3, b'3'), nonce(4), b.k), True)]
    outs = env.interleave([a.s.app_channel.read(), b.s.app_channel.read()])
    env.check('own messages', outs[0].value == b'1' and outs[1].value == b'3')
    env.check('own last marker', not a.s.app_channel.last and b.s.app_channel.last)


@contract('C23', on=['SaltServerSession.__init__', 'SaltServerSession.handshake'], samples=2)
def c23_two_servers(env):
    """A server configured with an A2 answer and options, and another one with the defaults."""
    ta, tb = Transport(env, pausing=True), Transport(env, pausing=True)
    siga, sigb = sig_pair(env, 'a.sig'), sig_pair(env, 'b.sig')
    enc, cenc, csig = enc_pair(env, 'b.enc'), enc_pair(env, 'client_enc'), sig_pair(env, 'client_sig')
    P = env.mod(AP)
    a = env.mod(SS).SaltServerSession(siga, ta)
    b = env.mod(SS).SaltServerSession(sigb, tb)
    a2 = P.A2Packet(case=P.A2Packet.Case.A2_DEFAUT)
    a2.Prot[0].P2 = env.mod('saltchannel.util').cbytes(b'ECHO------')
    a.a2 = a2
    a.buffer_m2 = True
    a.enc_keypair = enc_pair(env, 'a.enc')
    b.enc_keypair = enc
    ka = Keeper(env, 'a.time')
    a.time_keeper = ka
    ok, k = env.crypto.shared(cenc.pub, enc.sec)
    env.assume(ok)
    m1 = wire_m1(1, cenc.pub)
    ta.replies = [b'\x08\x00\x00\x00\x00']
    tb.replies = [m1, lambda: wire_enc(env.crypto.box(wire_m4(3, csig.pub, sig2(env, m1, tb.flat()[0], csig.sec)), nonce(1), k))]
    outs = env.interleave([a.handshake(), b.handshake()])
    env.check('both end', outs[0].ok and outs[1].ok)
    env.check('the configured answer', ta.flat() == [b'\x09\x80\x01SCv2------ECHO------'])
    env.check('the handshake is not ended by the other', a.is_done and not b.is_done and a.app_channel is None and b.app_channel is not None)
    env.check('M2 at once with the default time', len(tb.writes) == 2 and tb.flat()[0] == wire_m2(0, enc.pub))
    env.check('keys', b.session_key == k and b.client_sig_key == csig.pub)
    tc = Transport(env)
    c = env.mod(SS).SaltServerSession(sigb, tc)
    c.enc_keypair = enc
    tc.replies = [b'\x08\x00\x00\x00\x00']
    out = env.run(c.handshake())
    env.check('a later server answers with its own defaults', out.ok and tc.flat() == [b'\x09\x80\x01SCv2----------------'])
    env.check('a new server has no client', c.client_sig_key is None or c.client_sig_key == b'')


@contract('C23', on=['EncryptedChannelV2.__init__', 'EncryptedChannelV2.write', 'EncryptedChannelV2.read'], samples=2)
def c23_encrypted(env):
    """Whatever happens on one encrypted channel, another one counts its own nonces."""
    E = env.mod(EC)
    k1, k2 = env.bytes('key1', 32), env.bytes('key2', 32)
    ta, tb = Transport(env), Transport(env)
    a = E.EncryptedChannelV2(ta, k1, E.Role.CLIENT)
    b = E.EncryptedChannelV2(tb, k2, E.Role.CLIENT)
    ta.recording = False
    w = r = 0
    for _ in env.times('history'):
        m = env.bytes('h.msg')
        if env.bool('h.write'):
            env.run(a.write(m, is_last=True))
            env.check('own counter', ta.seen[0][0] == wire_enc(env.crypto.box(m, nonce(1 + 2 * w), k1), True))
            w = w + 1
        else:
            ta.replies = [wire_enc(env.crypto.box(m, nonce(2 + 2 * r), k1), True)]
            out = env.run(a.read())
            env.check('delivered', out.ok and out.value == m)
            r = r + 1
    x, y = env.bytes('x'), env.bytes('y')
    env.run(b.write(x))
    env.check('first own counter', tb.flat() == [wire_enc(env.crypto.box(x, nonce(1), k2))])
    tb.replies = [wire_enc(env.crypto.box(y, nonce(2), k2))]
    out = env.run(b.read())
    env.check('first counter of its peer', out.ok and out.value == y)
    env.check('own last marker', not b.last_flag)
    env.run(a.write(x))
    env.check('the other goes on counting', ta.seen[0][0] == wire_enc(env.crypto.box(x, nonce(1 + 2 * w), k1)))


@contract('C23', on=['TimeKeeper', 'TimeChecker'], samples=2)
def c23_time_keepers(env):
    """Time keepers and checkers an application defines belong to the session they are given to."""
    T = env.mod('saltchannel.util.time')

    class Ticking(T.TimeKeeper):
        def __init__(self):
            self.time = 0

        def get_first_time(self):
            self.time = 1
            return 1

        def get_time(self):
            self.time = self.time + 1
            return self.time

    class Recording(T.TimeChecker):
        def __init__(self):
            self.seen = None

        def report_first_time(self, time):
            self.seen = time

        def check_time(self, time):
            self.seen = time
    A = env.mod(AC)
    ua, ub = Plain(env), Plain(env)
    a = A.AppChannelV2(ua, Ticking(), Recording())
    ck = Recording()
    b = A.AppChannelV2(ub, Ticking(), ck)
    ua.recording = False
    n = 0
    for _ in env.times('history'):
        env.assume(n < 4294967295)
        env.run(a.write(b'x'))
        n = n + 1
        env.check('own time', ua.seen[0][0] == wire_app(n, b'x'))
    env.run(b.write(b'y'))
    env.check('the clock of the other does not matter', ub.writes[0][0][0] == wire_app(1, b'y'))
    ua.replies = [wire_app(7, b'z')]
    env.run(a.read())
    env.check('the checker of the other sees nothing', ck.seen is None)


@contract('C23', on=['A1ClientSession.__init__', 'M1Packet', 'MultiAppPacket', 'A2Packet'], samples=2)
def c23_packets(env):
    """Packets of one kind share nothing, and neither do two A1 clients."""
    V = env.mod('saltchannel.v2.packets')
    x, y = env.bytes('x', 32), env.bytes('y', 32)
    p, q = V.M1Packet(), V.M1Packet()
    p.ClientEncKey = x
    p.data.Header.ServerSigKeyIncluded = 1
    p.create_opt_fields()
    p.ServerSigKey = y
    p.data.Time = env.int('t', 0, 4294967295)
    q.ClientEncKey = y
    env.check('the second M1 has only its own fields', bytes(q) == wire_m1(0, y))
    env.check('the first M1 keeps its own', bytes(p)[10:] == x + y)
    m, n = V.MultiAppPacket(), V.MultiAppPacket()
    m.data.Count = 2
    m.create_opt_fields(msgs=[x, y])
    n.data.Count = 1
    n.create_opt_fields(msgs=[y])
    env.check('messages', bytes(m) == wire_multi(env, 0, [x, y]) and bytes(n) == wire_multi(env, 0, [y]))
    e, f = V.EncryptedPacket(), V.EncryptedPacket()
    e.Body = x
    e.data.Header.LastFlag = 1
    f.Body = y
    env.check('encrypted packets', bytes(f) == wire_enc(y) and bytes(e) == wire_enc(x, True))
    S = env.mod(A1S)
    ta, tb = Transport(env), Transport(env)
    a, b = S.A1ClientSession(ta), S.A1ClientSession(tb)
    a.a1.data.AddressType = 1
    a.a1.data.AddressSize = 32
    a.a1.Address = x
    tb.replies = [b'\x09\x80\x01SCv2------ECHO------']
    out = env.run(b.do_a1a2())
    env.check('the other asks for any address', out.ok and tb.flat() == [b'\x08\x00\x00\x00\x00'])
    env.check('only the one that asked has an answer', a.a2 is None and bytes(b.a2) == b'\x09\x80\x01SCv2------ECHO------')


@contract('C23', on=['SmartStructure.__init__'])
def c23_structures(env):
    """Values given to one structure are not the defaults of the next."""
    U = env.mod('saltchannel.util.packets')
    import ctypes

    class Two(U.SmartStructure):
        _fields_ = [('A', ctypes.c_uint8), ('B', ctypes.c_uint32)]
        _defaults_ = {'B': 7}
    a, b = env.int('a', 0, 255), env.int('b', 0, 4294967295)
    x = Two(A=a, B=b)
    env.check('given values', bytes(x) == le(a, 1) + le(b, 4))
    y = Two()
    env.check('defaults', bytes(y) == b'\x00\x07\x00\x00\x00')
    y.B = b
    env.check('still the defaults', bytes(Two(A=1)) == b'\x01\x07\x00\x00\x00')

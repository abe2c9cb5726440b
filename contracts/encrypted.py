"""C07-C10, C22: encrypted channel and application channel."""
from pv.spec import contract
from common import *

EC = 'saltchannel.v2.encrypted_channel_v2'
AC = 'saltchannel.v2.app_channel_v2'
V2 = 'saltchannel.v2.packets'


class Side:
    """An encrypted channel of an arbitrary role and key over an abstract transport, with its ghost counters."""

    def __init__(self, env, pausing=False, session=False):
        E = env.mod(EC)
        self.env = env
        self.key = env.bytes('key', 32)
        self.client = env.bool('client')
        self.tr = Transport(env, pausing=pausing)
        role = E.Role.CLIENT if self.client else E.Role.SERVER
        self.first_w = 1 if self.client else 2
        self.first_r = 2 if self.client else 1
        if session:
            self.session = env.bytes('session_nonce', 8)
            self.ch = E.EncryptedChannelV2(self.tr, self.key, role, session_nonce=self.session)
        else:
            self.session = bytes(8)
            self.ch = E.EncryptedChannelV2(self.tr, self.key, role)
        self.w = 0          # messages encrypted so far
        self.r = 0          # messages accepted so far

    def own(self, k, m, last=False):
        """The frame this side must send as its k-th message (from 0)."""
        return wire_enc(self.env.crypto.box(m, nonce(self.first_w + 2 * k, self.session), self.key), last)

    def peer(self, k, m, last=False):
        """The frame the peer sends as its k-th message (from 0)."""
        return wire_enc(self.env.crypto.box(m, nonce(self.first_r + 2 * k, self.session), self.key), last)

    def history(self, failing=True):
        """An arbitrary history of operations on the channel; every frame sent is checked."""
        env, tr, ch = self.env, self.tr, self.ch
        tr.recording = False
        for _ in env.times('history'):
            op = env.choice('op', ['write', 'write2', 'write_fails', 'read', 'read_bad', 'read_fails'])
            if op == 'write' or op == 'write_fails':
                m = env.bytes('h.msg')
                tr.fail_write = op == 'write_fails'
                out = env.run(ch.write(m, is_last=env.bool('h.last')))
                tr.fail_write = False
                env.check('write result', out.ok == (op == 'write'))
                env.check('frame body uses the next own counter', tr.seen[0][0][2:] == self.own(self.w, m)[2:])
                self.w = self.w + 1
            elif op == 'write2':
                m = env.bytes('h.msg')
                m2 = env.bytes('h.msg2')
                out = env.run(ch.write(m, m2))
                env.check('write result', out.ok)
                env.check('first frame uses the next own counter', tr.seen[0][0] == self.own(self.w, m))
                env.check('second frame uses the counter after', tr.seen[0][1] == self.own(self.w + 1, m2))
                self.w = self.w + 2
            elif op == 'read':
                m = env.bytes('h.in')
                tr.replies = [self.peer(self.r, m)]
                out = env.run(ch.read())
                env.check('authentic message delivered', out.ok and out.value == m)
                self.r = self.r + 1
            elif op == 'read_bad':
                f = env.bytes('h.bad', hint=lambda: self.peer(self.r + env.rng.randrange(-1, 2), b'abc') if self.r else self.own(self.w, b'x'))
                env.assume(not self.authentic(f))
                tr.replies = [f]
                out = env.run(ch.read())
                env.check('bad frame raises BadPeer', out.raised(bad_peer(env)))
            else:
                tr.replies = []
                out = env.run(ch.read())
                env.check('failing transport raises', out.raised(family(env)))
        tr.replies = []
        tr.recording = True

    def authentic(self, f):
        if len(f) < 18:
            return False
        if f[0] != 6:
            return False
        ok, m = self.env.crypto.box_open(f[2:], nonce(self.first_r + 2 * self.r, self.session), self.key)
        return ok


# ================================================================ C07
@contract('C07', on=['EncryptedChannelV2.write', 'EncryptedChannelV2.read', 'Nonce.advance', 'Nonce.__bytes__'], samples=2)
def c07_history(env):
    s = Side(env, session=True)
    s.history()
    m = env.bytes('msg')
    rest = env.bytes_list('more', 0, None)
    out = env.run(s.ch.write(m, *rest))
    env.check('write succeeds', out.ok)
    env.check('one write', len(s.tr.writes) == 1)
    frames = s.tr.writes[0][0]
    env.check('one frame per message', len(frames) == 1 + len(rest))
    env.check('first frame has the next own counter', frames[0] == s.own(s.w, m))
    env.forall('k-th frame has the k-th own counter', rest, lambda j, x: frames[1 + j] == s.own(s.w + 1 + j, x))
    m2 = env.bytes('msg2')
    out = env.run(s.ch.write(m2))
    env.check('next write succeeds', out.ok)
    env.check('next write continues the count', s.tr.writes[1][0][0] == s.own(s.w + 1 + len(rest), m2))


@contract('C07', on=['EncryptedChannelV2.write'], samples=2)
def c07_failed_write(env):
    """A write of many messages that fails in the transport still uses up its counters."""
    s = Side(env)
    m = env.bytes('msg')
    rest = env.bytes_list('more', 0, None)
    s.tr.fail_write = breaks(env)
    out = env.run(s.ch.write(m, *rest))
    env.check('failure is reported', not out.ok)
    frames = s.tr.writes[0][0]
    env.check('first frame', frames[0] == s.own(0, m))
    env.forall('frames', rest, lambda j, x: frames[1 + j] == s.own(1 + j, x))
    s.tr.fail_write = False
    m2 = env.bytes('msg2')
    out = env.run(s.ch.write(m2))
    env.check('next write succeeds', out.ok)
    env.check('no counter is used again', s.tr.writes[1][0][0] == s.own(1 + len(rest), m2))


@contract('C07', on=['EncryptedChannelV2.write', 'EncryptedChannelV2.read'], samples=2)
def c07_concurrent(env):
    """Concurrent tasks: every interleaving at the suspension points of the transport."""
    s = Side(env, pausing=True)
    a, a2, b, c = env.bytes('a'), env.bytes('a2'), env.bytes('b'), env.bytes('c')
    s.tr.replies = [s.peer(0, c)]
    outs = env.interleave([s.ch.write(a, a2), s.ch.write(b), s.ch.read()])
    env.check('all succeed', outs[0].ok and outs[1].ok and outs[2].ok)
    env.check('the message read', outs[2].value == c)
    env.check('two writes', len(s.tr.writes) == 2)
    if len(s.tr.writes[0][0]) == 2:
        env.check('a first', s.tr.writes[0][0][0] == s.own(0, a) and s.tr.writes[0][0][1] == s.own(1, a2))
        env.check('then b', s.tr.writes[1][0][0] == s.own(2, b))
    else:
        env.check('b first', s.tr.writes[0][0][0] == s.own(0, b))
        env.check('then a', s.tr.writes[1][0][0] == s.own(1, a) and s.tr.writes[1][0][1] == s.own(2, a2))
    d = env.bytes('d')
    outs = env.interleave([s.ch.write(d)])
    env.check('count continues', s.tr.writes[2][0][0] == s.own(3, d))


@contract('C07', on=['Nonce.__bytes__', 'EncryptedChannelV2.__init__'])
def c07_sides_disjoint(env):
    """Client and server counters never meet: odd and even."""
    E = env.mod(EC)
    key = env.bytes('key', 32)
    ta, tb = Transport(env), Transport(env)
    a = E.EncryptedChannelV2(ta, key, E.Role.CLIENT)
    b = E.EncryptedChannelV2(tb, key, E.Role.SERVER)
    m, n = env.bytes('m'), env.bytes('n')
    env.run(a.write(m, n))
    env.run(b.write(m, n))
    box = env.crypto.box
    env.check('client', ta.writes[0][0][0] == wire_enc(box(m, nonce(1), key)) and ta.writes[0][0][1] == wire_enc(box(n, nonce(3), key)))
    env.check('server', tb.writes[0][0][0] == wire_enc(box(m, nonce(2), key)) and tb.writes[0][0][1] == wire_enc(box(n, nonce(4), key)))


# ================================================================ C08
@contract('C08', covers=['delivered', 'rejected'], on=['EncryptedChannelV2.read', 'EncryptedChannelV2.decrypt', 'EncryptedChannelV2.unwrap'], samples=3)
def c08_any_frame(env):
    """At any point of any history, any frame: delivered iff authentic for the next counter."""
    s = Side(env, session=True)
    s.history()
    f = env.bytes('frame', hint=lambda: env.rng.choice([s.peer(s.r, env.rng.randbytes(env.rng.randrange(40))), s.peer(s.r + 1, b'later'), s.own(s.w, b'mine'), s.peer(max(s.r - 1, 0), b'old')]))
    s.tr.replies = [f]
    out = env.run(s.ch.read())
    ok = False
    m = b''
    if len(f) >= 18:
        if f[0] == 6:
            ok, m = env.crypto.box_open(f[2:], nonce(s.first_r + 2 * s.r, s.session), s.key)
    if ok:
        env.cover('delivered')
        env.check('authentic frame delivered', out.ok and out.value == m)
        s.r = s.r + 1
    else:
        env.cover('rejected')
        env.check('any other frame raises BadPeer', out.raised(bad_peer(env)))
    nxt = env.bytes('next')
    s.tr.replies = [s.peer(s.r, nxt)]
    out = env.run(s.ch.read())
    env.check('still expects the right next message', out.ok and out.value == nxt)
    env.check('reading sends nothing', len(s.tr.writes) == 0)


@contract('C08', on=['EncryptedChannelV2.read'], samples=2)
def c08_interrupted(env):
    """A read that breaks off in the channel below, in any way, changes nothing."""
    s = Side(env)
    s.history()
    s.tr.fail_read = breaks(env)
    out = env.run(s.ch.read())
    env.check('nothing is delivered', not out.ok)
    s.tr.fail_read = None
    m = env.bytes('next')
    s.tr.replies = [s.peer(s.r, m)]
    out = env.run(s.ch.read())
    env.check('still expects the right next message', out.ok and out.value == m)
    m = env.bytes('written')
    s.tr.recording = True
    out = env.run(s.ch.write(m))
    env.check('and sends with the right counter', out.ok and s.tr.writes[-1][0][0] == s.own(s.w, m))


@contract('C08', on=['EncryptedChannelV2.read'])
def c08_empty(env):
    s = Side(env)
    s.tr.replies = [b'']
    out = env.run(s.ch.read())
    env.check('empty frame raises BadPeer', out.raised(bad_peer(env)))


@contract('C08', on=['EncryptedChannelV2.read', 'EncryptedChannelV2.write'], samples=2)
def c08_end_to_end(env):
    """What one side writes (any number of messages) the other side reads, in order."""
    E = env.mod(EC)
    key = env.bytes('key', 32)
    client = env.bool('client')
    ta, tb = Transport(env), Transport(env)
    a = E.EncryptedChannelV2(ta, key, E.Role.CLIENT if client else E.Role.SERVER)
    b = E.EncryptedChannelV2(tb, key, E.Role.SERVER if client else E.Role.CLIENT)
    msgs = env.bytes_list('msgs', 1, None)
    out = env.run(a.write(*msgs, is_last=env.bool('last')))
    env.check('write succeeds', out.ok)
    frames = ta.writes[0][0]
    env.check('one frame per message', len(frames) == len(msgs))
    for i in range(len(msgs)):
        tb.replies = [frames[i]]
        got = env.run(b.read())
        env.check('message arrives unchanged, in order', got.ok and got.value == msgs[i])


@contract('C08', on=['EncryptedChannelV2.__init__'])
def c08_key_size(env):
    E = env.mod(EC)
    key = env.bytes('key', hi=100)
    out = env.call(E.EncryptedChannelV2, Transport(env), key, E.Role.CLIENT)
    env.check('session key must be 32 bytes', out.ok == (len(key) == 32))


# ================================================================ C09
@contract('C09', on=['EncryptedChannelV2.write', 'EncryptedChannelV2.wrap'], samples=2)
def c09_write(env):
    s = Side(env)
    msgs = env.bytes_list('msgs', 1, None)
    last = env.bool('last')
    out = env.run(s.ch.write(*msgs, is_last=last))
    env.check('write succeeds', out.ok)
    env.check('one write', len(s.tr.writes) == 1)
    frames, marked = s.tr.writes[0]
    env.check('marking is passed on', marked == last)
    env.check('one frame per message', len(frames) == len(msgs))
    env.forall('only the final packet carries the flag', frames,
               lambda j, f: f[1] == (128 if (last and j == len(msgs) - 1) else 0))
    m2 = env.bytes('msg2')
    last2 = env.bool('last2')
    env.run(s.ch.write(m2, is_last=last2))
    env.check('next write', s.tr.writes[1][0][0][1] == (128 if last2 else 0) and s.tr.writes[1][1] == last2)


@contract('C09', on=['AppChannelV2.write'], samples=2)
def c09_app_write(env):
    """An application write over the encrypted channel: exactly the final packet carries the flag."""
    s = Side(env)
    A = env.mod(AC)
    app = A.AppChannelV2(s.ch, Keeper(env), Checker(env))
    msgs = env.bytes_list('msgs', 1, None)
    last = env.bool('last')
    buffered = env.bool('buffered_m4')
    if buffered:
        m4 = env.mod(V2).M4Packet()
        app.buffered_m4 = m4
    out = env.run(app.write(*msgs, is_last=last))
    env.check('write succeeds', out.ok)
    env.check('one write', len(s.tr.writes) == 1)
    frames, marked = s.tr.writes[0]
    env.check('marking is passed on', marked == last)
    env.forall('only the final packet carries the flag', frames,
               lambda j, f: f[1] == (128 if (last and j == len(frames) - 1) else 0))


@contract('C09', on=['EncryptedChannelV2.unwrap', 'AppChannelV2.last'], samples=2)
def c09_read(env):
    s = Side(env)
    A = env.mod(AC)
    app = A.AppChannelV2(s.ch, Keeper(env), Checker(env))
    for _ in env.times('earlier'):
        flag = env.bool('flag')
        s.tr.replies = [s.peer(s.r, wire_app(0, env.bytes('in')), flag)]
        out = env.run(app.read())
        env.check('read succeeds', out.ok)
        env.check('last indication of the packet just read', app.last == flag)
        env.check('last indication of the encrypted channel', s.ch.last_flag == flag)
        s.r = s.r + 1
    flags = env.int('flags', 0, 255)
    body = env.crypto.box(wire_app(0, env.bytes('data')), nonce(s.first_r + 2 * s.r), s.key)
    s.tr.replies = [b'\x06' + le(flags, 1) + body]
    out = env.run(app.read())
    env.check('read succeeds', out.ok)
    env.check('last indication equals the flag bit', app.last == (flags >= 128))


@contract('C09', on=['AppChannelV2.last', 'AppChannelV2.read'], samples=2)
def c09_app_multi(env):
    """The messages of a multi-app packet: the indication is that of the packet, for each of them."""
    s = Side(env)
    app = env.mod(AC).AppChannelV2(s.ch, Keeper(env), Checker(env))
    a, b = env.bytes('a', hi=65535), env.bytes('b', hi=65535)
    flag, flag2 = env.bool('flag'), env.bool('flag2')
    s.tr.replies = [s.peer(s.r, wire_multi(env, 0, [a, b]), flag), s.peer(s.r + 1, wire_app(0, env.bytes('c')), flag2)]
    for want in [flag, flag, flag2]:
        out = env.run(app.read())
        env.check('read succeeds', out.ok)
        env.check('last indication of the packet the message came in', app.last == want)


@contract('C09', on=['EncryptedChannelV2.read', 'EncryptedChannelV2.unwrap'], samples=2)
def c09_read_any(env):
    """Packets with any content, also none."""
    s = Side(env)
    for _ in env.times('earlier'):
        flag = env.bool('flag')
        s.tr.replies = [s.peer(s.r, env.bytes('in'), flag)]
        out = env.run(s.ch.read())
        env.check('read succeeds', out.ok)
        env.check('last indication of the packet just read', s.ch.last_flag == flag)
        s.r = s.r + 1


# ================================================================ C10
class Plain(StandIn):
    """An abstract channel under the application channel."""

    def __init__(self, env):
        self.env = env
        self.writes = []
        self.replies = []
        self.last_flag = False
        self.recording = True
        self.seen = None

    async def read(self):
        if not self.replies:
            raise self.env.mod('saltchannel.exceptions').ComException('end of stream')
        return self.replies.pop(0)

    async def write(self, msg, *args, is_last=False):
        self.seen = ((msg,) + args, is_last)
        if self.recording:
            self.writes.append(self.seen)


@contract('C10', covers=['multi', 'single'], on=['AppChannelV2.write', 'MultiAppPacket.should_use'], samples=3)
def c10_write(env):
    A = env.mod(AC)
    under = Plain(env)
    keeper = Keeper(env)
    app = A.AppChannelV2(under, keeper, Checker(env))
    msgs = env.bytes_list('msgs', 1, None)
    out = env.run(app.write(*msgs))
    env.check('write succeeds', out.ok)
    env.check('one write', len(under.writes) == 1)
    packets = under.writes[0][0]
    too_long = env.some_list(msgs, lambda m: len(m) > 65535)
    if 2 <= len(msgs) and len(msgs) <= 65535 and not too_long:
        env.cover('multi')
        t = keeper.log[0][1]
        env.check('one multi-app packet', len(packets) == 1)
        env.check('exactly these messages', packets[0][:2] == b'\x0b\x00' and packets[0][6:] == wire_multi(env, 0, msgs)[6:])
    else:
        env.cover('single')
        env.check('one app packet per message', len(packets) == len(msgs))
        env.forall_pairs('exactly this message', packets, msgs, lambda j, p, m: p[:2] == b'\x05\x00' and p[6:] == m and len(p) == 6 + len(m))


@contract('C10', on=['AppChannelV2.write'])
def c10_write_again(env):
    """A second write is not affected by the first."""
    A = env.mod(AC)
    under = Plain(env)
    app = A.AppChannelV2(under, Keeper(env), Checker(env))
    under.recording = False
    for _ in env.times('earlier'):
        m0 = env.bytes('m0')
        if env.bool('two'):
            env.run(app.write(m0, env.bytes('m1')))
        else:
            env.run(app.write(m0))
    under.recording = True
    m = env.bytes('m')
    env.run(app.write(m))
    env.check('one packet with this message', len(under.writes) == 1 and len(under.writes[0][0]) == 1 and under.writes[0][0][0][6:] == m)


@contract('C10', on=['AppChannelV2.read'], samples=3)
def c10_read(env):
    """Reads drain a multi-app packet of any number of messages before the next packet is taken."""
    A = env.mod(AC)
    under = Plain(env)
    app = A.AppChannelV2(under, Keeper(env), Checker(env))
    for _ in env.times('earlier'):
        d0 = env.bytes('d0')
        under.replies = [wire_app(1, d0)]
        out = env.run(app.read())
        env.check('single message', out.ok and out.value == d0)
    msgs = env.bytes_list('msgs', 1, 65535, 65535)
    tail = env.bytes('tail')
    t = env.int('time', 0, 4294967295)
    under.replies = [wire_multi(env, t, msgs), wire_app(t, tail)]
    for i in range(len(msgs)):
        out = env.run(app.read())
        env.check('message of the multi-app packet, in order', out.ok and out.value == msgs[i])
    env.check('next packet not taken early', len(under.replies) == 1)
    out = env.run(app.read())
    env.check('then the next packet', out.ok and out.value == tail)
    out = env.run(app.read())
    env.check('nothing is delivered twice', out.raised(family(env)))


@contract('C10', on=['AppChannelV2.read', 'AppChannelV2.__init__'])
def c10_two_channels(env):
    A = env.mod(AC)
    ua, ub = Plain(env), Plain(env)
    a = A.AppChannelV2(ua, Keeper(env), Checker(env))
    b = A.AppChannelV2(ub, Keeper(env), Checker(env))
    x, y, z = env.bytes('x', hi=65535), env.bytes('y', hi=65535), env.bytes('z')
    ua.replies = [wire_multi(env, 1, [x, y])]
    ub.replies = [wire_app(1, z)]
    env.check('first of a', env.run(a.read()).value == x)
    env.check('b reads its own', env.run(b.read()).value == z)
    env.check('second of a', env.run(a.read()).value == y)


@contract('C10', on=['AppChannelV2.read', 'AppChannelV2.write'], samples=2)
def c10_end_to_end(env):
    """Whatever list is written in one call is what reads return (over the real codec)."""
    A = env.mod(AC)
    ua, ub = Plain(env), Plain(env)
    a = A.AppChannelV2(ua, Keeper(env), Checker(env))
    b = A.AppChannelV2(ub, Keeper(env), Checker(env))
    msgs = env.bytes_list('msgs', 1, None)
    env.check('write succeeds', env.run(a.write(*msgs)).ok)
    ub.replies = list(ua.writes[0][0])
    for i in range(len(msgs)):
        out = env.run(b.read())
        env.check('message unchanged, in order', out.ok and out.value == msgs[i])
    env.check('nothing left', env.run(b.read()).raised(family(env)))


# ================================================================ C22 (application channel part)
class Clock:
    """A time keeper with one arbitrary time."""

    def __init__(self, t):
        self.t = t

    def get_first_time(self):
        return 1

    def get_time(self):
        return self.t


def deferring(env, under, t):
    """An application channel with a deferred M4, and what that M4 has to look like on the wire."""
    app = env.mod(AC).AppChannelV2(under, Clock(t), Checker(env))
    m4 = env.mod(V2).M4Packet()
    key = env.bytes('key', 32)
    sig = env.bytes('sig', 64)
    m4.ClientSigKey = key
    m4.Signature2 = sig
    app.buffered_m4 = m4
    return app, wire_m4(t, key, sig)


@contract('C22', on=['AppChannelV2.write'], samples=2)
def c22_buffered_m4(env):
    """The first write, of any messages, marked last or not, puts M4 in front of what it would send anyway."""
    t = env.int('t', 0, 4294967295)
    under = Plain(env)
    app, m4 = deferring(env, under, t)
    last = env.bool('last')
    msgs = env.bytes_list('msgs', 1, None)
    env.check('nothing yet', len(under.writes) == 0)
    out = env.run(app.write(*msgs, is_last=last))
    env.check('write succeeds', out.ok)
    env.check('one write', len(under.writes) == 1)
    ps = under.writes[0][0]
    env.check('M4 first', ps[0] == m4)
    env.check('last marking', under.writes[0][1] == last)
    if len(ps) == 2 and ps[1][0] == 11:
        env.check('then the application data in one packet', ps[1] == wire_multi(env, t, msgs))
    else:
        env.check('then the application data', len(ps) == len(msgs) + 1)
        env.forall('each message in its own packet', msgs, lambda j, m: ps[1 + j] == wire_app(t, m))
    under.recording = False
    for _ in env.times('later'):
        m = env.bytes('m')
        env.run(app.write(m))
        env.check('never again', len(under.seen[0]) == 1 and under.seen[0][0] == wire_app(t, m))


@contract('C22', on=['AppChannelV2.write'], samples=2)
def c22_concurrent(env):
    """Concurrent first writes, any interleaving; and a later one."""
    t = env.int('t', 0, 4294967295)
    under = Transport(env, pausing=True)
    app, m4 = deferring(env, under, t)
    a, b, c = env.bytes('a'), env.bytes('b'), env.bytes('c')
    outs = env.interleave([app.write(a), app.write(b)])
    env.check('both succeed', outs[0].ok and outs[1].ok)
    sent = under.flat()
    x, y = wire_app(t, a), wire_app(t, b)
    env.check('M4 once and first', sent == [m4, x, y] or sent == [m4, y, x])
    outs = env.interleave([app.write(c)])
    env.check('never again', under.flat()[3:] == [wire_app(t, c)])


@contract('C22', on=['AppChannelV2.write'], samples=2)
def c22_failed_write(env):
    """The first write fails in the channel after M4 was handed to it."""
    t = env.int('t', 0, 4294967295)
    under = Transport(env, fail_write=breaks(env))
    app, m4 = deferring(env, under, t)
    a, b = env.bytes('a'), env.bytes('b')
    out = env.run(app.write(a))
    env.check('failure is reported', not out.ok)
    env.check('M4 first', under.flat() == [m4, wire_app(t, a)])
    under.fail_write = False
    out = env.run(app.write(b))
    env.check('never again', out.ok and under.flat()[2:] == [wire_app(t, b)])

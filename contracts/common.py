"""Specification vocabulary and abstract environments used by the contracts."""

import asyncio


class StandIn:
    """Base of the specification objects given to the code.  Where the code uses a part of the real interface that the
    object does not specify, the contract says nothing about that run (it becomes undecided; it never fails for that)."""
    env = None
    kind = 'channel'

    def __getattr__(self, name):
        if self.env is not None:
            self.env.outside(self.kind, name)
        raise AttributeError(name)


def le(n, width):
    """Little-endian encoding of a natural number."""
    return n.to_bytes(width, 'little')


def u16(b, off):
    return b[off] + 256 * b[off + 1]


def u32(b, off):
    return b[off] + 256 * b[off + 1] + 65536 * b[off + 2] + 16777216 * b[off + 3]


def family(env):
    """The library's communication-exception family."""
    return env.mod('saltchannel.exceptions').ComException


def bad_peer(env):
    return env.mod('saltchannel.exceptions').BadPeer


# ---- wire formats (from the Salt Channel v2 specification) ------------------------------------------
def wire_m1(time, enc_key, server_key=None):
    head = b'SCv2\x01' + (b'\x00' if server_key is None else b'\x01')
    return head + le(time, 4) + enc_key + (b'' if server_key is None else server_key)


def wire_m2(time, enc_key, no_such_server=False):
    return b'\x02' + (b'\x81' if no_such_server else b'\x00') + le(time, 4) + enc_key


def wire_m3(time, sig_key, signature):
    return b'\x03\x00' + le(time, 4) + sig_key + signature


def wire_m4(time, sig_key, signature):
    return b'\x04\x00' + le(time, 4) + sig_key + signature


def wire_enc(body, last=False):
    return b'\x06' + (b'\x80' if last else b'\x00') + body


def wire_app(time, data):
    return b'\x05\x00' + le(time, 4) + data


def wire_multi(env, time, msgs):
    return b'\x0b\x00' + le(time, 4) + le(len(msgs), 2) + env.concat_map(msgs, lambda m: le(len(m), 2) + m)


def spec_multi(src):
    """Reference parser of a multi-app packet: None, or (messages, end of the packet)."""
    if len(src) < 8:
        return None
    if src[0] != 11:
        return None
    n = u16(src, 6)
    if n == 0:
        return None
    msgs = []
    off = 8
    i = 0
    while i < n:
        if len(src) < off + 2:
            return None
        size = u16(src, off)
        if len(src) < off + 2 + size:
            return None
        msgs.append(src[off + 2:off + 2 + size])
        off = off + 2 + size
        i = i + 1
    return (msgs, off)


# ---- nonces --------------------------------------------------------------------------------------------
def nonce(counter, session=bytes(8)):
    return le(counter, 8) + session + bytes(8)


SIG1 = b'SC-SIG01'
SIG2 = b'SC-SIG02'


# ---- abstract transports ---------------------------------------------------------------------------------
class Transport(StandIn):
    """An abstract message channel: records what is written, answers reads from a script."""

    def __init__(self, env, replies=(), fail_write=False, pausing=False):
        self.env = env
        self.replies = list(replies)
        self.writes = []            # (messages of one write, last marker)
        self.recording = True
        self.seen = None            # the latest write
        self.reads = 0
        self.fail_write = fail_write
        self.fail_read = None
        self.pausing = pausing
        self.last_flag = False

    async def read(self):
        if self.pausing:
            await self.env.pause()
        self.reads = self.reads + 1
        if self.fail_read is not None:
            raise self.fail_read('broken')
        if not self.replies:
            raise self.env.mod('saltchannel.exceptions').ComException('end of stream')
        r = self.replies.pop(0)
        if callable(r):
            r = r()
        return r

    async def write(self, msg, *args, is_last=False):
        self.seen = ((msg,) + args, is_last)
        if self.recording:
            self.writes.append(self.seen)
        if self.pausing == True:
            await self.env.pause()
        if self.fail_write:
            raise self.env.mod('saltchannel.exceptions').ComException('broken') if self.fail_write == True else self.fail_write('broken')

    def flat(self):
        out = []
        for (ms, last) in self.writes:
            for m in ms:
                out.append(m)
        return out


def breaks(env):
    """The ways in which an operation of the channel below can break off; cancellation of the task is one."""
    return env.choice('breaks', [env.mod('saltchannel.exceptions').ComException, OSError, ConnectionResetError, TimeoutError, EOFError, RuntimeError, asyncio.CancelledError])


class Keeper(StandIn):
    """A time keeper with arbitrary times."""
    kind = 'time'

    def __init__(self, env, name='keeper'):
        self.env, self.name = env, name
        self.log = []

    def get_first_time(self):
        t = self.env.int(self.name + '.first', 0, 1)
        self.log.append(('first', t))
        return t

    def get_time(self):
        t = self.env.int(self.name + '.time', 0, 4294967295)
        self.log.append(('time', t))
        return t


class Checker(StandIn):
    """A time checker that records what it is shown and objects to an arbitrary one."""
    kind = 'time'

    def __init__(self, env, name='checker', objects=None):
        self.env, self.name = env, name
        self.objects = objects            # index of the call that raises, or None
        self.log = []

    def _see(self, kind, t):
        self.log.append((kind, t))
        if self.objects is not None and len(self.log) - 1 == self.objects:
            raise self.env.mod('saltchannel.exceptions').TimeException('late')

    def report_first_time(self, t):
        self._see('first', t)

    def check_time(self, t):
        self._see('check', t)


# secrets whose public keys begin or end with zero bytes, white space and the like: inputs for the runs on the real code
ODD_SIG = (5, 16, 23, 23, 27, 44, 135, 411, 874, 24765, 64712, 64712)
ODD_ENC = (7, 7, 21, 37, 47, 142, 168, 316, 67550, 164902, 164902)


def odd(env, which):
    return lambda: env.rng.choice(which).to_bytes(4, 'big') * 8 if env.rng.random() < 0.3 else env.rng.randbytes(32)


def enc_pair(env, name):
    """An arbitrary encryption key pair."""
    kp = env.mod('saltchannel.util.key_pair')
    sec = env.bytes(name + '.sec', 32, hint=odd(env, ODD_ENC))
    return kp.KeyPair(sec=sec, pub=env.crypto.enc_pub(sec))


def sig_pair(env, name):
    """An arbitrary signature key pair."""
    kp = env.mod('saltchannel.util.key_pair')
    seed = env.bytes(name + '.seed', 32, hint=odd(env, ODD_SIG))
    pub, sec = env.crypto.sig_pair(seed)
    return kp.KeyPair(sec=sec, pub=pub)


class Pipe(StandIn):
    """One end of a faithful two-way message channel."""

    def __init__(self, env, inbox, outbox):
        self.env, self.inbox, self.outbox = env, inbox, outbox
        self.trace = []

    async def read(self):
        await self.env.wait(lambda: len(self.inbox) > 0)
        return self.inbox.pop(0)

    async def write(self, msg, *args, is_last=False):
        for m in (msg,) + args:
            self.outbox.append(m)
            self.trace.append(m)


def pipes(env):
    a, b = [], []
    return Pipe(env, a, b), Pipe(env, b, a)


def prot_char(c):
    return ((c >= 48) & (c <= 57)) | ((c >= 65) & (c <= 90)) | ((c >= 97) & (c <= 122)) | ((c >= 45) & (c <= 47)) | (c == 95)


def entry_ok(e):
    """The 20 characters of an A2 entry."""
    r = True
    for k in range(20):
        r = r & prot_char(e[k])
    return r


def a2_valid(src):
    """A2 as the protocol allows it: type, last flag, count, exactly that many entries of allowed characters."""
    want = len(src) >= 3 and src[0] == 9 and src[1] >= 128 and src[2] <= 127 and len(src) == 3 + 20 * src[2] and (src[1] % 2 == 0 or src[2] == 0)
    if want:
        i = 0
        while i < src[2]:
            if not entry_ok(src[3 + 20 * i:23 + 20 * i]):
                want = False
                break
            i = i + 1
    return want


def a2_example(r):
    if r.random() < 0.15:
        return bytes([9, r.choice([0, 1, 0x80, 0x81, 0xff]), r.choice([0, 0, 0, 1, 255])])
    n = r.choice([0, 1, 2, 2, 3, 126, 127, 128, 255])
    b = b'\x09\x80' + bytes([n]) + b'SCv2------ECHO------' * n
    if r.random() < 0.3 and n:
        i = r.randrange(3, len(b))
        if r.random() < 0.2:
            i -= (i - 3) % 10
            return b[:i] + bytes([r.choice([0, 32, 45, 255])]) * 10 + b[i + 10:]
        b = b[:i] + bytes([r.choice([45, 46, 47, 48, 57, 58, 64, 65, 90, 91, 95, 96, 97, 122, 123, 44, 10, 0, 200, 32])]) + b[i + 1:]
    return b

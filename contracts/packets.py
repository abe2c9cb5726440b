"""C01-C04: packet codecs."""
from pv.spec import contract
from common import *

V2 = 'saltchannel.v2.packets'
A = 'saltchannel.a1a2.packets'


# ================================================================ C01: wire layout
def make_m1(env):
    P = env.mod(V2)
    t = env.int('time', 0, 4294967295)
    key = env.bytes('enc_key', 32)
    inc = env.choice('server_key_included', [0, 1])
    p = P.M1Packet()
    p.data.Header.ServerSigKeyIncluded = inc
    p.create_opt_fields()
    p.data.Time = t
    p.ClientEncKey = key
    sk = None
    if inc:
        sk = env.bytes('server_key', 32)
        p.ServerSigKey = sk
    return P, p, t, key, sk


@contract('C01', on=['M1Packet.__bytes__', 'M1Packet.size'])
def c01_m1(env):
    P, p, t, key, sk = make_m1(env)
    exp = wire_m1(t, key, sk)
    env.check('M1 layout', bytes(p) == exp)
    env.check('M1 size', p.size == len(exp))


def make_m2(env):
    P = env.mod(V2)
    t = env.int('time', 0, 4294967295)
    key = env.bytes('enc_key', 32)
    p = P.M2Packet()
    nss = env.choice('no_such_server', [0, 1])
    last = env.choice('last', [0, 1])
    if nss:
        p.data.Header.NoSuchServer = 1
    if last:
        p.data.Header.LastFlag = 1
    p.data.Time = t
    p.ServerEncKey = key
    return P, p, t, key, nss, last


@contract('C01', on=['M2Packet.__bytes__', 'M2Packet.size'])
def c01_m2(env):
    P, p, t, key, nss, last = make_m2(env)
    flags = (1 if nss else 0) + (128 if (last or nss) else 0)
    exp = b'\x02' + bytes([flags]) + le(t, 4) + key
    env.check('M2 size', p.size == len(exp))
    env.check('M2 layout', bytes(p) == exp)


def make_m34(env, kind):
    P = env.mod(V2)
    t = env.int('time', 0, 4294967295)
    key = env.bytes('sig_key', 32)
    sig = env.bytes('signature', 64)
    if kind == 3:
        p = P.M3Packet()
        p.ServerSigKey = key
        p.Signature1 = sig
    else:
        p = P.M4Packet()
        p.ClientSigKey = key
        p.Signature2 = sig
    p.data.Time = t
    return P, p, t, key, sig


@contract('C01', on=['M3Packet', 'M4Packet', 'Packet.__bytes__', 'Packet.__setattr__', 'Packet.size'])
def c01_m3_m4(env):
    kind = env.choice('kind', [3, 4])
    P, p, t, key, sig = make_m34(env, kind)
    exp = bytes([kind, 0]) + le(t, 4) + key + sig
    env.check('M3/M4 layout', bytes(p) == exp)
    env.check('M3/M4 size', p.size == len(exp))


@contract('C01', on=['EncryptedPacket.__bytes__', 'EncryptedPacket.Body'])
def c01_encrypted(env):
    P = env.mod(V2)
    body = env.bytes('body')
    last = env.choice('last', [0, 1])
    p = P.EncryptedPacket()
    p.data.Header.LastFlag = last
    p.Body = body
    exp = wire_enc(body, last == 1)
    env.check('encrypted layout', bytes(p) == exp)
    env.check('encrypted size', p.size == len(exp))


@contract('C01', on=['AppPacket.__bytes__', 'AppPacket.Data'])
def c01_app(env):
    P = env.mod(V2)
    data = env.bytes('data')
    t = env.int('time', 0, 4294967295)
    p = P.AppPacket()
    p.data.Time = t
    p.Data = data
    exp = wire_app(t, data)
    env.check('app layout', bytes(p) == exp)
    env.check('app size', p.size == len(exp))
    data2 = env.bytes('data2')
    p.Data = data2
    env.check('app layout after the payload is replaced', bytes(p) == wire_app(t, data2))


@contract('C01', on=['MultiAppPacket.__bytes__', 'MultiAppPacket._opt_factory'])
def c01_multi(env):
    P = env.mod(V2)
    t = env.int('time', 0, 4294967295)
    msgs = env.bytes_list('msgs', 1, 65535, 65535)
    p = P.MultiAppPacket()
    p.data.Time = t
    p.data.Count = len(msgs)
    p.create_opt_fields(msgs=msgs)
    exp = wire_multi(env, t, msgs)
    env.check('multi-app layout', bytes(p) == exp)
    env.check('multi-app size', p.size == len(exp))


@contract('C01', on=['A1Packet.__bytes__'])
def c01_a1(env):
    P = env.mod(A)
    p = P.A1Packet()
    if env.bool('pubkey'):
        adr = env.bytes('address', 32)
        p.data.AddressType = P.A1Packet.ADDRESS_TYPE_PUBKEY
        p.data.AddressSize = 32
        p.create_opt_fields()
        p.Address = adr
        exp = b'\x08\x00\x01\x20\x00' + adr
    else:
        exp = b'\x08\x00\x00\x00\x00'
    env.check('A1 layout', bytes(p) == exp)
    env.check('A1 size', p.size == len(exp))


@contract('C01', on=['A1Packet.__bytes__'])
def c01_a1_any_address(env):
    P = env.mod(A)
    kind = env.int('type', 0, 255)
    adr = env.bytes('address', lo=0, hi=65535)
    p = P.A1Packet()
    p.data.AddressType = kind
    p.data.AddressSize = len(adr)
    p.Address = adr
    exp = b'\x08\x00' + le(kind, 1) + le(len(adr), 2) + adr
    env.check('A1 layout', bytes(p) == exp)
    env.check('A1 size', p.size == len(exp))


@contract('C01', on=['A2Packet.__init__', 'A2Packet.__bytes__', 'A2Packet.Prot'])
def c01_a2(env):
    P = env.mod(A)
    kind = env.choice('kind', ['none', 'nss', 'default', 'one', 'list', 'assigned'])
    if kind == 'nss':
        p = P.A2Packet(case=P.A2Packet.Case.A2_NO_SUCH_SERVER)
        exp = b'\x09\x81\x00'
    elif kind == 'default':
        p = P.A2Packet(case=P.A2Packet.Case.A2_DEFAUT)
        exp = b'\x09\x80\x01SCv2----------------'
    elif kind == 'one':
        p = P.A2Packet(case=P.A2Packet.Case.A2_DEFAUT)
        p1 = env.bytes('p1', 10)
        p2 = env.bytes('p2', 10)
        p.Prot[0].P1 = env.mod('saltchannel.util').cbytes(p1)
        p.Prot[0].P2 = env.mod('saltchannel.util').cbytes(p2)
        exp = b'\x09\x80\x01' + p1 + p2
    elif kind == 'list':
        n = env.choice('n', [0, 1, 2, 3, 127])
        p = P.A2Packet()
        p.data.Count = n
        p.create_opt_fields(prot_count=n)
        k = env.choice('k', [0, 1, 2, 126])
        env.assume(k < n)
        p1 = env.bytes('p1', 10)
        p2 = env.bytes('p2', 10)
        p.Prot[k].P1 = env.mod('saltchannel.util').cbytes(p1)
        p.Prot[k].P2 = env.mod('saltchannel.util').cbytes(p2)
        exp = b'\x09\x80' + bytes([n]) + bytes(20 * k) + p1 + p2 + bytes(20 * (n - k - 1))
    elif kind == 'assigned':                                  # the entries of another packet, as they are or chosen from
        n = env.choice('n', [0, 1, 2, 3])
        src = P.A2Packet()
        src.data.Count = n
        src.create_opt_fields(prot_count=n)
        ps = []
        for k in range(n):
            src.Prot[k].P1 = env.mod('saltchannel.util').cbytes(env.bytes('p1_%d' % k, 10))
            src.Prot[k].P2 = env.mod('saltchannel.util').cbytes(env.bytes('p2_%d' % k, 10))
            ps.append(bytes(src.Prot[k].P1) + bytes(src.Prot[k].P2))
        p = P.A2Packet(case=P.A2Packet.Case.A2_DEFAUT) if env.choice('before', [False, True]) else P.A2Packet()
        p.data.Count = n
        p.Prot = src.Prot if env.choice('as', ['array', 'list']) == 'array' else [src.Prot[k] for k in range(n)]
        exp = b'\x09\x80' + bytes([n]) + b''.join(ps)
        if n:
            src.Prot[0].P1 = env.mod('saltchannel.util').cbytes(b'changed---')
    else:
        p = P.A2Packet()
        exp = b'\x09\x80\x00'
    env.check('A2 layout', bytes(p) == exp)
    env.check('A2 size', p.size == len(exp))


# ================================================================ C02: round trip
@contract('C02', on=['M1Packet.from_bytes'])
def c02_m1(env):
    P, p, t, key, sk = make_m1(env)
    raw = bytes(p)
    q = P.M1Packet(src_buf=raw)
    env.check('M1 time', q.data.Time == t)
    env.check('M1 key', q.ClientEncKey == key)
    env.check('M1 flag', q.data.Header.ServerSigKeyIncluded == (0 if sk is None else 1))
    env.check('M1 type', q.data.Header.PacketType == 1)
    if sk is not None:
        env.check('M1 server key', q.ServerSigKey == sk)
    env.check('M1 again', bytes(q) == raw)
    env.check('M1 size', q.size == len(raw))


@contract('C02', on=['M2Packet.from_bytes'])
def c02_m2(env):
    P, p, t, key, nss, last = make_m2(env)
    raw = bytes(p)
    q = P.M2Packet(src_buf=raw)
    env.check('M2 time', q.data.Time == t)
    env.check('M2 key', q.ServerEncKey == key)
    env.check('M2 flag', q.data.Header.NoSuchServer == nss)
    env.check('M2 last', q.data.Header.LastFlag == (1 if (last or nss) else 0))
    env.check('M2 again', bytes(q) == raw)


@contract('C02', on=['M3Packet.from_bytes', 'M4Packet.from_bytes'])
def c02_m3_m4(env):
    kind = env.choice('kind', [3, 4])
    P, p, t, key, sig = make_m34(env, kind)
    raw = bytes(p)
    q = (P.M3Packet if kind == 3 else P.M4Packet)(src_buf=raw)
    env.check('time', q.data.Time == t)
    if kind == 3:
        env.check('key', q.ServerSigKey == key)
        env.check('signature', q.Signature1 == sig)
    else:
        env.check('key', q.ClientSigKey == key)
        env.check('signature', q.Signature2 == sig)
    env.check('again', bytes(q) == raw)


@contract('C02', on=['EncryptedPacket.from_bytes', 'AppPacket.from_bytes'])
def c02_encrypted_app(env):
    P = env.mod(V2)
    if env.bool('encrypted'):
        body = env.bytes('body', lo=16)
        last = env.choice('last', [0, 1])
        p = P.EncryptedPacket()
        p.data.Header.LastFlag = last
        p.Body = body
        raw = bytes(p)
        q = P.EncryptedPacket(src_buf=raw)
        env.check('body', q.Body == body)
        env.check('last', q.data.Header.LastFlag == last)
    else:
        data = env.bytes('data')
        t = env.int('time', 0, 4294967295)
        p = P.AppPacket()
        p.data.Time = t
        p.Data = data
        raw = bytes(p)
        q = P.AppPacket(src_buf=raw)
        env.check('data', q.Data == data)
        env.check('time', q.data.Time == t)
    env.check('again', bytes(q) == raw)
    env.check('size', q.size == len(raw))


@contract('C02', on=['MultiAppPacket.from_bytes'])
def c02_multi(env):
    P = env.mod(V2)
    t = env.int('time', 0, 4294967295)
    msgs = env.bytes_list('msgs', 1, 65535, 65535)
    p = P.MultiAppPacket()
    p.data.Time = t
    p.data.Count = len(msgs)
    p.create_opt_fields(msgs=msgs)
    raw = bytes(p)
    q = P.MultiAppPacket(src_buf=raw)
    env.check('time', q.data.Time == t)
    env.check('count', q.data.Count == len(msgs))
    env.forall_pairs('messages', q.opt.Message, msgs, lambda j, a, b: a == b)
    env.check('again', bytes(q) == raw)


@contract('C02', on=['A1Packet.from_bytes', 'A2Packet.from_bytes'])
def c02_a1_a2(env):
    P = env.mod(A)
    kind = env.choice('kind', ['a1any', 'a1key', 'nss', 'default', 'one'])
    if kind == 'a1any' or kind == 'a1key':
        p = P.A1Packet()
        if kind == 'a1key':
            adr = env.bytes('address', 32)
            p.data.AddressType = 1
            p.data.AddressSize = 32
            p.create_opt_fields()
            p.Address = adr
        raw = bytes(p)
        q = P.A1Packet(src_buf=raw)
        env.check('A1 type', q.data.AddressType == (1 if kind == 'a1key' else 0))
        env.check('A1 address', q.Address == (adr if kind == 'a1key' else b''))
    else:
        if kind == 'nss':
            p = P.A2Packet(case=P.A2Packet.Case.A2_NO_SUCH_SERVER)
        else:
            p = P.A2Packet(case=P.A2Packet.Case.A2_DEFAUT)
        if kind == 'one':
            p.Prot[0].P2 = env.mod('saltchannel.util').cbytes(b'ECHO------')
        raw = bytes(p)
        q = P.A2Packet(src_buf=raw)
        env.check('A2 flag', q.data.Header.NoSuchServer == (1 if kind == 'nss' else 0))
        env.check('A2 count', q.data.Count == (0 if kind == 'nss' else 1))
        env.check('A2 entries', len(q.Prot) == (0 if kind == 'nss' else 1))
        if kind != 'nss':
            env.check('A2 P1', bytes(q.Prot[0].P1) == b'SCv2------')
            env.check('A2 P2', bytes(q.Prot[0].P2) == (b'ECHO------' if kind == 'one' else b'----------'))
    env.check('again', bytes(q) == raw)


def parsers(env):
    P = env.mod(V2)
    Q = env.mod(A)
    return {'M1': P.M1Packet, 'M2': P.M2Packet, 'M3': P.M3Packet, 'M4': P.M4Packet, 'enc': P.EncryptedPacket,
            'app': P.AppPacket, 'multi': P.MultiAppPacket, 'A1': Q.A1Packet, 'A2': Q.A2Packet}


KINDS = ['M1', 'M2', 'M3', 'M4', 'enc', 'app', 'A1']


def example(env, kind):
    def hint():
        k = bytes(range(32))
        r = env.rng
        if kind == 'multi':
            n = r.choice([1, 2, 3, 3, 4, 7, 300, 70000, 255, 256])
            if r.random() < 0.04:
                n = r.choice([32767, 32768, 40000, 65535])
            b = bytearray(b'\x0b\x00\x01\x00\x00\x00' + (n % 65536).to_bytes(2, 'little'))
            for i in range(n % 65536):
                m = r.randbytes(r.choice([0, 0, 1, 2, 5, 300]) if n < 100 else 0)
                b += len(m).to_bytes(2, 'little') + m
            if r.random() < 0.3:
                b = b[:r.randrange(len(b) + 1)]
            return bytes(b)
        if kind == 'A1':
            t = r.choice([0, 1, 1, 1, 2, 255])
            a = r.choice([b'', bytes(r.choice([1, 2, 32])), r.randbytes(r.choice([1, 32, 32, 300]))]) if t != 1 or r.random() < 0.4 else k
            return b'\x08\x00' + bytes([t]) + len(a).to_bytes(2, 'little') + a
        if kind == 'A2':
            return a2_example(r)
        return {'M1': wire_m1(1, k, k), 'M2': wire_m2(1, k), 'M3': wire_m3(5, k, k + k), 'M4': wire_m4(5, k, k + k),
                'enc': wire_enc(k), 'app': wire_app(9, k)}[kind]
    return hint


def fields(kind, p):
    """The values a user reads from a parsed packet."""
    if kind == 'M1':
        return [('Time', p.data.Time, 4), ('ClientEncKey', p.ClientEncKey, 32)]


@contract('C02', covers=['accepted'], on=['Packet.from_bytes', 'Packet.__bytes__', 'Packet.__getattr__'], samples=2)
def c02_parse_serialise(env):
    kind = env.choice('kind', KINDS)
    src = env.bytes('src', hint=example(env, kind))
    out = env.call(parsers(env)[kind], src_buf=src)
    if out.ok:
        env.cover('accepted')
        p = out.value
        size = p.size
        raw = bytes(p)
        env.check('size', size == len(raw))
        env.check('packet is a prefix of the input', len(raw) <= len(src))
        if kind == 'M2' and src[1] % 2 == 1:
            env.check('again', raw == src[:1] + bytes([src[1] | 128]) + src[2:38])
        else:
            env.check('again', raw == src[:len(raw)])
        if kind == 'M1':
            env.check('M1 length', len(raw) == (74 if src[5] % 2 == 1 else 42))
            env.check('time', p.data.Time == u32(src, 6))
            env.check('key', p.ClientEncKey == src[10:42])
            env.check('flag', p.data.Header.ServerSigKeyIncluded == src[5] % 2)
            if src[5] % 2 == 1:
                env.check('server key', p.ServerSigKey == src[42:74])
        elif kind == 'M2':
            env.check('M2 length', len(raw) == 38)
            env.check('time', p.data.Time == u32(src, 2))
            env.check('key', p.ServerEncKey == src[6:38])
            env.check('flag', p.data.Header.NoSuchServer == src[1] % 2)
            env.check('last', p.data.Header.LastFlag == (1 if src[1] % 2 == 1 else src[1] // 128))
        elif kind == 'M3':
            env.check('M3 length', len(raw) == 102)
            env.check('time', p.data.Time == u32(src, 2))
            env.check('key', p.ServerSigKey == src[6:38])
            env.check('signature', p.Signature1 == src[38:102])
        elif kind == 'M4':
            env.check('M4 length', len(raw) == 102)
            env.check('time', p.data.Time == u32(src, 2))
            env.check('key', p.ClientSigKey == src[6:38])
            env.check('signature', p.Signature2 == src[38:102])
        elif kind == 'enc':
            env.check('whole string', len(raw) == len(src))
            env.check('body', p.Body == src[2:])
            env.check('last', p.data.Header.LastFlag == src[1] // 128)
        elif kind == 'app':
            env.check('whole string', len(raw) == len(src))
            env.check('data', p.Data == src[6:])
            env.check('time', p.data.Time == u32(src, 2))
        elif kind == 'A1':
            env.check('whole string', len(raw) == len(src))
            env.check('address type', p.data.AddressType == src[2])
            env.check('address', p.Address == src[5:])


@contract('C02', covers=['accepted'], on=['MultiAppPacket.from_bytes', 'MultiAppPacket.__bytes__'], samples=2)
def c02_parse_serialise_multi(env):
    src = env.bytes('src', hint=example(env, 'multi'))
    out = env.call(parsers(env)['multi'], src_buf=src)
    if out.ok:
        env.cover('accepted')
        p = out.value
        want = spec_multi(src)
        env.check('a multi-app packet', want is not None)
        msgs, end = want
        env.check('time', p.data.Time == u32(src, 2))
        env.check('count', p.data.Count == u16(src, 6))
        env.forall_pairs('messages', p.opt.Message, msgs, lambda j, a, b: a == b)
        raw = bytes(p)
        env.check('length', len(raw) == end)
        env.check('again', raw == src[:end])


@contract('C02', covers=['accepted'], on=['A2Packet.from_bytes', 'A2Packet.__bytes__'], samples=2)
def c02_parse_serialise_a2(env):
    src = env.bytes('src', hint=example(env, 'A2'))
    out = env.call(parsers(env)['A2'], src_buf=src)
    if out.ok:
        env.cover('accepted')
        p = out.value
        env.check('again', bytes(p) == src)
        env.check('size', p.size == len(src))
        env.check('entries', len(p.Prot) * 20 + 3 == len(src))
        env.forall('entry', p.Prot, lambda j, x: bytes(x.P1) == src[3 + 20 * j:13 + 20 * j] and bytes(x.P2) == src[13 + 20 * j:23 + 20 * j])


# ================================================================ C03: v2 parsers accept exactly
def wellformed(kind, src):
    if kind == 'M1':
        return len(src) >= 42 and src[:4] == b'SCv2' and src[4] == 1 and (src[5] % 2 == 0 or len(src) >= 74)
    if kind == 'M2':
        return len(src) >= 38 and src[0] == 2
    if kind == 'M3':
        return len(src) >= 102 and src[0] == 3
    if kind == 'M4':
        return len(src) >= 102 and src[0] == 4
    if kind == 'enc':
        return len(src) >= 18 and src[0] == 6
    return len(src) >= 6 and src[0] == 5


@contract('C03', covers=['accepted', 'rejected'], on=['SmartStructure.from_bytes', 'Packet.from_bytes', 'Packet.validate'], samples=2)
def c03_fixed(env):
    kind = env.choice('kind', ['M1', 'M2', 'M3', 'M4', 'enc', 'app'])
    src = env.bytes('src', hint=example(env, kind))
    out = env.call(parsers(env)[kind], src_buf=src)
    want = wellformed(kind, src)
    if want:
        env.cover('accepted')
        env.check('well-formed packet accepted', out.ok)
    else:
        env.cover('rejected')
        env.check('malformed packet raises BadPeer', out.raised(bad_peer(env)))


@contract('C03', covers=['accepted', 'rejected'], on=['MultiAppPacket.from_bytes', 'MultiAppPacket.validate'], samples=2)
def c03_multi(env):
    src = env.bytes('src', hint=example(env, 'multi'))
    out = env.call(parsers(env)['multi'], src_buf=src)
    want = spec_multi(src)
    if want is not None:
        env.cover('accepted')
        env.check('well-formed packet accepted', out.ok)
    else:
        env.cover('rejected')
        env.check('malformed packet raises BadPeer', out.raised(bad_peer(env)))


# ================================================================ C04: A1/A2 parsers accept exactly
@contract('C04', covers=['accepted', 'rejected'], on=['A1Packet.from_bytes', 'A1Packet.validate'], samples=2)
def c04_a1(env):
    src = env.bytes('src', hint=example(env, 'A1'))
    out = env.call(parsers(env)['A1'], src_buf=src)
    want = (len(src) >= 5 and src[0] == 8 and u16(src, 3) == len(src) - 5
            and ((src[2] == 0 and len(src) == 5) or (src[2] == 1 and len(src) == 37)))
    if want:
        env.cover('accepted')
        env.check('valid A1 accepted', out.ok)
    else:
        env.cover('rejected')
        env.check('invalid A1 raises BadPeer', out.raised(bad_peer(env)))


@contract('C04', covers=['accepted', 'rejected'], on=['A2Packet.from_bytes', 'A2Packet.validate'], samples=2)
def c04_a2(env):
    src = env.bytes('src', hint=example(env, 'A2'))
    out = env.call(parsers(env)['A2'], src_buf=src)
    want = a2_valid(src)
    if want:
        env.cover('accepted')
        env.check('valid A2 accepted', out.ok)
    else:
        env.cover('rejected')
        env.check('invalid A2 raises BadPeer', out.raised(bad_peer(env)))

"""C18, C19: crypto back ends and their selection."""
from pv.spec import contract
from common import *

SL = 'saltchannel.saltlib.saltlib'
SX = 'saltchannel.saltlib.exceptions'


def backends(env):
    L = env.mod(SL)
    return L, [L.LibType.LIB_TYPE_NATIVE, L.LibType.LIB_TYPE_PYNACL, L.LibType.LIB_TYPE_TWEETNACL_EXT]


def backend(env):
    L, kinds = backends(env)
    i = env.choice('backend', [0, 1, 2])
    return L.SaltLib.getLib(kinds[i])


@contract('C18', covers=['opened', 'refused'], on=['crypto_box_afternm', 'crypto_box_open_afternm'], samples=3)
def c18_box(env):
    api = backend(env)
    m, n, k = env.bytes('msg'), env.bytes('nonce', 24), env.bytes('key', 32)
    c = api.crypto_box_afternm(m, n, k)
    env.check('ciphertext is what the library computes', c == env.crypto.box(m, n, k))
    env.check('16 bytes longer', len(c) == len(m) + 16)
    back = env.call(api.crypto_box_open_afternm, c, n, k)
    env.check('decrypts to the message', back.ok and back.value == m)
    d = env.bytes('cipher', lo=16, hint=lambda: c)
    out = env.call(api.crypto_box_open_afternm, d, n, k)
    ok, clear = env.crypto.box_open(d, n, k)
    if ok:
        env.cover('opened')
        env.check('authentic ciphertext decrypts', out.ok and out.value == clear)
    else:
        env.cover('refused')
        env.check('otherwise bad-encrypted-data', out.raised(env.mod(SX).BadEncryptedDataException))


@contract('C18', covers=['verified', 'refused'], on=['crypto_sign', 'crypto_sign_open'], samples=3)
def c18_sign(env):
    api = backend(env)
    m = env.bytes('msg')
    seed = env.bytes('seed', 32)
    pk, sk = env.crypto.sig_pair(seed)
    sm = api.crypto_sign(m, sk)
    env.check('signed message is what the library computes', sm == env.crypto.signed(m, sk))
    env.check('64-byte signature, then the message', len(sm) == 64 + len(m) and sm[64:] == m)
    back = env.call(api.crypto_sign_open, sm, pk)
    env.check('verifies', back.ok and back.value == m)
    x = env.bytes('signed', lo=64, hint=lambda: sm)
    p = env.bytes('pub', 32, hint=lambda: pk)
    out = env.call(api.crypto_sign_open, x, p)
    ok, msg = env.crypto.verify(x, p)
    if ok:
        env.cover('verified')
        env.check('accepted signature returns the message', out.ok and out.value == msg)
        env.check('message is the signed part', out.value == x[64:])
    else:
        env.cover('refused')
        env.check('otherwise bad-signature', out.raised(env.mod(SX).BadSignatureException))


@contract('C18', on=['crypto_hash', 'crypto_box_keypair_not_random', 'crypto_sign_keypair_not_random'], samples=2)
def c18_hash_keys(env):
    api = backend(env)
    m = env.bytes('msg')
    h = api.crypto_hash(m)
    env.check('SHA-512', h == env.crypto.sha512(m))
    env.check('64 bytes', len(h) == 64)
    sec = env.bytes('sec', 32)
    pk, sk = api.crypto_box_keypair_not_random(sec)
    env.check('encryption key pair', pk == env.crypto.enc_pub(sec) and sk == sec)
    seed = env.bytes('seed', 32)
    pk, sk = api.crypto_sign_keypair_not_random(seed)
    p, s = env.crypto.sig_pair(seed)
    env.check('signature key pair', pk == p and sk == s)
    env.check('sizes', len(pk) == 32 and len(sk) == 64)


@contract('C18', on=['crypto_hash'])
def c18_hash_twice(env):
    """Earlier results are not disturbed by later calls."""
    api = backend(env)
    m, n = env.bytes('msg'), env.bytes('msg2')
    h = api.crypto_hash(m)
    g = api.crypto_hash(n)
    env.check('first hash', h == env.crypto.sha512(m))
    env.check('second hash', g == env.crypto.sha512(n))


@contract('C18', on=['crypto_box_keypair_not_random', 'crypto_sign_keypair_not_random'])
def c18_wrong_length(env):
    api = backend(env)
    x = env.bytes('x', hi=200)
    env.assume(len(x) != 32)
    env.check('encryption key of wrong length refused', not env.call(api.crypto_box_keypair_not_random, x).ok)
    env.check('seed of wrong length refused', not env.call(api.crypto_sign_keypair_not_random, x).ok)


@contract('C18', covers=['agreed', 'refused'], on=['crypto_box_beforenm', 'SaltLib.compute_shared_key'], samples=2)
def c18_agreement(env):
    api = backend(env)
    sec = env.bytes('sec', 32)
    peer = env.bytes('peer', 32, hint=lambda: env.rng.choice([bytes(32), b'\x01' + bytes(31), env.crypto.enc_pub(bytes(range(32)))]))
    out = env.call(api.crypto_box_beforenm, peer, sec)
    ok, key = env.crypto.shared(peer, sec)
    if ok:
        env.cover('agreed')
        env.check('shared key', out.ok and out.value == key)
        env.check('32 bytes', len(out.value) == 32)
    else:
        env.cover('refused')
        env.check('refused key raises', not out.ok)
    other = env.bytes('other', 32)
    a = api.crypto_box_keypair_not_random(sec)[0]
    b = api.crypto_box_keypair_not_random(other)[0]
    x, y = env.call(api.crypto_box_beforenm, b, sec), env.call(api.crypto_box_beforenm, a, other)
    if x.ok and y.ok:
        env.check('both sides agree', x.value == y.value)


@contract('C18', on=['SaltLib.sign', 'SaltLib.sign_open', 'SaltLib.sha512', 'SaltLib.encrypt', 'SaltLib.decrypt', 'SaltLib.compute_shared_key'], samples=2)
def c18_facade(env):
    L, kinds = backends(env)
    i = env.choice('backend', [0, 1, 2])
    lib = L.SaltLib(kinds[i])
    X = env.mod(SX)
    what = env.choice('what', ['sign', 'verify', 'hash', 'encrypt', 'decrypt', 'agree', 'keys'])
    if what == 'sign':
        m, seed = env.bytes('msg'), env.bytes('seed', 32)
        pk, sk = env.crypto.sig_pair(seed)
        env.check('sign', lib.sign(m, sk) == env.crypto.signed(m, sk))
    elif what == 'verify':
        m, seed = env.bytes('msg'), env.bytes('seed', 32)
        pk, sk = env.crypto.sig_pair(seed)
        x = env.bytes('signed', lo=64, hint=lambda: env.crypto.signed(m, sk))
        out = env.call(lib.sign_open, x, pk)
        ok, msg = env.crypto.verify(x, pk)
        env.check('verify', (out.ok and out.value == msg) if ok else out.raised(X.BadSignatureException))
    elif what == 'hash':
        m = env.bytes('msg')
        env.check('hash', lib.sha512(m) == env.crypto.sha512(m))
    elif what == 'encrypt':
        m, n, k = env.bytes('msg'), env.bytes('nonce', 24), env.bytes('key', 32)
        env.check('encrypt', lib.encrypt(k, n, m) == env.crypto.box(m, n, k))
    elif what == 'decrypt':
        n, k = env.bytes('nonce', 24), env.bytes('key', 32)
        c = env.bytes('cipher', lo=16, hint=lambda: env.crypto.box(b'hello', n, k))
        out = env.call(lib.decrypt, k, n, c)
        ok, msg = env.crypto.box_open(c, n, k)
        env.check('decrypt', (out.ok and out.value == msg) if ok else out.raised(X.BadEncryptedDataException))
    elif what == 'agree':
        sec = env.bytes('sec', 32)
        peer = env.bytes('peer', 32, hint=lambda: env.rng.choice([bytes(32), env.crypto.enc_pub(bytes(range(32)))]))
        out = env.call(lib.compute_shared_key, sec, peer)
        ok, key = env.crypto.shared(peer, sec)
        env.check('agree', (out.ok and out.value == key) if ok else out.raised(bad_peer(env)))
        bad = env.bytes('bad', hi=100)
        env.assume(len(bad) != 32)
        env.check('wrong secret key length refused', not env.call(lib.compute_shared_key, bad, peer).ok)
        env.check('wrong public key length refused', not env.call(lib.compute_shared_key, sec, bad).ok)
    else:
        sec = env.bytes('sec', 32)
        kp = lib.create_enc_keys_from_sec(sec)
        env.check('encryption keys', kp.sec == sec and kp.pub == env.crypto.enc_pub(sec))
        seed = env.bytes('seed', 32)
        kp = lib.create_sig_keys_from_sec(seed)
        p, s = env.crypto.sig_pair(seed)
        env.check('signature keys', kp.pub == p and kp.sec == s)
        kp = lib.create_sig_keys_from_sec(s)
        env.check('signature keys restored from the secret key', kp.pub == p and kp.sec == s)


# ================================================================ C19
@contract('C19', on=['SaltLib.getLib'])
def c19_specific(env):
    L, kinds = backends(env)
    i = env.choice('backend', [0, 1, 2])
    for t in kinds:
        env.available(L.SaltLib.getLib(t), env.bool('available'))
    want = [env.mod('saltchannel.saltlib.saltlib_native').SaltLibNative,
            env.mod('saltchannel.saltlib.saltlib_pynacl').SaltLibPyNaCl,
            env.mod('saltchannel.saltlib.saltlib_tweetnaclext').SaltLibTweetNaClExt][i]
    lib = L.SaltLib.getLib(kinds[i])
    env.check('that library', isinstance(lib, want))
    env.check('and again', L.SaltLib.getLib(kinds[i]) is lib)
    env.check('the facade uses it', L.SaltLib(kinds[i]).api is lib)


@contract('C19', covers=['none', 'some'], on=['SaltLib.getLib'])
def c19_best(env):
    L, kinds = backends(env)
    libs = [L.SaltLib.getLib(t) for t in kinds]
    flags = [env.bool('native'), env.bool('pynacl'), env.bool('tweetnacl')]
    for x, f in zip(libs, flags):
        env.available(x, f)
    explicit = env.bool('explicit')
    out = env.call(L.SaltLib.getLib, L.LibType.LIB_TYPE_BEST) if explicit else env.call(L.SaltLib.getLib)
    if flags[0] or flags[1] or flags[2]:
        env.cover('some')
        want = libs[0] if flags[0] else (libs[1] if flags[1] else libs[2])
        env.check('the first available', out.ok and out.value is want)
    else:
        env.cover('none')
        env.check('no-such-library', out.raised(env.mod(SX).NoSuchLibException))


@contract('C19', on=['SaltLib.random_bytes', 'randombytes'], samples=2)
def c19_random(env):
    log = env.rng_log()
    L, kinds = backends(env)
    i = env.choice('backend', [0, 1, 2])
    rng = env.choice('rng', ['os', 'impl', 'default'])
    if rng == 'default':
        lib = L.SaltLib(kinds[i])
    else:
        lib = L.SaltLib(kinds[i], L.RngType.RNG_URANDOM if rng == 'os' else L.RngType.RNG_IMPL)
    n = env.int('n', 0, 100000)
    r = lib.random_bytes(n)
    env.check('exactly that length', len(r) == n)
    env.check('bytes from the chosen generator', log.served(r, 'os' if rng != 'impl' else ['sodium', 'pynacl', 'tweetnacl'][i]))
    r2 = lib.random_bytes(n)
    env.check('second draw', len(r2) == n and log.served(r2, 'os' if rng != 'impl' else ['sodium', 'pynacl', 'tweetnacl'][i]))


@contract('C19', on=['SaltLib.create_enc_keys', 'SaltLib.create_sig_keys'])
def c19_fresh_keys(env):
    log = env.rng_log()
    L, kinds = backends(env)
    i = env.choice('backend', [0, 1, 2])
    rng = env.choice('rng', ['os', 'impl'])
    lib = L.SaltLib(kinds[i], L.RngType.RNG_URANDOM if rng == 'os' else L.RngType.RNG_IMPL)
    src = 'os' if rng == 'os' else ['sodium', 'pynacl', 'tweetnacl'][i]
    if env.bool('enc'):
        kp = lib.create_enc_keys()
        env.check('secret key is random', log.served(kp.sec, src))
        env.check('public key derived', kp.pub == env.crypto.enc_pub(kp.sec))
        env.check('sizes', len(kp.sec) == 32 and len(kp.pub) == 32)
    else:
        kp = lib.create_sig_keys()
        seed = log.last(src)
        p, s = env.crypto.sig_pair(seed)
        env.check('derived from a random seed', len(seed) == 32 and kp.pub == p and kp.sec == s)


@contract('C19', on=['randombytes'])
def c19_backend_random(env):
    api = backend(env)
    n = env.int('n', 0, 100000)
    r = api.randombytes(n)
    env.check('exactly that length', len(r) == n)

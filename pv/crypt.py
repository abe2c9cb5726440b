"""Assumed contracts of the cryptographic primitives (libsodium, reached through ctypes, PyNaCl or tweetnacl).

Every primitive is an uninterpreted function: equal arguments give equal results; what was boxed (signed) with a
key opens (verifies) under the matching key and nonce; anything else opens or not, arbitrarily but consistently.
Nothing is assumed about unforgeability: contracts compare the code with these specification functions.
"""
import z3
from . import core, ropes, rt, cmodel
from .core import SInt, SBool, Unsupported, norm, term, mk_int, mk_bool
from .ropes import S, Base, Arr, Lit, Rep, mk_bytes, need, pieces_of, total, split, same, leq, decide, zt, pyerr, val_eq, eq_pieces, norm_pieces


def trust(what):
    S().trusted.add(what)


def recs(kind):
    return S().run_state.setdefault('prim', {}).setdefault(kind, [])


def quick(x, y):
    """syntactic identity of two values"""
    if isinstance(x, tuple):
        return isinstance(y, tuple) and len(x) == len(y) and all(quick(a, b) for a, b in zip(x, y))
    px, py = pieces_of(x), pieces_of(y)
    if px is not None and py is not None:
        return '+'.join(p.key() for p in px) == '+'.join(p.key() for p in py)
    return x is y


def differ(x, y):
    """cheaply known to be different (concrete bytes, lengths)"""
    px, py = pieces_of(x), pieces_of(y)
    if isinstance(x, bytes) and isinstance(y, bytes):
        return x != y
    a, b = total(px), total(py)
    return isinstance(a, int) and isinstance(b, int) and a != b


def provably(args, other):
    """all arguments provably equal"""
    if all(quick(x, y) for x, y in zip(args, other)):
        return True
    if any(differ(x, y) for x, y in zip(args, other)):
        return False
    st = S()

    def f():
        for x, y in zip(args, other):
            c = val_eq(x, y)
            if c is False:
                return False
            if c is not True and not st.prove(c):
                return False
        return True
    return st.hyp(f)


def find(kind, args):
    l = recs(kind)
    for r in l:
        if all(quick(x, y) for x, y in zip(args, r[0])):
            return r
    for r in l:
        if provably(args, r[0]):
            return r
    return None


def unknown(kind, args, n):
    """The byte string of length n that the primitive returns for args."""
    r = find(kind, args)
    if r is not None:
        return r[1]
    st = S()
    if recs(kind) and not all(any(differ(x, y) for x, y in zip(args, r[0])) for r in recs(kind)):
        st.inexact = st.inexact or 'two applications of %s whose arguments may be equal' % kind
    nm = st.fresh_name(kind)
    b = Base(nm, list(st.loop_idx), n, (kind, tuple(args)))
    v = mk_bytes([Arr(b, 0, n)])
    recs(kind).append((tuple(args), v))
    return v


def whole(v, kind):
    """origin args if v is exactly one whole result of primitive `kind`"""
    ps = pieces_of(v)
    if ps is not None and len(ps) == 1 and isinstance(ps[0], Arr):
        b = ps[0].base
        if b.origin is not None and b.origin[0] == kind and ropes.is0(ps[0].off) and (same(ps[0].n, b.length)):
            return b.origin[1]
    return None


def frozen(v):
    return mk_bytes(list(need(v)))


def sha512(m):
    trust('SHA-512 (libsodium): a deterministic function to 64 bytes')
    return unknown('sha512', (frozen(m),), 64)


def box(m, n, k):
    trust('crypto_box_afternm (libsodium): deterministic, len(m)+16 bytes, opened by crypto_box_open_afternm with the same nonce and key')
    m, n, k = frozen(m), frozen(n), frozen(k)
    return unknown('box', (m, n, k), norm(total(need(m)) + 16))


def flag(name):
    st = S()
    return st.branch(st.fresh(name, z3.BoolSort()))


def box_open(c, n, k):
    trust('crypto_box_open_afternm (libsodium): a deterministic function of (ciphertext, nonce, key); accepts what crypto_box_afternm produced')
    c, n, k = frozen(c), frozen(n), frozen(k)
    L = total(need(c))
    if not leq(16, L) and decide(zt(L) < 16):
        return False, b''
    o = whole(c, 'box')
    if o is not None:
        if provably((n, k), (o[1], o[2])):
            return True, o[0]
    for r in recs('box'):
        if not quick(r[1], c) and provably((c, n, k), (r[1], r[0][1], r[0][2])):
            return True, r[0][0]
    r = find('open', (c, n, k))
    if r is not None:
        return r[1]
    if flag('opens'):
        st = S()
        b = Base(st.fresh_name('opened'), list(st.loop_idx), norm(L - 16), ('opened', (c, n, k)))
        v = (True, mk_bytes([Arr(b, 0, norm(L - 16))]))
    else:
        v = (False, b'')
    recs('open').append(((c, n, k), v))
    return v


def signed(m, sk):
    trust('crypto_sign (libsodium): signature (64 bytes, deterministic) followed by the message')
    m, sk = frozen(m), frozen(sk)
    return mk_bytes(need(unknown('sig', (m, sk), 64)) + need(m))


def verify(sm, pk):
    trust('crypto_sign_open (libsodium): a deterministic predicate of (signed message, public key), returns the rest of the signed message; accepts what crypto_sign produced with the matching key')
    sm, pk = frozen(sm), frozen(pk)
    ps = need(sm)
    L = total(ps)
    if not leq(64, L) and decide(zt(L) < 64):
        return False, b''
    s, m = split(ps, 64)
    s, m = mk_bytes(s), mk_bytes(m)
    o = whole(s, 'sig')
    if o is not None and honest(o[1], pk) and provably((m,), (o[0],)):
        return True, m
    r = find('verify', (s, m, pk))
    if r is not None:
        return r[1], (m if r[1] else b'')
    v = flag('verifies')
    recs('verify').append(((s, m, pk), v))
    return v, (m if v else b'')


def honest(sk, pk):
    """pk belongs to sk = seed || public key of seed"""
    ps = need(sk)
    if not same(total(ps), 64):
        return False
    seed, pub = split(ps, 32)
    o = whole(mk_bytes(pub), 'sigpub')
    if o is None:
        return False
    return provably((mk_bytes(seed), pk), (o[0], mk_bytes(pub)))


def sig_pair(seed):
    trust('crypto_sign_seed_keypair (libsodium): deterministic; the secret key is the seed followed by the public key')
    seed = frozen(seed)
    pub = unknown('sigpub', (seed,), 32)
    return pub, mk_bytes(need(seed) + need(pub))


def enc_pub(sk):
    trust('crypto_scalarmult_base (libsodium): deterministic')
    return unknown('encpub', (frozen(sk),), 32)


def shared(pk, sk):
    trust('crypto_box_beforenm (libsodium): deterministic in (public, secret); refuses some public keys, never one made by crypto_scalarmult_base; both sides of an exchange get the same key')
    pk, sk = frozen(pk), frozen(sk)
    o = whole(pk, 'encpub')
    r = find('shared', (pk, sk))
    if r is not None:
        return r[1]
    if o is not None:
        for (a, v) in recs('shared'):
            o2 = whole(a[0], 'encpub')
            if o2 is not None and v[0] and provably((sk, o[0]), (o2[0], a[1])):
                recs('shared').append(((pk, sk), v))
                return v
        ok = True
    else:
        ok = flag('accepts')
    v = (True, unknown('dh', (pk, sk), 32)) if ok else (False, b'')
    recs('shared').append(((pk, sk), v))
    return v


def random(kind, n):
    trust('%s: returns the requested number of bytes' % kind)
    n = norm(term(n))
    if not leq(0, n) and decide(zt(n) < 0):
        raise pyerr(ValueError('negative argument not allowed'))
    st = S()
    if rt.inductive():
        raise Unsupported('random bytes inside a loop')
    b = Base(st.fresh_name('rnd_' + kind), list(st.loop_idx), n)
    v = mk_bytes([Arr(b, 0, n)])
    st.run_state.setdefault('rng', []).append((kind, v, n))
    return v


# ---- libsodium through ctypes --------------------------------------------------------------------------------
def clen(x):
    """a length argument"""
    if isinstance(x, cmodel.Simple):
        return norm(term(x.value))
    if isinstance(x, (int, SInt, SBool)):
        t = norm(term(x))
        if not (leq(0, t) and leq(t, 2 ** 31 - 1)):
            if isinstance(t, int) or not S().prove(z3.And(zt(t) >= 0, zt(t) < 2 ** 31)):
                raise Unsupported('an integer that may not fit a C int is passed to C code')
        return t
    raise pyerr(cmodel.ctypes_argument_error(x))


class Sodium:
    _pv_model = True
    _name = 'libsodium.so.23'

    def crypto_sign_seed_keypair(self, pk, sk, seed):
        s = mk_bytes(cmodel.read_ptr(seed, 32, 'crypto_sign_seed_keypair seed'))
        p, k = sig_pair(s)
        cmodel.write_ptr(pk, need(p), 'crypto_sign_seed_keypair public key')
        cmodel.write_ptr(sk, need(k), 'crypto_sign_seed_keypair secret key')
        return 0

    def crypto_sign(self, sm, smlen, m, mlen, sk):
        n = clen(mlen)
        x = mk_bytes(cmodel.read_ptr(m, n, 'crypto_sign message'))
        k = mk_bytes(cmodel.read_ptr(sk, 64, 'crypto_sign secret key'))
        r = signed(x, k)
        cmodel.write_ptr(sm, need(r), 'crypto_sign result')
        self.setlen(smlen, norm(n + 64))
        return 0

    def crypto_sign_detached(self, sig, siglen, m, mlen, sk):
        n = clen(mlen)
        x = mk_bytes(cmodel.read_ptr(m, n, 'crypto_sign message'))
        k = mk_bytes(cmodel.read_ptr(sk, 64, 'crypto_sign secret key'))
        cmodel.write_ptr(sig, need(signed(x, k)[:64]), 'crypto_sign_detached result')
        self.setlen(siglen, 64)
        return 0

    def setlen(self, p, n):
        if p is None:
            return
        cmodel.write_ptr(p, cmodel.c_uint64._store(mk_int(n)), 'length result')

    def crypto_sign_open(self, m, mlen, sm, smlen, pk):
        n = clen(smlen)
        if not leq(64, n) and decide(zt(n) < 64):
            self.setlen(mlen, 0)
            return -1
        x = mk_bytes(cmodel.read_ptr(sm, n, 'crypto_sign_open signed message'))
        k = mk_bytes(cmodel.read_ptr(pk, 32, 'crypto_sign_open public key'))
        ok, r = verify(x, k)
        if not ok:
            # the output is overwritten with zeros
            cmodel.write_ptr(m, norm_pieces([Rep(0, norm(n - 64))]), 'crypto_sign_open result')
            self.setlen(mlen, 0)
            return -1
        cmodel.write_ptr(m, need(r), 'crypto_sign_open result')
        self.setlen(mlen, norm(n - 64))
        return 0

    def crypto_scalarmult_base(self, q, n):
        s = mk_bytes(cmodel.read_ptr(n, 32, 'crypto_scalarmult_base secret key'))
        cmodel.write_ptr(q, need(enc_pub(s)), 'crypto_scalarmult_base result')
        return 0

    def crypto_box_beforenm(self, k, pk, sk):
        p = mk_bytes(cmodel.read_ptr(pk, 32, 'crypto_box_beforenm public key'))
        s = mk_bytes(cmodel.read_ptr(sk, 32, 'crypto_box_beforenm secret key'))
        ok, r = shared(p, s)
        if not ok:
            return -1
        cmodel.write_ptr(k, need(r), 'crypto_box_beforenm result')
        return 0

    def crypto_box_afternm(self, c, m, mlen, n, k):
        L = clen(mlen)
        if not leq(32, L) and decide(zt(L) < 32):
            return -1
        x = cmodel.read_ptr(m, L, 'crypto_box_afternm message')
        z, body = split(x, 32)
        S().oblige('crypto_box_afternm: the first 32 bytes of the message are zero', core.zb(mk_bytes(z) == bytes(32)))
        nn = mk_bytes(cmodel.read_ptr(n, 24, 'crypto_box_afternm nonce'))
        kk = mk_bytes(cmodel.read_ptr(k, 32, 'crypto_box_afternm key'))
        cmodel.write_ptr(c, norm_pieces([Lit(bytes(16))] + list(need(box(mk_bytes(body), nn, kk)))), 'crypto_box_afternm result')
        return 0

    def crypto_box_open_afternm(self, m, c, clen_, n, k):
        L = clen(clen_)
        if not leq(32, L) and decide(zt(L) < 32):
            return -1
        x = cmodel.read_ptr(c, L, 'crypto_box_open_afternm ciphertext')
        z, body = split(x, 16)
        nn = mk_bytes(cmodel.read_ptr(n, 24, 'crypto_box_open_afternm nonce'))
        kk = mk_bytes(cmodel.read_ptr(k, 32, 'crypto_box_open_afternm key'))
        ok, r = box_open(mk_bytes(body), nn, kk)
        if not ok:
            return -1
        cmodel.write_ptr(m, norm_pieces([Lit(bytes(32))] + list(need(r))), 'crypto_box_open_afternm result')
        return 0

    def crypto_box_easy_afternm(self, c, m, mlen, n, k):
        L = clen(mlen)
        x = mk_bytes(cmodel.read_ptr(m, L, 'crypto_box_easy_afternm message'))
        nn = mk_bytes(cmodel.read_ptr(n, 24, 'crypto_box_easy_afternm nonce'))
        kk = mk_bytes(cmodel.read_ptr(k, 32, 'crypto_box_easy_afternm key'))
        cmodel.write_ptr(c, need(box(x, nn, kk)), 'crypto_box_easy_afternm result')
        return 0

    def crypto_box_open_easy_afternm(self, m, c, clen_, n, k):
        L = clen(clen_)
        if not leq(16, L) and decide(zt(L) < 16):
            return -1
        x = mk_bytes(cmodel.read_ptr(c, L, 'crypto_box_open_easy_afternm ciphertext'))
        nn = mk_bytes(cmodel.read_ptr(n, 24, 'crypto_box_open_easy_afternm nonce'))
        kk = mk_bytes(cmodel.read_ptr(k, 32, 'crypto_box_open_easy_afternm key'))
        ok, r = box_open(x, nn, kk)
        if not ok:
            return -1
        cmodel.write_ptr(m, need(r), 'crypto_box_open_easy_afternm result')
        return 0

    def crypto_hash_sha512_bytes(self):
        return 64
    crypto_hash_bytes = crypto_hash_sha512_bytes

    def crypto_hash_sha512(self, h, m, mlen):
        L = clen(mlen)
        x = mk_bytes(cmodel.read_ptr(m, L, 'crypto_hash_sha512 message'))
        cmodel.write_ptr(h, need(sha512(x)), 'crypto_hash_sha512 result')
        return 0
    crypto_hash = crypto_hash_sha512

    def randombytes(self, buf, n):
        cmodel.write_ptr(buf, need(random('sodium', mk_int(clen(n)))), 'randombytes result')
        return 0
    randombytes_buf = randombytes

    def sodium_init(self):
        return 0

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('libsodium function ' + n)


# ---- PyNaCl ----------------------------------------------------------------------------------------------------
class NaclExc:
    """nacl.exceptions"""

    def __init__(self):
        class CryptoError(Exception):
            pass

        class BadSignatureError(CryptoError):
            pass

        class RuntimeError_(RuntimeError, CryptoError):
            pass

        class AssertionError_(AssertionError, CryptoError):
            pass

        class TypeError_(TypeError, CryptoError):
            pass

        class ValueError_(ValueError, CryptoError):
            pass

        def ensure(cond, *args, **kw):
            exc = kw.pop('raising', AssertionError)
            if not cond:
                raise pyerr(exc(*args))
        self.d = dict(CryptoError=CryptoError, BadSignatureError=BadSignatureError, RuntimeError=RuntimeError_, AssertionError=AssertionError_, TypeError=TypeError_, ValueError=ValueError_, ensure=ensure)


def nbytes(x, what='argument must be bytes'):
    """what cffi accepts for `unsigned char *` and what bytes-typed parameters are"""
    if isinstance(x, (bytes, ropes.SBytes)):
        return need(x)
    raise pyerr(TypeError(what))


def nlen(x):
    ps = pieces_of(x)
    if ps is None:
        raise pyerr(TypeError("object of type '%s' has no len()" % type(x).__name__))
    return total(ps)


def exact(x, n, msg):
    L = nlen(x)
    if not same(L, n) and decide(zt(L) != n):
        raise pyerr(ValueError(msg))


def unchecked(x, n, what):
    """the binding does not check this length: C code would read out of bounds"""
    ps = nbytes(x)
    S().oblige('memory safety: %s' % what, zt(total(ps)) >= n)
    return mk_bytes(split(ps, n)[0])


def nacl_bindings(E, rng='pynacl'):
    def crypto_sign(message, sk):
        k = unchecked(sk, 64, 'crypto_sign secret key')
        return signed(mk_bytes(nbytes(message)), k)

    def crypto_sign_open(sm, pk):
        k = unchecked(pk, 32, 'crypto_sign_open public key')
        ok, m = verify(mk_bytes(nbytes(sm)), k)
        if not ok:
            raise pyerr(E['BadSignatureError']('Signature was forged or corrupt'))
        return m

    def crypto_box_beforenm(pk, sk):
        exact(pk, 32, 'Invalid public key')
        exact(sk, 32, 'Invalid secret key')
        ok, k = shared(mk_bytes(nbytes(pk)), mk_bytes(nbytes(sk)))
        if not ok:
            raise pyerr(E['RuntimeError']('Unexpected library error'))
        return k

    def crypto_box_afternm(message, nonce, k):
        exact(nonce, 24, 'Invalid nonce')
        exact(k, 32, 'Invalid shared key')
        return box(mk_bytes(nbytes(message)), mk_bytes(nbytes(nonce)), mk_bytes(nbytes(k)))

    def crypto_box_open_afternm(ciphertext, nonce, k):
        exact(nonce, 24, 'Invalid nonce')
        exact(k, 32, 'Invalid shared key')
        ok, m = box_open(mk_bytes(nbytes(ciphertext)), mk_bytes(nbytes(nonce)), mk_bytes(nbytes(k)))
        if not ok:
            raise pyerr(E['CryptoError']('An error occurred trying to decrypt the message'))
        return m

    def crypto_scalarmult_base(n):
        return enc_pub(unchecked(n, 32, 'crypto_scalarmult_base secret key'))

    def crypto_hash(m):
        return sha512(mk_bytes(nbytes(m)))

    def randombytes(n):
        return random(rng, n)

    def crypto_sign_seed_keypair(seed):
        if rng == 'tweetnacl':                    # nothing is assumed about what the package checks
            return sig_pair(unchecked(seed, 32, 'crypto_sign_seed_keypair seed'))
        exact(seed, 32, 'Invalid seed')
        return sig_pair(mk_bytes(nbytes(seed)))
    return {k: v for k, v in locals().items() if callable(v) and k not in ('E', 'rng')}


class FfiBuf:
    _pv_model = True

    def __init__(self, n):
        self.mem = cmodel.Mem(norm_pieces([Rep(0, n)]))


class Ffi:
    _pv_model = True

    def new(self, kind, n=None):
        if kind.replace(' ', '') not in ('unsignedchar[]', 'char[]') or not isinstance(n, (int, SInt)):
            raise Unsupported('ffi.new(%r)' % kind)
        return FfiBuf(norm(term(n)))

    def buffer(self, x, n=None):
        if not isinstance(x, FfiBuf):
            raise Unsupported('ffi.buffer')
        n = norm(term(n)) if n is not None else x.mem.size()
        S().oblige('memory safety: ffi.buffer', zt(n) <= zt(x.mem.size()))
        return mk_bytes(x.mem.read(0, n))


class NaclLib:
    _pv_model = True

    def crypto_sign_seed_keypair(self, pk, sk, seed):
        p, k = sig_pair(unchecked(seed, 32, 'crypto_sign_seed_keypair seed'))
        for b, v in ((pk, p), (sk, k)):
            if not isinstance(b, FfiBuf):
                raise Unsupported('cffi pointer')
            S().oblige('memory safety: crypto_sign_seed_keypair result', zt(b.mem.size()) >= zt(total(need(v))))
            b.mem.write(0, need(v))
        return 0

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('nacl lib.' + n)

"""Concrete runner of the contracts: the untransformed code of /repo under CPython (/opt/venv).

Used to replay counterexamples of the verifier, to cross-check it (every contract also runs on sampled inputs),
and as the bounded stand-in where the verifier is undecided.  Runs as a child process of check.py:
    python concrete.py sample  PROPERTY SEED SECONDS OUT.json
    python concrete.py replay  REPLAY.json OUT.json
"""
import sys, os, json, random, time, signal, types, ast, importlib, importlib.abc, importlib.util, asyncio, contextlib, logging, warnings, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
REPO = os.environ.get('PV_REPO', '/repo')

from pv import spec
from pv.spec import Outcome


HINT_ERRORS = set()


class Discard(BaseException):
    pass


class Failed(BaseException):
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


class Hang(BaseException):
    pass


# ---- fresh modules per run, compiled once -----------------------------------------------------------
_CODE = {}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != 'saltchannel' and not name.startswith('saltchannel.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            sp = importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[base])
        elif os.path.isfile(base + '.py'):
            f = base + '.py'
            sp = importlib.util.spec_from_file_location(name, f, loader=self)
        else:
            return None
        return sp

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        f = m.__spec__.origin
        if f not in _CODE:
            src = ''
            if os.path.exists(f):
                with open(f, 'rb') as h:
                    src = h.read()
            _CODE[f] = compile(src, f, 'exec')
        exec(_CODE[f], m.__dict__)


sys.meta_path.insert(0, Finder())


def install_tweetnacl():
    """python-tweetnacl is not installed here: same functions from PyNaCl (the binding's contract is assumed)."""
    from nacl import bindings as b
    t = types.ModuleType('tweetnacl')
    r = types.ModuleType('tweetnacl.raw')
    t.raw = r
    for n in ('crypto_sign', 'crypto_sign_open', 'crypto_box_beforenm', 'crypto_box_afternm', 'crypto_box_open_afternm',
              'crypto_scalarmult_base', 'crypto_hash', 'randombytes', 'crypto_sign_seed_keypair'):
        setattr(r, n, getattr(b, n))
    # C code that reads 32 bytes, whatever it is given: the length of a seed is for the back end to check
    r.crypto_sign_seed_keypair = lambda seed: b.crypto_sign_seed_keypair((bytes(seed) + bytes(32))[:32])
    global _REAL_PYNACL
    _REAL_PYNACL = b.randombytes
    sys.modules['tweetnacl'] = t
    sys.modules['tweetnacl.raw'] = r


def purge():
    for k in [k for k in sys.modules if k == 'saltchannel' or k.startswith('saltchannel.')]:
        del sys.modules[k]


def mine_constants():
    """Integer and byte-string constants of the code under check: sampled sizes and values are biased to them."""
    ints, blobs = set(), set()
    for d, dn, fs in os.walk(os.path.join(REPO, 'saltchannel')):
        for f in fs:
            if f.endswith('.py') and f != 'crypto_test_data.py':
                try:
                    t = ast.parse(open(os.path.join(d, f), encoding='utf8').read())
                except Exception:
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant):
                        if isinstance(n.value, int) and not isinstance(n.value, bool):
                            ints.add(n.value)
                        elif isinstance(n.value, bytes) and n.value:
                            blobs.add(n.value)
                    elif isinstance(n, (ast.BinOp, ast.UnaryOp)):
                        try:
                            v = eval(compile(ast.Expression(n), '?', 'eval'), {'__builtins__': {}})
                            if isinstance(v, int) and abs(v) < 1 << 70:
                                ints.add(v)
                        except Exception:
                            pass
    return sorted(ints), sorted(blobs)


class Crypto:
    """Specification functions for the primitives: what libsodium computes (through PyNaCl)."""

    def __init__(self, env):
        from nacl import bindings
        self.b = bindings
        self.env = env

    def sha512(self, m):
        return self.b.crypto_hash(m)

    def box(self, m, n, k):
        return self.b.crypto_box_afternm(m, n, k)

    def box_open(self, c, n, k):
        """(authentic?, message)"""
        if len(c) < 16:
            return False, b''
        try:
            return True, self.b.crypto_box_open_afternm(c, n, k)
        except Exception:
            return False, b''

    def signed(self, m, sk):
        return self.b.crypto_sign(m, sk)

    def verify(self, sm, pk):
        if len(sm) < 64:
            return False, b''
        try:
            return True, self.b.crypto_sign_open(sm, pk)
        except Exception:
            return False, b''

    def enc_pub(self, sk):
        return self.b.crypto_scalarmult_base(sk)

    def shared(self, pk, sk):
        """(accepted?, key)"""
        try:
            return True, self.b.crypto_box_beforenm(pk, sk)
        except Exception:
            return False, b''

    def sig_pair(self, seed):
        """(public, secret)"""
        return self.b.crypto_sign_seed_keypair(seed)


class RngLog:
    """Records what each random generator hands out (os.urandom and the three libraries are wrapped)."""

    def __init__(self, env):
        import os as _os
        self.log = []
        real = _REAL_URANDOM

        def rec(kind, fn):
            def f(n):
                r = fn(n)
                self.log.append((kind, r))
                return r
            return f
        _os.urandom = rec('os', real)
        from nacl import bindings as b
        b.randombytes = rec('pynacl', _REAL_PYNACL)
        sys.modules['tweetnacl.raw'].randombytes = rec('tweetnacl', _REAL_PYNACL)

    def served(self, r, kind):
        if kind == 'sodium':        # cannot be observed from outside
            return not any(k != 'sodium' and x == r and len(r) >= 4 for k, x in self.log)
        return any(k == kind and x == r for k, x in self.log)

    def last(self, kind):
        xs = [x for k, x in self.log if k == kind]
        if kind == 'sodium':
            raise Discard()
        return xs[-1] if xs else b''


_REAL_URANDOM = os.urandom
_REAL_PYNACL = None


class Pause:
    def __init__(self, env, cond=None):
        self.env, self.cond = env, cond

    def __await__(self):
        f = self.env.loop.create_future()
        self.env.paused.append((f, self.cond))
        yield from f.__await__()


class CEnv:
    symbolic = False

    def __init__(self, rng, consts, replay=None, prof=None):
        self.rng, self.consts, self.replay = rng, consts, replay
        self.inputs = []
        self.covered = set()
        self.checks = 0
        self.loop = None
        self.paused = []
        self.provided = []
        self.prof = prof or {}
        self.used = {}
        self.crypto = Crypto(self)
        self._mods = {}

    # -- inputs --------------------------------------------------------------------------------------
    def _draw(self, name, gen):
        k = self.used.get(name, 0)
        self.used[name] = k + 1
        key = name if k == 0 else '%s#%d' % (name, k)
        if self.replay is not None and key in self.replay:
            v = self.replay[key]
        else:
            v = gen()
        self.inputs.append((key, v))
        return v

    def int(self, name, lo, hi, hint=None):
        if hi < lo:
            raise Discard()
        lo, hi = int(lo), int(hi)

        def gen():
            r = self.rng.random()
            if hint is not None and r < 0.3:
                return min(max(hint(), lo), hi)
            if self.prof.get('min'):
                return lo
            if self.prof.get('max'):
                return hi
            if r < 0.35:
                return self.rng.choice([lo, hi, min(lo + 1, hi), max(hi - 1, lo)])
            if r < 0.6:
                c = [v for x in self.consts[0] for v in (x - 1, x, x + 1) if lo <= v <= hi]
                if c:
                    return self.rng.choice(c)
            if r < 0.8 and hi - lo > 256:
                b = self.rng.randrange(1, (hi - lo).bit_length() + 1)
                return min(hi, lo + self.rng.getrandbits(b))
            return self.rng.randint(lo, hi)
        v = self._draw(name, gen)
        return min(max(v, lo), hi)

    def bool(self, name):
        return bool(self._draw(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        i = self._draw(name, lambda: self.rng.randrange(len(options)))
        return options[i % len(options)]

    def _length(self, lo, hi):
        cap = self.prof.get('cap', 300)
        if self.prof.get('min'):
            return lo
        top = hi if hi is not None else 200000
        r = self.rng.random()
        if self.prof.get('huge') and (hi is None or hi > 200000):
            # once per run: a length around a large constant of the code
            c = [v for x in self.consts[0] + [1 << 18] for v in (x, x + 1) if 200000 < v <= (1 << 24) + 1 and (hi is None or v <= hi)]
            self.prof = {'cap': 20}
            return self.rng.choice(c)
        if self.prof.get('big') and r < 0.3:
            c = [x for x in (255, 256, 4095, 4096, 8192, 32767, 32768, 65519, 65520, 65533, 65534, 65535, 65536, 65537, 70000, 131072, top)
                 if lo <= x <= min(top, 200000)]
            c += [v for x in self.consts[0] for v in (x - 1, x, x + 1) if lo <= v <= min(top, 200000)]
            if c:
                return self.rng.choice(c)
        if r < 0.45:
            return min(lo + self.rng.randrange(0, 4), top)
        if r < 0.75:
            # around a constant of the code, or what is left of one after some header, prefix or authenticator
            near = (-1, 0, 1) if r < 0.65 else (-2, -4, -6, -8, -10, -16, -18, -20, -22, -24, -32, -40, -48)
            c = [x + d for x in self.consts[0] for d in near if lo <= x + d <= min(top, lo + cap)]
            if c:
                return self.rng.choice(c)
        return self.rng.randint(lo, min(top, lo + cap))

    def _content(self, n):
        r = self.rng.random()
        if r < 0.08:
            return bytes(n)
        if r < 0.12:
            return b'\xff' * n
        if r < 0.16:
            # zeros at the end or at the start
            k = min(n, self.rng.choice([1, 1, 2, 3, 8, 16]))
            return self.rng.randbytes(n - k) + bytes(k) if self.rng.random() < 0.6 else bytes(k) + self.rng.randbytes(n - k)
        if r < 0.3 and self.consts[1]:
            b = self.rng.choice(self.consts[1])
            k = self.rng.randrange(3)
            if k == 0:
                return (b * (n // len(b) + 1))[:n]
            if k == 1:
                return (b + self.rng.randbytes(n))[:n]
            return (self.rng.randbytes(n) + b)[-n:] if n else b''
        if r < 0.4:
            return bytes(self.rng.choice([0, 1, 2, 5, 6, 11, 32, 64, 127, 128, 255]) for _ in range(n))
        return self.rng.randbytes(n)

    def mutate(self, b):
        b = bytearray(b)
        r = self.rng.randrange(10)
        if r == 0 and b:
            b[self.rng.randrange(len(b))] ^= 1 << self.rng.randrange(8)
        elif r == 1:
            del b[self.rng.randrange(len(b) + 1):]
        elif r == 2:
            b += self.rng.randbytes(self.rng.choice([1, 2, 16, 20, 32]))
        elif r == 3 and b:
            b[self.rng.randrange(min(len(b), 8))] = self.rng.randrange(256)
        elif r == 4 and b:
            i = self.rng.randrange(len(b))
            b[i] = self.rng.choice([0, 1, 127, 128, 255])
        elif r == 5 and b:
            b = b[:-1]
        elif r == 6 and len(b) > 1:
            i = self.rng.randrange(len(b))
            j = self.rng.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        elif r == 7 and b:
            i = self.rng.randrange(len(b))
            n = self.rng.randrange(1, 5)
            b[i:i + n] = self.rng.randbytes(len(b[i:i + n]))
        elif r == 8:
            return b''
        elif r == 9 and b:
            n = self.rng.choice([1, 1, 2, 4])
            b = bytearray(self.rng.randbytes(n) + b[n:] if self.rng.random() < 0.4 else b[:-n] + self.rng.randbytes(n))[:len(b)]
        return bytes(b)

    def bytes(self, name, n=None, lo=0, hi=None, hint=None):
        def gen():
            r = self.rng.random()
            if hint is not None and r < 0.9:
                try:
                    v = hint() if callable(hint) else hint
                except Exception as e:      # a mistake in the search heuristics of a contract: reported, never taken for a failure of the code
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    HINT_ERRORS.add('%s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
                    raise Discard()
                if r < 0.25:
                    v = self.mutate(v)
                    if r < 0.05:
                        v = self.mutate(v)
                return v
            return self._content(n if n is not None else self._length(lo, hi))
        v = self._draw(name, gen)
        if n is not None and len(v) != n:
            v = (v + bytes(n))[:n]
        if len(v) < lo:
            v = v + bytes(lo - len(v))
        if hi is not None and len(v) > hi:
            v = v[:hi]
        return v

    def bytes_list(self, name, lo=0, hi=None, item_hi=None):
        def gen():
            if self.prof.get('many') and (hi is None or hi > 60000):
                k = self.rng.choice([65534, 65535, 65536, 65537, 1000, 32768] + [v for x in self.consts[0] for v in (x, x + 1) if 900 < v < 65534])
                if hi is None or k <= hi:
                    b = self._content(self.rng.randrange(3))
                    return [b] * (k - 1) + [self._content(1)]
            top = 8 if hi is None else min(hi, 8)
            if self.rng.random() < 0.1 and (hi is None or hi >= 300):
                top = 300
            k = lo if self.prof.get('min') else self.rng.randint(lo, max(lo, top))
            return [self._content(self._length(0, item_hi)) for _ in range(k)]
        v = self._draw(name, gen)
        return list(v)

    # -- obligations ------------------------------------------------------------------------------------
    def check(self, label, cond):
        self.checks += 1
        if not cond:
            raise Failed(label)

    def assume(self, cond):
        if not cond:
            raise Discard()

    def outside(self, kind, name):
        if spec.outside(kind, name):
            raise Discard()

    def cover(self, label):
        self.covered.add(label)

    # -- running code -----------------------------------------------------------------------------------
    def mod(self, name):
        return importlib.import_module(name)

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except (Discard, Failed, Hang, KeyboardInterrupt):
            raise
        except BaseException as e:
            return Outcome(None, e)

    def run(self, coro):
        return self.call(self.loop.run_until_complete, coro)

    def drive(self, coro):
        """Run a coroutine that waits for nothing, here and now."""
        def go():
            it = coro if hasattr(coro, 'send') else coro.__await__()
            try:
                it.send(None)
            except StopIteration as e:
                return e.value
            raise Discard()
        return self.call(go)

    def pause(self):
        return Pause(self)

    def wait(self, cond):
        return Pause(self, cond)

    def interleave(self, coros, name='step'):
        """Run coroutines together; the harness decides the order at every suspension (env.pause())."""
        out = [None] * len(coros)
        over = []

        async def one(i, c):
            try:
                r = Outcome(await c)
                if not over:
                    out[i] = r
            except (Discard, Failed, Hang, KeyboardInterrupt):
                raise
            except BaseException as e:
                if not over:
                    out[i] = Outcome(None, e)

        async def main():
            tasks = []
            todo = list(range(len(coros)))
            idle = 0
            while True:
                opts = []
                if todo:
                    opts.append('start')
                opts += [('go', k) for k, (f, cond) in enumerate(self.paused) if cond is None or cond()]
                if not opts:
                    if all(t.done() for t in tasks):
                        break
                    idle += 1
                    if idle > 200:
                        break
                    await asyncio.sleep(0)
                    continue
                idle = 0
                o = self.choice(name, opts)
                if o == 'start':
                    i = todo.pop(0)
                    tasks.append(self.loop.create_task(one(i, coros[i])))
                else:
                    f = self.paused.pop(o[1])[0]
                    if not f.done():
                        f.set_result(None)
                for _ in range(8):
                    await asyncio.sleep(0)
            over.append(True)               # the rest waits for ever
            for t in tasks:
                if t.done():
                    t.result()
                else:
                    t.cancel()
        self.loop.run_until_complete(main())
        return out

    # -- aggregate specs --------------------------------------------------------------------------------
    def concat_map(self, lst, fn):
        return b''.join(fn(x) for x in lst)

    def sum_map(self, lst, fn):
        return sum(fn(x) for x in lst)

    def forall(self, label, lst, fn):
        for j, x in enumerate(lst):
            self.check(label, fn(j, x))

    def forall_pairs(self, label, a, b, fn):
        self.check(label + ' (length)', len(a) == len(b))
        for j in range(len(a)):
            self.check(label, fn(j, a[j], b[j]))

    def some_list(self, lst, pred):
        return any(pred(x) for x in lst)

    def times(self, name, hi=6):
        """range(n) for an arbitrary n >= 0"""
        return range(self.int(name, 0, hi))

    def havoc(self, name, lo, hi):
        return self.int(name, lo, hi)

    def stream_reader(self, cls, data, end, exc=None, name='frag'):
        """A stream reader fed with data in arbitrary fragments, then EOF or an error (or nothing)."""
        rd = cls(loop=self.loop)
        pieces = []
        i = 0
        while i < len(data):
            k = self.int(name, 1, len(data) - i) if len(pieces) < 12 else len(data) - i
            pieces.append(data[i:i + k])
            i += k

        def feed(k=0):
            if k < len(pieces):
                rd.feed_data(pieces[k])
                self.loop.call_soon(feed, k + 1)
            elif end == 'eof':
                rd.feed_eof()
            elif end == 'error':
                rd.set_exception(exc)
        self.loop.call_soon(feed)
        return rd

    def stream_rest(self, rd):
        """Bytes not yet consumed from a stream reader (all fed)."""
        async def settle():
            for _ in range(40):
                await asyncio.sleep(0)
        self.loop.run_until_complete(settle())
        return bytes(rd._buffer)

    def stream_writer(self, cls, transport):
        env = self

        class Proto:
            async def _drain_helper(self):
                if getattr(transport, 'pausing', False):
                    await env.pause()
                if transport.drain_error is not None:
                    raise transport.drain_error

            def _get_close_waiter(self, w):
                return None
        return cls(transport, Proto(), None, self.loop)

    def provide(self, name, **names):
        """Specification objects in place of parts of a standard module, for the code under check only."""
        old = importlib.import_module(name)
        for m in ('concurrent.futures.thread', 'concurrent.futures.process', 'multiprocessing.pool', 'queue', 'socketserver'):
            importlib.import_module(m)      # (they import parts of the standard library; they are to have the real ones)

        class Module(types.ModuleType):
            def __getattr__(self, n):
                return getattr(old, n)
        m = Module(name)
        m.__dict__.update(names)
        self.provided.append((name, old))
        sys.modules[name] = m
        if '.' in name:
            setattr(sys.modules[name.rpartition('.')[0]], name.rpartition('.')[2], m)

    def rng_log(self):
        return RngLog(self)

    def available(self, lib, flag):
        """Make a crypto back end report itself (un)available."""
        type(lib).isAvailable = staticmethod(lambda: flag)


def load_contracts():
    spec.CONTRACTS.clear()
    d = os.environ.get('PV_CONTRACTS') or os.path.join(HERE, 'contracts')
    sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_') and f != 'common.py':
            importlib.import_module(f[:-3])
    return list(spec.CONTRACTS)


class Nowhere:
    """What the example sessions print and log."""
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


NOWHERE = Nowhere()


def run_once(c, env, limit=20):
    """-> None or (label, detail)"""
    purge()
    os.urandom = _REAL_URANDOM
    sys.modules['nacl.bindings'].randombytes = _REAL_PYNACL
    sys.modules['tweetnacl.raw'].randombytes = _REAL_PYNACL
    env.loop = asyncio.new_event_loop()
    asyncio.set_event_loop(env.loop)
    env.loop.set_exception_handler(lambda *a: None)

    def onalarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    logging.root.handlers = [logging.NullHandler()]
    try:
        with contextlib.redirect_stdout(NOWHERE):
            c.fn(env)
        return None
    except Discard:
        return 'discard'
    except Failed as f:
        return (f.label, f.detail)
    except Hang:
        return ('terminates', 'did not finish within %d s' % limit)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ('no-unexpected-error', '%s: %s at %s' % (type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb[-4:])))
    finally:
        signal.alarm(0)
        for n, m in reversed(env.provided):
            sys.modules[n] = m
            if '.' in n:
                setattr(sys.modules[n.rpartition('.')[0]], n.rpartition('.')[2], m)
        try:
            for t in asyncio.all_tasks(env.loop):
                t.cancel()
            env.loop.run_until_complete(asyncio.sleep(0))
            env.loop.close()
        except BaseException:
            pass


def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()} if len(v) < 4096 else {'z': __import__('base64').b64encode(__import__('zlib').compress(bytes(v))).decode()}
    if isinstance(v, (list, tuple)):
        if len(v) > 64 and all(isinstance(x, bytes) for x in v):
            import zlib, base64, pickle
            return {'L': base64.b64encode(zlib.compress(pickle.dumps(list(v)))).decode()}
        return {'l': [enc(x) for x in v]}
    return {'i': int(v)}


def dec(v):
    if 'b' in v:
        return bytes.fromhex(v['b'])
    if 'z' in v:
        import zlib, base64
        return zlib.decompress(base64.b64decode(v['z']))
    if 'L' in v:
        import zlib, base64, pickle
        return pickle.loads(zlib.decompress(base64.b64decode(v['L'])))
    if 'l' in v:
        return [dec(x) for x in v['l']]
    return v['i']


def profile(k):
    if k == 0:
        return {'min': True}
    if k == 1:
        return {'max': True}
    if k % 211 == 40:
        return {'many': True, 'cap': 3}
    if k % 53 == 30:
        return {'huge': True, 'cap': 20}
    if k % 5 == 2:
        return {'big': True}
    if k % 5 == 3:
        return {'cap': 20}
    return {}


def sample(prop, seed, seconds, out, journal, only=None, extra=None):
    install_tweetnacl()
    cs = [c for c in load_contracts() if c.prop == prop and (only is None or c.name in only)]
    consts = mine_constants()
    if extra:
        consts = (sorted(set(consts[0]) | set(extra.get('ints', []))), sorted(set(consts[1]) | set(bytes.fromhex(x) for x in extra.get('blobs', []))))
    res = {'contracts': {}, 'failure': None}
    total = sum(c.samples for c in cs) or 1
    for c in cs:
        budget = seconds * c.samples / total
        t0 = time.time()
        k = n = disc = 0
        seen = set()
        covered = set()
        checks = 0
        first = None
        while time.time() - t0 < budget or k < 8:
            if k > 20000:
                break
            rng = random.Random('%s/%s/%s/%d' % (seed, prop, c.name, k))
            env = CEnv(rng, consts, prof=profile(k))
            with open(journal, 'w') as h:
                json.dump({'contract': c.name, 'k': k}, h)
            r = run_once(c, env)
            checks += env.checks
            covered |= env.covered
            if r == 'discard':
                disc += 1
            else:
                n += 1
                seen.add(hash(repr(env.inputs)))
                if first is None or k == 3:
                    first = [[a, (repr(b) if len(repr(b)) < 80 else repr(b)[:77] + '...')] for a, b in env.inputs][:12]
                if r is not None and r[0] == 'terminates' and 'huge' in profile(k):
                    r = None
                if r is not None:
                    # must be reproducible in the same process before it is believed
                    env2 = CEnv(random.Random(0), consts, replay=dict(env.inputs), prof=profile(k))
                    r2 = run_once(c, env2)
                    if r2 is not None and r2 != 'discard':
                        res['failure'] = {'contract': c.name, 'label': r[0], 'detail': r[1], 'k': k,
                                          'inputs': [[a, enc(b)] for a, b in env.inputs]}
                        break
            k += 1
        res['contracts'][c.name] = {'runs': n, 'discarded': disc, 'distinct': len(seen), 'checks': checks, 'sample': first,
                                    'missing_covers': sorted(set(c.covers) - covered), 's': round(time.time() - t0, 2)}
        if res['failure']:
            break
    if HINT_ERRORS:
        res['hint_errors'] = sorted(HINT_ERRORS)[:10]
    with open(out, 'w') as h:
        json.dump(res, h)


def replay(path, out):
    install_tweetnacl()
    with open(path) as h:
        r = json.load(h)
    cs = [c for c in load_contracts() if c.name == r['contract'] and c.prop == r['property']]
    if not cs:
        res = {'error': 'no such contract'}
    else:
        env = CEnv(random.Random('replay'), mine_constants(), replay={a: dec(b) for a, b in r['inputs']}, prof={'min': True})
        x = run_once(cs[0], env)
        res = {'result': x, 'inputs': [[a, enc(b)] for a, b in env.inputs]}
    with open(out, 'w') as h:
        json.dump(res, h)


if __name__ == '__main__':
    if sys.argv[1] == 'sample':
        o = json.loads(sys.argv[7]) if len(sys.argv) > 7 else {}
        sample(sys.argv[2], sys.argv[3], float(sys.argv[4]), sys.argv[5], sys.argv[6], only=o.get('only'), extra=o.get('extra'))
    else:
        replay(sys.argv[2], sys.argv[3])

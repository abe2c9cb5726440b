"""Symbolic environment of the contracts (same interface as CEnv in concrete.py)."""
import z3
from . import core, ropes, lists, rt, loader, crypt, spec
from .core import SInt, SBool, Unsupported, PathEnd, EngineSignal, norm, term, mk_int, mk_bool, zb
from .ropes import S, zt, leq, same, decide, mk_bytes, need, pieces_of, total, pyerr, Base, Arr
from .lists import MList, Items, Map, MapDef
from .spec import Outcome


class Spec:
    """Specification functions for the primitives."""
    sha512 = staticmethod(lambda m: crypt.sha512(m))
    box = staticmethod(lambda m, n, k: crypt.box(m, n, k))
    box_open = staticmethod(lambda c, n, k: crypt.box_open(c, n, k))
    signed = staticmethod(lambda m, sk: crypt.signed(m, sk))
    verify = staticmethod(lambda sm, pk: crypt.verify(sm, pk))
    enc_pub = staticmethod(lambda sk: crypt.enc_pub(sk))
    shared = staticmethod(lambda pk, sk: crypt.shared(pk, sk))
    sig_pair = staticmethod(lambda seed: crypt.sig_pair(seed))


class Pause:
    def __init__(self, cond=None):
        self.cond = cond

    def __await__(self):
        yield loader.PauseTok(self.cond)


class RngLog:
    def served(self, r, kind):
        return any(k == kind and crypt.provably((x,), (r,)) for k, x, n in S().run_state.get('rng', []))

    def last(self, kind):
        xs = [x for k, x, n in S().run_state.get('rng', []) if k == kind]
        return xs[-1] if xs else b''


class Proto:
    _pv_model = True

    def __init__(self, tr):
        self.tr = tr

    async def _drain_helper(self):
        if getattr(self.tr, 'pausing', False):
            await Pause()
        e = self.tr.drain_error
        if e is not None:
            raise pyerr(e)


MAXLEN = 2 ** 61     # no Python object is longer


class SEnv:
    symbolic = True
    _pv_model = True

    def __init__(self):
        self.used = {}
        self.crypto = Spec()

    # -- inputs
    def _key(self, name, kind, v):
        st = S()
        if st.loop_idx:
            st.inputs.append((None, kind, v))
            return
        k = self.used.get(name, 0)
        self.used[name] = k + 1
        st.inputs.append((name if k == 0 else '%s#%d' % (name, k), kind, v))

    def int(self, name, lo, hi, hint=None):
        st = S()
        lo, hi = norm(term(lo)), norm(term(hi))
        v = st.fresh('i.' + name, z3.IntSort())
        if isinstance(lo, int) and isinstance(hi, int):
            if lo > hi:
                raise PathEnd('empty range')
        st.add(z3.And(v >= lo, v <= hi))
        if not (isinstance(lo, int) and isinstance(hi, int)) and not st.feasible():
            raise PathEnd('empty range')
        self._key(name, 'i', v)
        return SInt(v)

    def havoc(self, name, lo, hi):
        return self.int(name, lo, hi)

    def bool(self, name):
        st = S()
        if st.loop_idx:
            b = st.branch(st.fresh('b.' + name, z3.BoolSort()))
        else:
            b = st.choose(2) == 1
        self._key(name, 'c', int(b))
        return b

    def choice(self, name, options):
        st = S()
        options = list(options)
        if len(options) == 1:
            k = 0
        elif st.loop_idx:
            v = st.fresh('c.' + name, z3.IntSort())
            st.add(z3.And(v >= 0, v < len(options)))
            k = 0
            while k < len(options) - 1 and not decide(v == k):
                k += 1
        else:
            k = st.choose(len(options))
        self._key(name, 'c', k)
        return options[k]

    def bytes(self, name, n=None, lo=0, hi=None, hint=None):
        if n is not None:
            n = norm(term(n))
        v = ropes.sym_bytes('y.' + name, n, term(lo), MAXLEN if hi is None else term(hi))
        self._key(name, 'b', v)
        return v

    def bytes_list(self, name, lo=0, hi=None, item_hi=None):
        st = S()
        n = st.fresh('n.' + name, z3.IntSort())
        st.lens.append(n)
        st.add(n >= zt(term(lo)))
        st.add(n <= zt(MAXLEN if hi is None else term(hi)))
        item_hi = MAXLEN if item_hi is None else item_hi
        nm = st.fresh_name('l.' + name)
        idx = list(st.loop_idx)
        k = z3.Int('#l')
        ropes.LENREG[nm + '.len'] = item_hi if isinstance(item_hi, int) else None
        f = z3.Function(nm + '.len', *([z3.IntSort()] * (len(idx) + 2)))
        b = Base(nm, idx + [k], f(*idx, k))
        st.fact(lambda j: z3.And(f(*idx, j) >= 0, f(*idx, j) <= item_hi), 0, n)
        d = MapDef(k, mk_bytes([Arr(b, 0, f(*idx, k))]))
        m = MList([Map(d, 0, n)])
        self._key(name, 'l', (n, d, f, idx, item_hi))
        return m

    def times(self, name, hi=6):
        st = S()
        n = st.fresh('t.' + name, z3.IntSort())
        st.add(z3.And(n >= 0, n <= 2 ** 60))      # no history is longer
        st.lens.append(n)
        self._key(name, 'i', n)
        return rt.SRange(0, SInt(n))

    # -- obligations
    def check(self, label, cond):
        rt.unpoison(cond)
        if isinstance(cond, SInt):
            cond = mk_bool(cond.t != 0)
        if not isinstance(cond, SBool):
            cond = bool(cond)
        S().oblige(label, zb(cond))

    def assume(self, cond):
        st = S()
        if not isinstance(cond, SBool):
            cond = bool(cond)
        c = zb(cond)
        if z3.is_false(c):
            raise PathEnd('assumption')
        st.add(c)
        if not st.feasible():
            raise PathEnd('assumption')

    def outside(self, kind, name):
        if spec.outside(kind, name):
            raise Unsupported('%s.%s is not part of the specification object' % (kind, name))

    def cover(self, label):
        st = S()
        if label not in st.covered and not st.infer and st.solver.check() == z3.sat:
            st.covered.add(label)

    # -- running code
    def mod(self, name):
        return loader.import_module(name)

    def call(self, fn, *a, **k):
        try:
            if a and isinstance(a[-1], rt.Splat):
                return Outcome(rt.call(fn, tuple(a[:-1]) + (rt.Star(MList(a[-1].segs, tup=True)),), k))
            return Outcome(fn(*a, **k))
        except EngineSignal:
            raise
        except BaseException as e:
            rt.check_exc(e)
            if core.TRACE:
                import traceback
                traceback.print_exc()
            return Outcome(None, e)
    call._pv_splat = True

    def run(self, coro):
        return self.call(loader.get_event_loop().run_until_complete, coro)

    def drive(self, coro):
        return self.call(loader.drive, coro)

    def pause(self):
        return Pause()

    def wait(self, cond):
        return Pause(cond)

    def interleave(self, coros, name='step'):
        st = S()
        coros = list(coros)
        out = [None] * len(coros)
        todo = list(range(len(coros)))
        paused = []
        depth = len(st.loopstack)

        def step(i):
            while True:
                try:
                    tok = coros[i].send(None)
                except StopIteration as e:
                    out[i] = Outcome(e.value)
                    return
                except EngineSignal:
                    raise
                except BaseException as e:
                    rt.check_exc(e)
                    out[i] = Outcome(None, e)
                    return
                if isinstance(tok, loader.PauseTok):
                    if any(L.inductive for L in st.loopstack[depth:]):
                        raise Unsupported('a coroutine is suspended inside a loop')
                    paused.append((i, tok.cond))
                    return
                if tok != 'sleep':
                    raise Unsupported('suspension of a coroutine')

        def ready(cond):
            if cond is None:
                return True
            r = cond()
            if not isinstance(r, bool):
                raise Unsupported('a wait for a condition on unknown values')
            return r
        n = 0
        while True:
            opts = (['start'] if todo else []) + [k for k, (i, cond) in enumerate(paused) if ready(cond)]
            if not opts:
                break                       # all done, or the rest waits for ever
            n += 1
            if n > 200:
                raise Unsupported('schedule too long')
            o = self.choice(name, opts)
            step(todo.pop(0) if o == 'start' else paused.pop(o)[0])
        return out

    # -- aggregate specs
    def _over(self, d, lo, hi, fn):
        """fn(element k) for an arbitrary lo <= k < hi, as a template over k; no case distinction allowed in fn."""
        st = S()
        k = st.fresh('k', z3.IntSort())
        names = ('pc', 'idx_terms', 'facts', 'sums', 'ranges', 'sumtab', 'opaque', 'bfacts', 'bterms')
        keep = {n: getattr(st, n).copy() for n in names}
        st.solver.push()
        g = st.genuine
        st.loop_idx = st.loop_idx + [k]
        try:
            st.add(z3.And(k >= zt(lo), k < zt(hi)))
            st.index_term(k)
            r = fn(d.at(k))
            if st.genuine != g:
                raise Unsupported('case distinction over the elements of a list in a specification')
        finally:
            st.loop_idx = st.loop_idx[:-1]
            st.solver.pop()
            for n in names:
                setattr(st, n, keep[n])
        return k, r

    def _segs(self, lst):
        m = rt.symlist(lst)
        if m is None:
            return [Items(list(rt.native_items(lst)))]
        return m.segs

    def concat_map(self, lst, fn):
        out = []
        for s in self._segs(lst):
            if isinstance(s, Items):
                for x in s.v:
                    out.extend(need(fn(x)))
            elif decide(zt(s.n) > 0):
                k, r = self._over(s.d, s.lo, s.hi, fn)
                out.append(ropes.Fold(ropes.FoldDef(k, list(need(r))), s.lo, s.hi))
        return mk_bytes(out)

    def sum_map(self, lst, fn):
        t = 0
        for s in self._segs(lst):
            if isinstance(s, Items):
                for x in s.v:
                    t = t + term(fn(x))
            elif decide(zt(s.n) > 0):
                k, r = self._over(s.d, s.lo, s.hi, fn)
                P = ropes.get_sum(k, zt(term(r)))
                t = t + P.at(s.hi) - P.at(s.lo)
        return mk_int(t)

    def forall(self, label, lst, fn):
        pos = 0
        st = S()
        for s in self._segs(lst):
            if isinstance(s, Items):
                for j, x in enumerate(s.v):
                    self.check(label, fn(mk_int(pos + j), x))
            else:
                if st.choose(2) == 0:
                    j = st.fresh('j', z3.IntSort())
                    st.add(z3.And(j >= 0, j < zt(s.n)))
                    st.index_term(norm(j + s.lo))
                    if not st.feasible():
                        raise PathEnd('no element')
                    self.check(label, fn(mk_int(pos + j), s.d.at(norm(j + s.lo))))
                    raise PathEnd('arbitrary element checked')
            pos = norm(pos + s.n)

    def forall_pairs(self, label, a, b, fn):
        A = MList(self._segs(a), tup=True)
        C = MList(self._segs(b), tup=True)
        n, m = A.size(), C.size()
        self.check(label + ' (length)', mk_bool(zt(n) == zt(m)))
        st = S()
        if isinstance(n, int) and isinstance(m, int):
            for j in range(n):
                self.check(label, fn(j, A.at(j), C.at(j)))
            return
        if st.choose(2) == 0:
            j = st.fresh('j', z3.IntSort())
            st.add(z3.And(j >= 0, j < zt(n)))
            st.index_term(j)
            if not st.feasible():
                raise PathEnd('no element')
            self.check(label, fn(mk_int(j), A.at(j), C.at(j)))
            raise PathEnd('arbitrary element checked')

    def some_list(self, lst, pred):
        st = S()
        for s in self._segs(lst):
            if isinstance(s, Items):
                for x in s.v:
                    if pred(x):
                        return True
            elif decide(zt(s.n) > 0):
                k, r = self._over(s.d, s.lo, s.hi, pred)
                if isinstance(r, bool):
                    if r:
                        return True
                    continue
                b = zb(r)
                e = st.fresh('some', z3.BoolSort())
                if st.branch(e):
                    w = st.fresh('w', z3.IntSort())
                    st.add(z3.And(w >= zt(s.lo), w < zt(s.hi)))
                    st.index_term(w)
                    st.add(z3.substitute(b, (k, w)))
                    if not st.feasible():
                        raise PathEnd('no element')
                    return True
                st.fact(lambda j, b=b, k=k: z3.Not(z3.substitute(b, (k, j))), s.lo, s.hi)
                for t in list(st.idx_terms):
                    pass
        return False

    # -- streams
    def stream_reader(self, cls, data, end, exc=None, name='frag'):
        rd = cls(loop=loader.get_event_loop())
        rd.pv_feed(data, end, exc)
        return rd

    def stream_rest(self, rd):
        return rd.d

    def stream_writer(self, cls, transport):
        return cls(transport, Proto(transport), None, loader.get_event_loop())

    def provide(self, name, **names):
        loader.import_module(name).__dict__.update(names)

    def rng_log(self):
        return RngLog()

    def available(self, lib, flag):
        type(lib).isAvailable = staticmethod(lambda: flag)


# ---- counterexamples -----------------------------------------------------------------------------------------------
MAXBYTES = 1 << 25
SLOW = 300000


def extract(model):
    """Model -> [[key, encoded value]] or None."""
    st = S()

    def ev(t):
        if isinstance(t, int):
            return t
        v = model.eval(t, model_completion=True)
        return v.as_long()

    def table(f, k, o, n):
        """The bytes from the interpretation of f, where it is a table."""
        fi = model[f]
        if fi is None:
            return bytes(n)
        dflt = fi.else_value()
        if dflt is None or not z3.is_int_value(dflt):
            return None
        buf = bytearray([dflt.as_long() % 256]) * n
        for e in range(fi.num_entries()):
            e = fi.entry(e)
            i = e.arg_value(len(k)).as_long() - o
            if 0 <= i < n and all(e.arg_value(j).as_long() == x for j, x in enumerate(k)):
                buf[i] = e.value().as_long() % 256
        return buf

    def evb(ps):
        out = bytearray()
        for p in ps:
            n = ev(p.n)
            if n < 0 or n + len(out) > MAXBYTES:
                raise ValueError('too long')
            if isinstance(p, ropes.Lit):
                out += p.b
            elif isinstance(p, Arr):
                o = ev(p.off)
                f = p.base.fn
                a = [z3.IntVal(ev(x)) for x in p.base.args]
                try:
                    buf = table(f, [x.as_long() for x in a], o, n)
                except z3.Z3Exception:
                    buf = None
                if buf is not None:
                    out += buf
                    continue
                if n > SLOW:
                    raise ValueError('too long')
                for i in range(n):
                    out.append(ev(f(*a, z3.IntVal(o + i))) % 256)
            else:
                raise ValueError('shape')
        return bytes(out)

    res = []
    try:
        for key, kind, v in st.inputs:
            if key is None:
                return None
            if kind == 'i':
                res.append([key, {'i': ev(v)}])
            elif kind == 'c':
                res.append([key, {'i': v}])
            elif kind == 'b':
                res.append([key, {'b': evb(need(v)).hex()}])
            elif kind == 'l':
                n, d, f, idx, item_hi = v
                k = ev(n)
                if k > 70000:
                    return None
                items = []
                for j in range(k):
                    L = ev(f(*[z3.IntVal(ev(x)) for x in idx], z3.IntVal(j)))
                    L = max(0, min(L, item_hi if item_hi is not None else MAXBYTES))
                    x = need(d.at(j))
                    if L == 0:
                        items.append({'b': ''})
                        continue
                    items.append({'b': evb([Arr(x[0].base, 0, L)]).hex() if isinstance(x[0], Arr) else evb(x).hex()})
                res.append([key, {'l': items}])
    except (ValueError, AttributeError):
        return None
    return res

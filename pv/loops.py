"""Loops of the code under proof.

A loop over a concrete sequence (or whose test does not depend on unknown values) is executed as it is.  Any other
loop is handled by an inductive invariant, inferred here and then proved:

* every local variable and heap location the body changes gets a *shape*: its value after N iterations, as a term
  in N and in the value it had when the loop was entered (v0 + c*N, v0 + a prefix sum, a history function defined by
  its recursion, a concatenation, an indexed list, a shrinking list, or "unknown");
* T(j): what every completed iteration j has established (the disjunction of its paths' conditions);
* simple bounds.

One generic iteration N is explored from the shapes at N.  When it comes back to the head of the loop, the shapes at
N+1, the bounds and T(N) are proof obligations; everything after the loop starts from the shapes at the exit.
Anything the shapes do not cover is poisoned: reading it makes the contract undecided, never proved.
"""
import hashlib, math, sys, types
import z3
from . import core, ropes, lists
from .core import SInt, SBool, Unsupported, PathEnd, Restart, NeedInfer, EngineSignal, norm, term, mk_int, mk_bool
from .ropes import S, zt, leq, decide, same, revive, mk_bytes, pieces_of, total, need, split, subst_val, subst_piece, FoldDef, Fold, Arr, Lit, Num, Rep, norm_pieces, num_value, get_sum, rec_sum, SBytes
from .lists import MList, Items, Map, MapDef, norm_segs, split_segs

MISSING = object()


# ---- loops executed as they are ------------------------------------------------------------------------------
class ConcLoop:
    """A loop executed as it is (concrete iterable, or unrolled up to a bound)."""
    inductive = False

    def __init__(self, site, it=None, segs=None, key=None):
        self.site, self.it, self.segs, self.key = site, it, segs, key
        self.k = 0
        self.pos0 = S().pos
        self.forks = 0
        self.cur = None
        self.last = S().genuine

    def note(self, n, attr):
        pass

    def more(self):
        if self.segs is None:
            try:
                self.cur = next(self.it)
                return True
            except StopIteration:
                return False
        while self.segs:
            s = self.segs[0]
            if isinstance(s, Items):
                if not s.v:
                    self.segs.pop(0)
                    continue
                self.cur = s.v[0]
                self.segs[0] = Items(s.v[1:])
                return True
            if not decide(zt(s.lo) < zt(s.hi)):
                self.segs.pop(0)
                continue
            self.k += 1
            if self.k > S().unroll:
                cut(self.site)
            S().index_term(s.lo)
            self.cur = s.d.at(s.lo)
            self.segs[0] = Map(s.d, norm(s.lo + 1), s.hi)
            return True
        return False

    def item(self):
        return self.cur

    def test(self, c, forever=False):
        st = S()
        g = st.genuine
        from . import rt
        rt.unpoison(c)
        r = bool(c)
        if st.genuine != g or (r and st.genuine != self.last):
            if st.genuine != g and r or st.genuine == g:
                self.forks += 1
            if st.unroll is not None:
                if self.forks > st.unroll:
                    cut(self.site)
            elif st.genuine != g or self.forks > (0 if forever else 3):
                st.cuts.add(self.key)
                if st.hypdepth:
                    raise Unsupported('loop at %s inside a hypothetical argument' % self.site)
                raise Restart('loop at %s' % self.site, self.pos0)
        self.last = st.genuine
        return r


def cut(site):
    st = S()
    st.stats['bounded_cuts'] += 1
    st.bounded = True
    raise PathEnd('unrolling bound at ' + site)


# ---- values ----------------------------------------------------------------------------------------------------
def boolish(v):
    return isinstance(v, (bool, SBool))


def numeric(v):
    return isinstance(v, (int, SInt, SBool))


def ztb(v):
    return core.zb(v)


def is_heap(v):
    return not (v is None or isinstance(v, (int, float, str, bytes, SInt, SBool, SBytes, type, types.FunctionType, types.BuiltinFunctionType)))


def plain(v):
    """consists of immutable values only: may occur in a template"""
    if v is None or isinstance(v, (int, float, str, bytes, SInt, SBool, SBytes)):
        return True
    if type(v) is tuple:
        return all(plain(x) for x in v)
    if isinstance(v, MList) and v.tup:
        return all(all(plain(x) for x in s.v) if isinstance(s, Items) else plain(s.d.template) for s in v.segs)
    return hasattr(type(v), '_pv_subst')


def immutable(v):
    return not is_heap(v) and plain(v) or type(v) is tuple and all(immutable(x) for x in v)


def vkey(v):
    if isinstance(v, (SInt,)):
        return 'i' + norm_s(v.t)
    if isinstance(v, SBool):
        return 'b' + v.b.sexpr()
    if isinstance(v, SBytes):
        return 'y' + '+'.join(p.key() for p in v.p)
    if type(v) is tuple:
        return 't(' + ','.join(vkey(x) for x in v) + ')'
    return type(v).__name__ + repr(v)


def norm_s(t):
    return str(t) if isinstance(t, int) else t.sexpr()


def unchanged(a, b):
    if a is b:
        return True
    if numeric(a) and numeric(b):
        if boolish(a) != boolish(b):
            return False
        if boolish(a):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            c = z3.simplify(ztb(a) == ztb(b))
            return z3.is_true(c)
        return norm(zt(term(a)) - zt(term(b))) == 0 if not (isinstance(a, int) and isinstance(b, int)) else a == b
    if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
        return vkey(mk_bytes(pieces_of(a))) == vkey(mk_bytes(pieces_of(b)))
    if type(a) is type(b) and a.__class__ in (str, float):
        return a == b
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, MList) and a.tup and isinstance(b, MList) and b.tup:
        return plain(a) and plain(b) and repr(a) == repr(b)
    return False


def segs_unchanged(a, b):
    """contents of a list"""
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if isinstance(p, Items) != isinstance(q, Items):
            return False
        if isinstance(p, Items):
            if len(p.v) != len(q.v) or not all(unchanged(x, y) for x, y in zip(p.v, q.v)):
                return False
        elif p is not q:
            if not (p.d is q.d or p.d.key == q.d.key) or norm_s(p.lo) != norm_s(q.lo) or norm_s(p.hi) != norm_s(q.hi):
                return False
    return True


class Fail(Exception):
    pass


def merge(c, a, b):
    """If(c, a, b) on values; Fail where that has no representation."""
    if a is b:
        return a
    if numeric(a) and numeric(b):
        if boolish(a) and boolish(b):
            return mk_bool(z3.If(c, ztb(a), ztb(b)))
        if unchanged(a, b):
            return a
        return mk_int(z3.If(c, zt(term(a)), zt(term(b))))
    if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
        return mk_bytes(merge_pieces(c, list(pieces_of(a)), list(pieces_of(b))))
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, MList) and isinstance(b, MList) and a.tup and b.tup:
        if repr(a) == repr(b):
            return a
        if len(a.segs) == len(b.segs) and all(isinstance(s, Items) for s in a.segs + b.segs):
            return MList([Items([merge(c, x, y) for x, y in zip(p.v, q.v)]) for p, q in zip(a.segs, b.segs)], tup=True)
    if isinstance(a, (str, float)) and a == b:
        return a
    raise Fail()


def merge_pieces(c, a, b):
    out = []
    while a or b:
        if not a or not b:
            raise Fail()
        p, q = a[0], b[0]
        if isinstance(p, Lit) and isinstance(q, Lit):
            n = min(len(p.b), len(q.b))
            i = 0
            while i < n:
                if p.b[i] == q.b[i]:
                    out.append(Lit(p.b[i:i + 1]))
                else:
                    out.append(Num(z3.If(c, z3.IntVal(p.b[i]), z3.IntVal(q.b[i])), 1))
                i += 1
            a[0:1] = [Lit(p.b[n:])] if n < len(p.b) else []
            b[0:1] = [Lit(q.b[n:])] if n < len(q.b) else []
            continue
        if p.key() == q.key():
            out.append(p)
            a.pop(0), b.pop(0)
            continue
        if isinstance(p, (Lit, Num)) and isinstance(q, (Lit, Num)):
            if isinstance(p, Lit):
                n = min(len(p.b), q.n)
                if n != q.n:
                    raise Fail()
                x, y = z3.IntVal(int.from_bytes(p.b[:n], 'little')), q.t
                a[0:1] = [Lit(p.b[n:])] if n < len(p.b) else []
                b.pop(0)
            elif isinstance(q, Lit):
                n = min(len(q.b), p.n)
                if n != p.n:
                    raise Fail()
                x, y = p.t, z3.IntVal(int.from_bytes(q.b[:n], 'little'))
                b[0:1] = [Lit(q.b[n:])] if n < len(q.b) else []
                a.pop(0)
            else:
                if p.n != q.n:
                    raise Fail()
                n, x, y = p.n, p.t, q.t
                a.pop(0), b.pop(0)
            out.append(Num(z3.If(c, x, y), n))
            continue
        if isinstance(p, Arr) and isinstance(q, Arr) and p.base.name == q.base.name and len(p.base.args) == len(q.base.args) and not p.base.origin:
            if all(norm_s(x) == norm_s(y) for x, y in zip(p.base.args, q.base.args)):
                out.append(Arr(p.base, norm(z3.If(c, zt(p.off), zt(q.off))), norm(z3.If(c, zt(p.n), zt(q.n)))))
                a.pop(0), b.pop(0)
                continue
        raise Fail()
    return out


def occurs_n(v, N):
    """does the template depend on the iteration?"""
    if isinstance(v, z3.ExprRef):
        return ropes.occurs_t(v, N)
    if isinstance(v, int) or v is None:
        return False
    if isinstance(v, SInt):
        return ropes.occurs_t(v.t, N)
    if isinstance(v, SBool):
        return ropes.occurs_t(v.b, N)
    return True


def has_app(t, name):
    if isinstance(t, int):
        return False
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            return True
        todo.extend(x.children())
    return False


# ---- shapes ----------------------------------------------------------------------------------------------------
class Shape:
    """value after N iterations; N0 is the index its templates are written in"""
    exact = True

    def assumes(self, v0, N):
        """part of the invariant used by at(v0, N): proved at every back edge for the next N"""
        return []


class Step(Shape):
    def __init__(self, c):
        self.c = c
        self.key = 'step ' + norm_s(c)

    def at(self, v0, N):
        return mk_int(norm(zt(term(v0)) + self.c * zt(N)))


class SumShape(Shape):
    """v0 plus (or minus) a prefix sum; the summand may depend on the sum so far (own)"""

    def __init__(self, N0, body, sign, own=None):
        # body in terms of N0; sign +1: body >= 0, -1: body <= 0, 0: unknown
        self.N0, self.body, self.sign, self.o = N0, zt(body), sign, own
        b = self.body if own is None else z3.substitute(self.body, (own, ropes.SELF))
        self.key = 'sum %d %s' % (sign, b.sexpr())

    def sum(self):
        b = norm(-self.body) if self.sign < 0 else self.body
        if self.o is None:
            return get_sum(self.N0, b)
        if self.sign < 0:
            b = z3.substitute(zt(b), (self.o, -self.o))
        return rec_sum(self.N0, b, self.o)

    def at(self, v0, N):
        s = self.sum()
        if self.sign:
            s.horizon(N)
        p = s.at(N)
        return mk_int(norm(zt(term(v0)) - p if self.sign < 0 else zt(term(v0)) + p))

    def assumes(self, v0, N):
        # the last summand has the sign that the earlier ones have
        return [] if not self.sign or (isinstance(N, int) and N == 0) else [zt(self.sum().f(norm(zt(N) - 1))) >= 0]

    def own(self):
        return self.sum().name


class Prov(Shape):
    """v0 + U(N), U unknown: to find out how the change of a variable depends on it"""

    def __init__(self, name, idx):
        self.name, self.idx = name, list(idx)
        self.key = 'prov ' + name
        self.fn = z3.Function(name, *([z3.IntSort()] * (len(self.idx) + 2)))

    def u(self, N):
        return self.fn(*(self.idx + [zt(N)]))

    def at(self, v0, N):
        S().add(self.u(0) == 0, aux=True)
        if isinstance(N, int) and N == 0:
            return v0
        return mk_int(norm(zt(term(v0)) + self.u(N)))


class Grp(Shape):
    """v0 + g*G(N): G, shared by the locations of a group, grows by one of `steps` in every iteration"""
    exact = False

    def __init__(self, name, idx, g, steps):
        self.name, self.idx, self.g, self.steps = name, list(idx), g, steps
        self.key = 'grp %s %d %s' % (name, g, steps)
        self.fn = z3.Function(name, *([z3.IntSort()] * (len(self.idx) + 2)))

    def at(self, v0, N):
        st = S()
        if isinstance(N, int) and N == 0:
            return v0
        h = self.fn(*(self.idx + [zt(N)]))
        st.add(z3.And(h >= min(self.steps) * zt(N), h <= max(self.steps) * zt(N)), aux=True)
        st.inexact = st.inexact or 'loop'
        return mk_int(norm(zt(term(v0)) + self.g * h))


class Assign(Shape):
    def __init__(self, N0, value):
        self.N0, self.value = N0, value
        self.key = 'assign ' + vkey(value)

    def at(self, v0, N):
        if isinstance(N, int):
            if N == 0 and v0 is MISSING:
                return PoisonShape().at(None, N)
            return v0 if N == 0 else subst_val(self.value, self.N0, zt(N - 1))
        prev = subst_val(self.value, self.N0, zt(norm(N - 1)))
        st = S()
        if st.prove(zt(N) >= 1):
            return prev
        if v0 is MISSING:
            pass
        elif boolish(v0) and boolish(prev):
            return mk_bool(z3.If(zt(N) == 0, ztb(v0), ztb(prev)))
        if numeric(v0) and numeric(prev):
            return mk_int(z3.If(zt(N) == 0, zt(term(v0)), zt(term(prev))))
        from . import rt
        return rt.Poison('value of the previous iteration, or of none')


class Hist(Shape):
    """h(N), with h(0) = v0 and h(j+1) = step(j, h(j))"""

    def __init__(self, name, idx, isbool, N0, step):
        self.name, self.idx, self.isbool, self.N0, self.step = name, list(idx), isbool, N0, step
        self.key = 'hist %s %s' % (name, 'None' if step is None else step.sexpr())
        self.fn = z3.Function(name, *([z3.IntSort()] * (len(self.idx) + 1) + [z3.BoolSort() if isbool else z3.IntSort()]))

    def h(self, N):
        return self.fn(*(self.idx + [zt(N)]))

    def at(self, v0, N):
        st = S()
        if isinstance(N, int) and N == 0:
            return v0
        if self.step is not None:
            st.add(self.h(0) == (ztb(v0) if self.isbool else zt(term(v0))), aux=True)
            st.fact(lambda j: self.h(j + 1) == revive(z3.substitute(self.step, (self.N0, j))), 0, N)
            st.index_term(N)
            st.index_term(norm(zt(N) - 1))
        r = self.h(N)
        return mk_bool(r) if self.isbool else mk_int(r)


class FoldShape(Shape):
    def __init__(self, N0, pieces):
        self.N0, self.pieces = N0, pieces
        self.key = 'fold ' + '+'.join(p.key() for p in pieces)

    def at(self, v0, N):
        return mk_bytes(list(need(v0)) + [Fold(FoldDef(self.N0, self.pieces), 0, N)])


class Tele(Shape):
    """appended: consecutive parts of one byte string"""

    def __init__(self, N0, base, off):
        self.N0, self.base, self.off = N0, base, off
        self.key = 'tele %s(%s) %s' % (base.name, ','.join(norm_s(a) for a in base.args), norm_s(off))

    def at(self, v0, N):
        o0 = ropes.subst_term(zt(self.off), self.N0, z3.IntVal(0))
        oN = ropes.subst_term(zt(self.off), self.N0, zt(N))
        n = norm(oN - o0)
        return mk_bytes(list(need(v0)) + [Arr(self.base, o0, n)])


class BCut(Shape):
    """a byte string that loses a prefix of total length P(N)"""

    def __init__(self, N0, k):
        self.N0, self.k = N0, zt(k)
        self.key = 'bcut ' + self.k.sexpr()

    def assumes(self, v0, N):
        if isinstance(N, int) and N == 0:
            return []
        s = get_sum(self.N0, self.k)
        return [zt(s.f(norm(zt(N) - 1))) >= 0, zt(s.at(N)) <= zt(total(need(v0)))]

    def at(self, v0, N):
        s = get_sum(self.N0, self.k)
        s.horizon(N)
        p = s.at(N)
        ps = need(v0)
        S().add(zt(p) <= zt(total(ps)), aux=True)
        return mk_bytes(split(ps, p)[1])


class Append(Shape):
    """list contents: v0 plus one item per iteration"""

    def __init__(self, N0, item):
        self.N0, self.item = N0, item
        self.d = MapDef(N0, item)
        self.key = 'append ' + self.d.key

    def at(self, v0, N):
        return tuple(norm_segs(list(v0) + [Map(self.d, 0, N)]))


class Cut(Shape):
    """list contents: v0 without the first k*N items"""

    def __init__(self, k):
        self.k = k
        self.key = 'cut %d' % k

    def assumes(self, v0, N):
        return [zt(norm(self.k * zt(N))) <= zt(MList(v0, tup=True).size())]

    def at(self, v0, N):
        k = norm(self.k * zt(N))
        for c in self.assumes(v0, N):
            S().add(c, aux=True)
        return tuple(split_segs(list(v0), k)[1])


class MemShape(Shape):
    """fixed-size memory: parts [(lo, size, shape)], the rest is constant"""

    def __init__(self, n, parts):
        self.n, self.parts = n, parts
        self.key = 'mem %s' % ([(lo, sz, sh.key) for lo, sz, sh in parts],)

    def assumes(self, v0, N):
        r = []
        for lo, sz, sh in self.parts:
            r += sh.assumes(0, N)
        return r

    def at(self, v0, N):
        ps = list(need(v0))
        for lo, sz, sh in self.parts:
            l, r = split(ps, lo)
            m, r = split(r, sz)
            v = sh.at(mk_int(num_value(m)), N)
            if isinstance(v, bytes):
                q = [Lit(v)]
            elif isinstance(v, SBytes):
                q = v.p
            else:
                t = norm(term(v))
                if isinstance(t, int):
                    q = [Lit((t % 256 ** sz).to_bytes(sz, 'little'))]
                else:
                    if not (leq(0, t) and leq(t, 256 ** sz - 1)):
                        t = norm(t % 256 ** sz)
                    q = [Num(zt(t), sz)]
            ps = l + q + r
        return mk_bytes(norm_pieces(ps))


class Havoc(Shape):
    """bytes of known size, unknown content"""
    exact = False

    def __init__(self, name, idx, n):
        self.name, self.idx, self.n = name, list(idx), n
        self.key = 'havoc %s' % n

    def at(self, v0, N):
        S().inexact = S().inexact or 'loop'
        return mk_bytes([Arr(ropes.Base(self.name, self.idx + [zt(N)], self.n), 0, self.n)])


class PoisonShape(Shape):
    key = 'poison'
    exact = False

    def at(self, v0, N):
        from . import rt
        return rt.Poison()


class FloatShape(Shape):
    key = 'float'
    exact = False

    def at(self, v0, N):
        return type(v0)()


# ---- inference ---------------------------------------------------------------------------------------------------
class Rec:
    """What is known about one loop (at one place of the exploration)."""

    def __init__(self, key, site):
        self.key, self.site = key, site
        self.id = hashlib.md5(key.encode()).hexdigest()[:8]
        self.shapes = {}
        self.level = {}
        self.mode = 'seed'
        self.bounds = []              # ('nonneg', loc) | ('test', term)
        self.dropped = set()
        self.T = None                 # None: nothing; else (N0, z3 condition)
        self.rounds = 0
        self.paths = []
        self.N0 = None
        self.problem = None
        self.seeds = []
        self.settled = 0

    def version(self):
        s = repr(sorted((repr(l), sh.key) for l, sh in self.shapes.items())) + repr([b[:1] + tuple(str(x) for x in b[1:]) for b in self.bounds]) + ('' if self.T is None else self.T[1].sexpr())
        return hashlib.md5(s.encode()).hexdigest()[:8]

    def begin_round(self):
        self.paths = []
        self.failed_bounds = set()
        self.candidates = {}
        self.rounds += 1

    def finish_seeds(self):
        """guess shapes from the first two iterations of a path"""
        N = self.N0
        for v0, v1 in self.seeds[:1]:
            vals = {}
            for l in v0:
                if l in v1:
                    try:
                        vals[l] = au_info(v0[l], v1[l], N)
                    except (Fail, z3.Z3Exception):
                        pass
            for l in vals:
                try:
                    sh = self.propose(l, [(z3.BoolVal(True), vals[l])], N)
                except (Fail, Unsupported, KeyError):
                    continue
                if sh is not None and not isinstance(sh, PoisonShape):
                    self.shapes[l] = sh
        self.level = {}
        self.mode = 'infer'

    def finish_round(self):
        """new shapes from the paths of this round; True when nothing changed"""
        old = self.version()
        oldshapes = shape_keys(self.shapes)
        N0 = self.N0
        locs = []
        for p in self.paths:
            for l in p['vals']:
                if l not in locs:
                    locs.append(l)
        for l in self.shapes:
            if l not in locs:
                locs.append(l)
        new = {}
        grp = self.groups(locs)
        for l in locs:
            if l in grp:
                new[l] = grp[l]
                continue
            sums = [(p['cond'], p['vals'].get(l, ('same',))) for p in self.paths]
            if not self.paths:
                continue
            if all(v[0] == 'same' for _, v in sums) and l not in self.shapes:
                continue
            sh = self.propose(l, sums, N0)
            if sh is not None:
                new[l] = sh
        self.shapes = new
        # what an iteration establishes
        if N0 is not None:
            c = summary([p['kept'] for p in self.paths])
            if oldshapes == shape_keys(self.shapes):
                self.settled += 1
            else:
                self.settled = 0
            if self.settled > 1 and self.T is not None:
                # settle: keep what both rounds have found
                c = common(c, self.T[1])
            self.T = (N0, c)
        self.bounds = [b for b in self.bounds if bkey(b) not in self.failed_bounds and (b[0] != 'nonneg' or b[1] in self.shapes)]
        self.dropped |= self.failed_bounds
        for k, b in self.candidates.items():
            if k not in self.dropped and not any(bkey(x) == k for x in self.bounds):
                self.bounds.append(b)
        return self.version() == old and self.rounds > 1

    def groups(self, locs):
        """locations that change by constants which depend on the path in a complicated way: those that change in
        proportion get a common unknown"""
        if len(self.paths) < 2 or (self.rounds < 4 and sum(len(p['cond'].sexpr()) for p in self.paths) < 3000):
            return {}
        out = {}
        for l in locs:
            vec = []
            for p in self.paths:
                v = p['vals'].get(l, ('same',))
                d = 0 if v[0] == 'same' else v[1]['delta'] if v[0] == 'num' else None
                d = norm(d) if d is not None else None
                if not isinstance(d, int):
                    break
                vec.append(d)
            if len(vec) < len(self.paths) or len(set(vec)) < 2 or isinstance(self.shapes.get(l), PoisonShape):
                continue
            g = math.gcd(*vec)
            if next(d for d in vec if d) < 0:
                g = -g
            vec = [d // g for d in vec]
            h = hashlib.md5(repr([(d, p['cond'].sexpr()) for d, p in zip(vec, self.paths)]).encode()).hexdigest()[:6]
            out[l] = (g, vec, h)
        names = {}
        for l, (g, vec, h) in out.items():
            k = tuple(vec)
            names.setdefault(k, 'G@%s.%d' % (self.id, len(names)))
            out[l] = Grp(names[k], self.idx, g, sorted(set(vec)))
        return out

    def propose(self, l, sums, N0):
        kinds = {v[0] for _, v in sums}
        lv = self.level.get(l, 0)
        cur = self.shapes.get(l)
        content = l[0] == 'h' and l[2] == '@'

        def give_up():
            if content:
                raise Unsupported('a container changes irregularly in the loop at %s (%s)' % (self.site, sorted(kinds)))
            return PoisonShape()
        if isinstance(cur, PoisonShape):
            return cur
        if 'set' in kinds and kinds <= {'set', 'num', 'bool', 'bytes'} and all('new' in v[1] for _, v in sums):
            try:
                sh = Assign(N0, self.merged(sums, False))
                if self.rounds < 6 or cur is not None and cur.key == sh.key:
                    return sh
            except Fail:
                pass
            return give_up()
        if 'obj' in kinds or 'missing' in kinds or 'set' in kinds:
            return give_up()
        if kinds <= {'same', 'float'}:
            return FloatShape()
        if kinds <= {'same', 'num', 'bool'}:
            isbool = 'num' not in kinds
            return self.numeric_shape(l, sums, N0, isbool)
        if content or kinds <= {'same', 'bytes'}:
            try:
                return self.content_shape(l, sums, N0, cur)
            except Fail:
                return give_up()
        return give_up()

    def numeric_shape(self, l, sums, N0, isbool, tag=''):
        key = (l, tag)
        lv = self.level.get(key, 0)
        cur = self.shapes.get(l) if not tag else self.subcur
        name = 'H@%s.%s%s' % (self.id, '.'.join(str(x) for x in l[1:]), tag)
        if isbool:
            if lv == 0:
                if all(v[0] != 'same' for _, v in sums):
                    e = self.merged(sums, isbool)
                    if not isinstance(cur, Assign) or cur.key == Assign(N0, e).key or self.rounds < 5:
                        return Assign(N0, e)
                self.level[key] = 1
            if not isinstance(cur, Hist):
                return Hist(name, self.idx, isbool, N0, None)
            h = cur.h(N0)
            vals = [(c, v[1]['new'] if v[0] != 'same' else mk_bool(h)) for c, v in sums]
            e = vals[-1][1]
            for c, x in reversed(vals[:-1]):
                e = merge(c, x, e)
            return Hist(name, self.idx, isbool, N0, ztb(e))
        # the increment, over all paths
        ds = [(c, v[1]['delta'] if v[0] == 'num' else 0, v[1]['sign'] if v[0] == 'num' else 0) for c, v in sums]
        d = zt(ds[-1][1])
        for c, x, s in reversed(ds[:-1]):
            d = d if norm(zt(x) - d) == 0 else z3.If(c, zt(x), d)
        d = norm(d)
        signs = {s for _, x, s in ds if not (isinstance(x, int) and x == 0)}
        sg = 1 if signs <= {1} else -1 if signs <= {-1} else 0
        if lv == 0:
            own = cur.own() if isinstance(cur, SumShape) else None
            if own is None or not has_app(d, own):
                if isinstance(d, int) or not ropes.occurs_t(d, N0):
                    return Step(d)
                if self.rounds < 7:
                    return SumShape(N0, d, sg)
            lv = self.level[key] = 1
        if lv == 1:
            # assigned afresh in every iteration?
            if all(v[0] != 'same' for _, v in sums):
                e = self.merged(sums, isbool)
                t = zt(term(e))
                own = cur.own() if isinstance(cur, SumShape) else None
                if not (own is not None and has_app(t, own)) and (not isinstance(cur, Assign) or cur.key == Assign(N0, e).key or self.rounds < 6):
                    return Assign(N0, e)
            lv = self.level[key] = 2
        # defined by recursion
        if isinstance(cur, Prov):
            return SumShape(N0, d, sg, own=cur.u(N0))
        if isinstance(cur, SumShape):
            own = zt(cur.sum().app(N0))
            if cur.sign < 0:
                d = norm(z3.substitute(zt(d), (own, -own)))
            n = SumShape(N0, d, sg, own=own)
            if n.key == cur.key:
                return cur
            if self.level.get((key, 'rec'), 0) < 3 and cur.o is not None:
                self.level[(key, 'rec')] = self.level.get((key, 'rec'), 0) + 1
                return SumShape(N0, d, sg, own=own)
        return Prov(name, self.idx)

    def merged(self, sums, isbool):
        vals = [(c, v[1]['new']) for c, v in sums]
        e = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            e = merge(c, x, e)
        return e

    def content_shape(self, l, sums, N0, cur):
        vs = [(c, v) for c, v in sums]
        infos = [v[1] if v[0] != 'same' else {} for _, v in vs]

        def all_have(k):
            return all(k in i for i in infos)
        if all_have('tele') and len({Tele(N0, *i['tele']).key for i in infos}) == 1:
            return Tele(N0, *infos[0]['tele'])
        if all_have('tele') and False:
            pass
        if all_have('suffix'):
            e = infos[-1]['suffix']
            for (c, _), i in reversed(list(zip(vs[:-1], infos[:-1]))):
                e = merge_pieces(c, list(i['suffix']), list(e))
            e = norm_pieces(e)
            return FoldShape(N0, e)
        if all_have('bcut'):
            e = zt(infos[-1]['bcut'])
            for (c, _), i in reversed(list(zip(vs[:-1], infos[:-1]))):
                e = e if norm(zt(i['bcut']) - e) == 0 else z3.If(c, zt(i['bcut']), e)
            return BCut(N0, e)
        if all_have('append'):
            e = infos[-1]['append']
            for (c, _), i in reversed(list(zip(vs[:-1], infos[:-1]))):
                e = merge(c, i['append'], e)
            return Append(N0, e)
        if all_have('cut') and len({i['cut'] for i in infos}) == 1:
            return Cut(infos[0]['cut'])
        if any('mem' in i for i in infos) and all('mem' in i or not i for i in infos):
            n = [i for i in infos if i][0]['mem'][0]
            bounds = {0, n}
            for i in infos:
                if i:
                    for (lo, sz, o, w) in i['mem'][1]:
                        bounds |= {lo, lo + sz}
            ranges = [p[:2] for p in zip(sorted(bounds), sorted(bounds)[1:])]
            rs = sorted({(lo, sz) for i in infos if i for (lo, sz, o, w) in i['mem'][1]} | ({(p[0], p[1]) for p in cur.parts} if isinstance(cur, MemShape) else set()))
            # overlapping ranges are merged
            m = []
            for lo, sz in rs:
                if m and lo < m[-1][0] + m[-1][1]:
                    m[-1] = (m[-1][0], max(m[-1][0] + m[-1][1], lo + sz) - m[-1][0])
                else:
                    m.append((lo, sz))
            parts = []
            for lo, sz in m:
                sub = []
                for (c, v), i in zip(vs, infos):
                    if not i:
                        sub.append((c, ('same',)))
                        continue
                    o, w = i['mem'][2](lo, sz)
                    if sz > 8:
                        sub.append((c, ('same',) if unchanged(o, w) else ('big',)))
                        continue
                    a, b = mk_int(num_value(pieces_of(o))), mk_int(num_value(pieces_of(w)))
                    sub.append((c, ('same',) if unchanged(a, b) else ('num', i['mem'][3](a, b))))
                csub = None
                if isinstance(cur, MemShape):
                    for p in cur.parts:
                        if p[0] == lo and p[1] == sz:
                            csub = p[2]
                if any(s[1][0] == 'big' for s in sub) or isinstance(csub, Havoc):
                    parts.append((lo, sz, Havoc('M@%s.%s.%d' % (self.id, '.'.join(str(x) for x in l[1:]), lo), self.idx, sz)))
                    continue
                self.subcur = csub
                parts.append((lo, sz, self.numeric_shape(l, sub, N0, False, tag='.%d' % lo)))
            return MemShape(n, parts)
        if cur is not None and all(not i for i in infos):
            raise Fail()
        if all_have('new') and not (l[0] == 'h' and l[2] == '@'):
            e = self.merged(vs, False)
            if plain(e):
                return Assign(N0, e)
        raise Fail()


def bkey(b):
    return (b[0],) + tuple(x.sexpr() if isinstance(x, z3.ExprRef) else repr(x) for x in b[1:])


def shape_keys(shapes):
    return sorted((repr(l), sh.key) for l, sh in shapes.items())


def common(a, b):
    xs = a.children() if z3.is_and(a) else [a]
    ys = {y.sexpr() for y in (b.children() if z3.is_and(b) else [b])}
    r = [x for x in xs if x.sexpr() in ys]
    return z3.BoolVal(True) if not r else r[0] if len(r) == 1 else z3.And(*r)


def summary(paths):
    """disjunction of the paths' conditions, common ones in front"""
    if not paths:
        return z3.BoolVal(False)
    ks = [{c.sexpr(): c for c in p} for p in paths]
    common = set(ks[0])
    for k in ks[1:]:
        common &= set(k)
    conj = [c for s, c in ks[0].items() if s in common]
    rest = []
    for k in ks:
        r = [c for s, c in k.items() if s not in common]
        rest.append(z3.And(*r) if len(r) > 1 else r[0] if r else z3.BoolVal(True))
    if len(rest) > 1 and not any(z3.is_true(r) for r in rest):
        conj.append(z3.Or(*rest))
    return z3.simplify(z3.And(*conj)) if conj else z3.BoolVal(True)


def read(loc, env):
    if loc[0] == 'v':
        return env.get(loc[1], MISSING)
    o = S().objs[loc[1]]
    if loc[2] == '@':
        return o._get()
    d = o.__dict__
    return d.get(loc[2], MISSING)


def write(loc, v, out):
    if loc[0] == 'v':
        out[loc[1]] = v
        return
    o = S().objs[loc[1]]
    S().wrote(o, loc[2])        # the loops around this one see the change too
    if loc[2] == '@':
        o._put(v)
        return
    o.__dict__[loc[2]] = v


def describe(loc, old, new, N):
    """How one iteration changed a location (in its own path)."""
    st = S()
    content = loc[0] == 'h' and loc[2] == '@'
    if content and isinstance(old, tuple):
        if segs_unchanged(old, new):
            return ('same',)
        return ('list', list_change(old, new))
    if unchanged(old, new):
        return ('same',)
    from . import rt
    if (old is MISSING or type(old) is rt.Poison) and new is not MISSING and type(new) is not rt.Poison and immutable(new) and not content:
        return ('set', {'new': new})
    if old is MISSING or new is MISSING:
        return ('missing',)
    if type(old) is rt.Poison or type(new) is rt.Poison:
        return ('obj',)
    if numeric(old) and numeric(new):
        if boolish(old) and boolish(new):
            return ('bool', {'new': new})
        if boolish(old) != boolish(new):
            return ('obj',)
        return ('num', num_change(old, new))
    if isinstance(old, (bytes, SBytes)) and isinstance(new, (bytes, SBytes)):
        return ('bytes', bytes_change(old, new, N, content and not isinstance(st.objs[loc[1]], ropes.SByteArray)))
    if type(new).__name__ == 'SFloat' and type(old).__name__ == 'SFloat':
        return ('float',)
    return ('obj',)


def num_change(old, new):
    st = S()
    d = norm(zt(term(new)) - zt(term(old)))
    if isinstance(d, int):
        s = 1 if d > 0 else -1
    else:
        s = 1 if st.prove(d >= 0) else -1 if st.prove(d <= 0) else 0
    return {'delta': d, 'sign': s, 'new': new}


def bytes_change(old, new, N, mem):
    st = S()
    po, pn = list(pieces_of(old)), list(pieces_of(new))
    lo, ln = total(po), total(pn)
    out = {'new': new}
    if mem:
        if isinstance(lo, int) and isinstance(ln, int) and lo == ln:
            cuts = set()
            for ps in (po, pn):
                k = 0
                for p in ps:
                    if not isinstance(p.n, int):
                        raise Unsupported('memory of symbolic layout changed in a loop')
                    k += p.n
                    cuts.add(k)
            cuts = sorted(cuts | {0})
            ranges = []
            for a, b in zip(cuts, cuts[1:]):
                x, y = mk_bytes(split(split(po, a)[1], b - a)[0]), mk_bytes(split(split(pn, a)[1], b - a)[0])
                if vkey(x) == vkey(y):
                    continue
                if isinstance(x, bytes) and isinstance(y, bytes) or b - a > 8:
                    # only the bytes that differ
                    if isinstance(x, bytes) and isinstance(y, bytes):
                        i = 0
                        while i < b - a:
                            if x[i] != y[i]:
                                ranges.append((a + i, 1, x[i:i + 1], y[i:i + 1]))
                            i += 1
                        continue
                ranges.append((a, b - a, x, y))

            def part(l, s):
                return mk_bytes(split(split(po, l)[1], s)[0]), mk_bytes(split(split(pn, l)[1], s)[0])
            out['mem'] = (lo, ranges, part, num_change)
        return out
    if leq(lo, ln):
        l, r = split(pn, lo)
        if '+'.join(p.key() for p in l) == '+'.join(p.key() for p in norm_pieces(po)):
            out['suffix'] = r
            if len(r) == 1 and isinstance(r[0], Arr):
                a = r[0]
                nxt = ropes.subst_term(zt(a.off), N, N + 1)
                if not any(ropes.occurs_t(x, N) for x in a.base.args if not isinstance(x, int)) and same(nxt, norm(a.off + a.n)):
                    out['tele'] = (a.base, a.off)
    if 'suffix' not in out and leq(ln, lo):
        k = norm(lo - ln)
        l, r = split(po, k)
        if '+'.join(p.key() for p in r) == '+'.join(p.key() for p in norm_pieces(pn)):
            out['bcut'] = k
    return out


def list_change(old, new):
    out = {}
    so, sn = MList(old, tup=True).size(), MList(new, tup=True).size()
    if leq(norm(so + 1), sn) and same(norm(so + 1), sn):
        l, r = split_segs(list(new), so)
        if segs_unchanged(tuple(norm_segs(list(old))), tuple(l)) and len(r) == 1 and isinstance(r[0], Items):
            v = r[0].v[0]
            if plain(v):
                out['append'] = v
    d = norm(so - sn)
    if isinstance(d, int) and d > 0:
        l, r = split_segs(list(old), d)
        if segs_unchanged(tuple(r), tuple(norm_segs(list(new)))):
            out['cut'] = d
    return out


# ---- first guesses: what iterations 0 and 1 have in common ----------------------------------------------------------
def au(a, b, N):
    """a term that is a at N = 0 and b at N = 1; Fail where there is none of the same form"""
    if isinstance(a, int) and isinstance(b, int):
        return a if a == b else norm(a + (b - a) * N)
    a, b = zt(a), zt(b)
    if a.eq(b):
        return a
    if z3.is_int_value(a) and z3.is_int_value(b):
        return zt(norm(a.as_long() + (b.as_long() - a.as_long()) * N))
    if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.num_args():
        return a.decl()(*[au(x, y, N) for x, y in zip(a.children(), b.children())])
    raise Fail()


def au_val(a, b, N):
    if a is b:
        return a
    if boolish(a) and boolish(b):
        return mk_bool(au(ztb(a), ztb(b), N))
    if numeric(a) and numeric(b):
        return mk_int(au(term(a), term(b), N))
    if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
        return mk_bytes(au_pieces(pieces_of(a), pieces_of(b), N))
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(au_val(x, y, N) for x, y in zip(a, b))
    if isinstance(a, MList) and isinstance(b, MList) and a.tup and b.tup and len(a.segs) == len(b.segs):
        if all(isinstance(s, Items) for s in a.segs + b.segs) and all(len(p.v) == len(q.v) for p, q in zip(a.segs, b.segs)):
            return MList([Items([au_val(x, y, N) for x, y in zip(p.v, q.v)]) for p, q in zip(a.segs, b.segs)], tup=True)
    if unchanged(a, b):
        return a
    raise Fail()


def au_pieces(a, b, N):
    if len(a) != len(b):
        raise Fail()
    out = []
    for p, q in zip(a, b):
        if type(p) is not type(q):
            raise Fail()
        if isinstance(p, Lit):
            if p.b != q.b:
                raise Fail()
            out.append(p)
        elif isinstance(p, Num):
            if p.n != q.n:
                raise Fail()
            out.append(Num(zt(au(p.t, q.t, N)), p.n))
        elif isinstance(p, Arr):
            x, y = p.base, q.base
            if x.name != y.name or x.origin or y.origin or len(x.args) != len(y.args):
                if p.key() != q.key():
                    raise Fail()
                out.append(p)
                continue
            out.append(Arr(ropes.Base(x.name, [zt(au(s, t, N)) for s, t in zip(x.args, y.args)], au(x.length, y.length, N)), au(p.off, q.off, N), au(p.n, q.n, N)))
        elif p.key() == q.key():
            out.append(p)
        else:
            raise Fail()
    return out


def au_info(a, b, N):
    if a[0] != b[0]:
        raise Fail()
    if a[0] in ('obj', 'missing', 'float'):
        return a
    if b[0] != a[0]:
        raise Fail()
    x, y, out = a[1], b[1], {}
    for k in ('delta', 'bcut', 'cut'):
        if k in x and k in y:
            try:
                out[k] = au(x[k], y[k], N)
            except Fail:
                pass
    for k in ('new', 'append'):
        if k in x and k in y:
            try:
                out[k] = au_val(x[k], y[k], N)
            except Fail:
                pass
    if 'suffix' in x and 'suffix' in y:
        try:
            out['suffix'] = au_pieces(x['suffix'], y['suffix'], N)
        except Fail:
            pass
    if 'sign' in x:
        out['sign'] = x['sign'] if x['sign'] == y['sign'] else 0
    if a[0] == 'num' and ('delta' not in out):
        raise Fail()
    if not out:
        raise Fail()
    return (a[0], out)


# ---- the inductive loop --------------------------------------------------------------------------------------------
class IndLoop:
    inductive = True

    def __init__(self, site, names, key):
        self.site, self.names, self.key0 = site, names, key
        self.phase = 0
        self.instance = 0
        self.saved = None
        self.kept = []
        self.old = {}
        self.births = S().births
        self.rec = None
        self.peeled = 0

    # -- bookkeeping of writes
    def note(self, n, attr):
        if self.phase != 1 or n >= self.serial or (n, attr) in self.old:
            return
        self.old[(n, attr)] = read(('h', n, attr), {})

    def record(self):
        st = S()
        if st.hypdepth:
            raise Unsupported('loop at %s inside a hypothetical argument' % self.site)
        if st.noinduct:
            raise Unsupported('loop at %s: %s' % (self.site, st.noinduct))
        key = '%s#%d' % (self.key0, self.instance)
        rec = st.loops.get(key)
        if rec is None:
            st.loops[key] = rec = Rec(key, self.site)
            raise NeedInfer(key)
        if rec.mode == 'failed':
            if self.peeled < 1:
                # execute one iteration as it is and try again after it
                self.peeled += 1
                return None
            raise Unsupported('no invariant for the loop at %s: %s' % (self.site, rec.problem))
        return rec

    def begin(self, rec, env):
        """take the entry values"""
        self.rec = rec
        self.pos0 = S().pos
        self.v0 = {l: read(l, env) for l in rec.shapes}
        if rec.mode == 'infer':
            # bounds that hold on entry
            for l, sh in rec.shapes.items():
                v = self.v0[l]
                if isinstance(sh, (Step, SumShape, Hist, Assign)) and isinstance(v, (int, SInt)) and not isinstance(v, bool) and ('nonneg', repr(l)) not in rec.dropped:
                    if S().prove(zt(term(v)) >= 0):
                        rec.candidates[bkey(('nonneg', l))] = ('nonneg', l)
        else:
            for b in rec.bounds:
                c = zt(term(self.v0[b[1]])) >= 0 if b[0] == 'nonneg' else revive(z3.substitute(b[1], (rec.N0, z3.IntVal(0))))
                self.oblige('bound on entry', c)

    def apply(self, N, env):
        """set the state to the one after N iterations; returns the rebound locals"""
        st = S()
        rec = self.rec
        out = {}
        vals = {}
        st.index_term(N)
        for l, sh in rec.shapes.items():
            v = sh.at(self.v0[l], N) if self.v0[l] is not MISSING or isinstance(sh, Assign) else PoisonShape().at(None, N)
            vals[l] = v
            write(l, v, out)
        if rec.T is not None and rec.mode == 'done' or rec.T is not None and rec.rounds > 1:
            N0, c = rec.T
            if not z3.is_true(c):
                st.fact(lambda j: revive(z3.substitute(c, (N0, j))), 0, N)
                st.index_term(norm(zt(N) - 1))
        for b in rec.bounds:
            st.add(self.bound(b, N, vals), aux=True)
        return out

    def bound(self, b, N, vals):
        if b[0] == 'nonneg':
            return zt(term(vals[b[1]])) >= 0
        return revive(z3.substitute(b[1], (self.rec.N0, zt(N))))

    def push(self, N):
        st = S()
        self.saved = (st.counter, st.loop_idx, st.loop_id)
        st.counter, st.loop_idx, st.loop_id = {}, st.loop_idx + [N], '@' + self.rec.id
        st.loopstack.append(self)
        self.serial = st.serial
        self.births = st.births
        self.kept = []
        self.old = {}

    def pop(self):
        st = S()
        if self.saved is not None:
            st.counter, st.loop_idx, st.loop_id = self.saved
            self.saved = None
        if self in st.loopstack:
            st.loopstack.remove(self)

    def generic(self, env, hi=None):
        """start one generic iteration"""
        st = S()
        rec = self.rec
        N = z3.Function('N@' + rec.id, *([z3.IntSort()] * (len(st.loop_idx) + 1)))(*st.loop_idx) if st.loop_idx else z3.Int('N@' + rec.id)
        self.N = N
        rec.idx = list(st.loop_idx)
        if rec.N0 is None:
            rec.N0 = N
        if rec.mode == 'seed':
            if hi is not None:
                st.add(zt(hi) >= 2)
            self.k = 0
            self.seedvals = []
            return self.seed_start(env)
        st.add(z3.And(N >= 0, N < zt(hi)) if hi is not None else N >= 0, aux=hi is not None)
        out = self.apply(N, env)
        self.push(N)
        self.phase = 1
        self.headenv = dict(env)
        self.headenv.update(out)
        self.marks = {k: progress(v) for k, v in env.items()}
        return out

    def seed_start(self, env):
        self.N = z3.IntVal(self.k)
        S().index_term(self.k)
        self.push(self.N)
        self.phase = 1
        self.headenv = dict(env)
        self.marks = {}
        return {}

    def seed_back(self, env):
        vals = {}
        for l, old, new in self.locations(env):
            d = describe(l, old, new, self.N)
            if d[0] != 'same':
                vals[l] = d
        self.seedvals.append(vals)
        if self.k == 1:
            self.rec.seeds.append(tuple(self.seedvals))
            raise PathEnd('two iterations')
        self.k += 1
        self.pop()
        return self.seed_start(env)

    def locations(self, env):
        locs = []
        for n in self.names:
            if n in env:
                locs.append((('v', n), self.headenv.get(n, MISSING), env[n]))
            elif n in self.headenv:
                locs.append((('v', n), self.headenv[n], MISSING))
        for (n, a), old in self.old.items():
            locs.append((('h', n, a), old, read(('h', n, a), env)))
        return locs

    def back(self, env):
        """back at the head after the generic iteration"""
        try:
            self.back_(env)
        except Unsupported as e:
            if self.rec.mode == 'done' and not S().hypdepth:
                # no invariant after all
                self.rec.mode, self.rec.problem = 'failed', str(e)
                raise Restart('loop at %s' % self.site, self.pos0)
            raise

    def back_(self, env):
        st = S()
        rec = self.rec
        for k, v in env.items():
            if k not in self.names and not k.startswith('_pv_') and self.headenv.get(k, MISSING) is not v:
                raise Unsupported('variable %s changed behind the loop at %s' % (k, self.site))
            if self.marks.get(k) is not None and self.headenv.get(k) is v and progress(v) != self.marks[k]:
                raise Unsupported('an iterator made before the loop at %s advances in it' % self.site)
        locs = self.locations(env)
        if st.infer and rec.mode == 'infer':
            vals = {}
            for l, old, new in locs:
                d = describe(l, old, new, self.N)
                if d[0] != 'same':
                    vals[l] = d
            for b in rec.bounds:
                if not self.holds(b, locs):
                    rec.failed_bounds.add(bkey(b))
            kept = list(self.kept)
            rec.paths.append({'vals': vals, 'kept': kept, 'cond': z3.And(*kept) if kept else z3.BoolVal(True)})
            raise PathEnd('iteration explored')
        # the invariant is preserved
        done = set()
        N1 = norm(self.N + 1)
        st.index_term(self.N)
        newv = {}
        for l, old, new in locs:
            done.add(l)
            newv[l] = new
            sh = rec.shapes.get(l)
            if sh is None:
                d = describe(l, old, new, self.N)
                if d[0] != 'same':
                    raise Unsupported('the loop at %s changes %s, which its invariant says is constant' % (self.site, l))
                continue
            if not isinstance(sh, Grp):
                self.preserved(l, sh, new, N1)
        for l, sh in rec.shapes.items():
            if l not in done:
                newv[l] = read(l, env)
                if not isinstance(sh, Grp):
                    self.preserved(l, sh, newv[l], N1)
        self.groups_preserved(newv)
        for b in rec.bounds:
            self.oblige('bound', self.bound_new(b, newv, env))
        if rec.T is not None:
            N0, c = rec.T
            self.oblige('iteration', z3.substitute(c, (N0, self.N)))
        st.loops_proved.add(self.site)
        raise PathEnd('invariant preserved')

    def groups_preserved(self, newv):
        groups = {}
        for l, sh in self.rec.shapes.items():
            if isinstance(sh, Grp):
                if self.v0[l] is MISSING or not isinstance(newv[l], (int, SInt)) or not isinstance(self.v0[l], (int, SInt)):
                    raise Unsupported('loop invariant')
                groups.setdefault(sh.name, []).append((sh, zt(term(newv[l])) - zt(term(sh.at(self.v0[l], self.N)))))
        for name, ms in groups.items():
            self.oblige('group %s' % name, z3.Or(*[z3.And(*[d == sh.g * p for sh, d in ms]) for p in ms[0][0].steps]))

    def bound_new(self, b, newv, env):
        if b[0] == 'nonneg':
            return zt(term(newv.get(b[1], read(b[1], env)))) >= 0
        return revive(z3.substitute(b[1], (self.rec.N0, self.N + 1)))

    def holds(self, b, locs):
        st = S()
        if b[0] == 'nonneg':
            for l, old, new in locs:
                if l == b[1]:
                    return isinstance(new, (int, SInt)) and st.prove(zt(term(new)) >= 0)
            return True
        return st.prove(revive(z3.substitute(b[1], (self.rec.N0, self.N + 1))))

    def oblige(self, what, c):
        st = S()
        label = 'loop invariant (%s): %s' % (self.site.rsplit(':', 1)[1], what)
        fresh = st.pos >= len(st.trace)
        if not st.prove(c):
            raise Unsupported('loop invariant not preserved at %s: %s' % (self.site, what))
        if fresh and not st.infer:
            st.stats['obligations'] += 1
            st.stats['discharged'] += 1
            st.results.append((label, 'proved', None, False))

    def preserved(self, l, sh, new, N1):
        st = S()
        if isinstance(sh, (PoisonShape, FloatShape)):
            return
        if self.v0[l] is MISSING and not isinstance(sh, Assign):
            return
        for c in sh.assumes(self.v0[l], N1):
            self.oblige(' '.join(str(x) for x in l), c)
            st.add(c, aux=True)
        if isinstance(sh, MemShape) and any(isinstance(p[2], Havoc) for p in sh.parts):
            ps = list(need(new))
            exp = list(need(sh.at(self.v0[l], N1)))
            for lo, sz, s in reversed(sh.parts):
                if isinstance(s, Havoc):
                    for q in (ps, exp):
                        a, r = split(q, lo)
                        b, r = split(r, sz)
                        q[:] = a + r
            c = ropes.eq_pieces(ps, exp)
        elif l[0] == 'h' and l[2] == '@' and isinstance(new, tuple):
            c = lists.list_eq(list(new), list(sh.at(self.v0[l], N1)))
        else:
            exp = sh.at(self.v0[l], N1)
            from . import rt
            if type(exp) is rt.Poison:
                raise Unsupported('loop invariant')
            if boolish(exp) and boolish(new):
                c = ztb(exp) == ztb(new)
            else:
                c = ropes.val_eq(exp, new)
        c = core.zb(c) if not isinstance(c, bool) else z3.BoolVal(c)
        self.oblige(' '.join(str(x) for x in l), c)


def progress(v):
    if isinstance(v, types.GeneratorType):
        return v.gi_frame.f_lasti if v.gi_frame is not None else -2
    if isinstance(v, types.CoroutineType):
        return v.cr_frame.f_lasti if v.cr_frame is not None else -2
    return None


class ForLoop(IndLoop):
    def __init__(self, site, names, key, segs):
        super().__init__(site, names, key)
        self.segs = list(segs)
        self.cur = None

    def head(self, env):
        if self.phase == 1:
            if self.rec.mode == 'seed':
                return self.seed_back(env)
            self.back(env)
        out = {}
        while self.segs:
            s = self.segs[0]
            if isinstance(s, Items):
                if s.v:
                    return out
                self.segs.pop(0)
                continue
            self.instance += 1
            n = norm(s.hi - s.lo)
            e = dict(env)
            e.update(out)
            rec = self.record()
            if rec is None:
                if not decide(zt(s.lo) < zt(s.hi)):
                    self.segs.pop(0)
                    continue
                S().index_term(s.lo)
                self.segs[0:1] = [Items([s.d.at(s.lo)]), Map(s.d, norm(s.lo + 1), s.hi)]
                return out
            self.begin(rec, e)
            st = S()
            if st.infer and rec.mode in ('infer', 'seed') or st.choose(2) == 0:
                out.update(self.generic(e, hi=n))
                if not st.feasible():
                    raise PathEnd('no iteration')
                return out
            out.update(self.apply(n, e))
            self.segs.pop(0)
            if not st.feasible():
                raise PathEnd('no exit')
        return out

    def more(self):
        if self.phase == 1:
            s = self.segs[0]
            k = norm(s.lo + self.N)
            S().index_term(k)
            self.cur = s.d.at(k)
            return True
        if self.segs:
            s = self.segs[0]
            self.cur = s.v[0]
            self.segs[0] = Items(s.v[1:])
            return True
        return False

    def item(self):
        return self.cur


class WhileLoop(IndLoop):
    def head(self, env):
        if self.phase == 1:
            if self.rec.mode == 'seed':
                return self.seed_back(env)
            self.back(env)
        self.instance += 1
        rec = self.record()
        if rec is None:
            return {}
        self.begin(rec, env)
        return self.generic(env)

    def test(self, c, forever=False):
        st = S()
        from . import rt
        rt.unpoison(c)
        if self.phase == 0:
            return bool(c)
        rec = self.rec
        if st.infer and rec.mode == 'infer' and isinstance(c, SBool):
            b = weaken(c.b)
            if b is not None and bkey(('test', b)) not in rec.dropped:
                # holds on entry?
                b0 = z3.substitute(b, (rec.N0, z3.IntVal(0)))
                if st.prove(revive(b0)):
                    rec.candidates[bkey(('test', b))] = ('test', b)
        if bool(c):
            return True
        if st.infer and rec.mode in ('infer', 'seed'):
            raise PathEnd('exit')
        self.phase = 2
        self.pop()
        return False


def weaken(c):
    """x < y  ->  x <= y"""
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    k = c.decl().kind()
    a, b = c.arg(0), c.arg(1)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        lt = k == z3.Z3_OP_LT
    elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b, lt = b, a, k == z3.Z3_OP_GT
    else:
        return None
    if neg:
        a, b, lt = b, a, not lt
    # now a < b (lt) or a <= b
    return a <= b if lt else a <= b + 1


def loop_key(site):
    st = S()
    h = hashlib.md5()
    h.update(site.encode())
    for e in st.trace[:st.pos]:
        if e.kind[0] in 'bcph':
            h.update(('%s%s;' % (e.kind, e.val)).encode())
    for L in st.loopstack:
        if L.inductive:
            h.update(('%s/%s/%s' % (L.rec.key, L.rec.version(), 'i' if L.rec.mode == 'infer' and False else '')).encode())
    n = st.loopcount.get(site, 0)
    st.loopcount[site] = n + 1
    return '%s@%s.%d' % (site, h.hexdigest()[:10], n)


def loop_for(site, names, it):
    from . import rt
    rt.unpoison(it)
    m = rt.symlist(it)
    if m is None:
        if isinstance(it, types.GeneratorType) and rt.inductive():
            raise Unsupported('a generator is consumed inside a loop')
        if isinstance(it, MList):
            src = iter(it)
        else:
            src = iter(rt.native_items(it))
        return ConcLoop(site, it=src)
    if S().unroll is not None:
        return ConcLoop(site, segs=list(m.segs))
    return ForLoop(site, names, loop_key(site), m.segs)


def loop_while(site, names):
    st = S()
    key = loop_key(site)
    if st.unroll is None and key in st.cuts:
        return WhileLoop(site, names, key)
    return ConcLoop(site, key=key)


def head(L, env):
    if not L.inductive:
        return {}
    return L.head(env)


def leave(L):
    if not L.inductive:
        return
    st = S()
    was = L.phase
    L.phase = 2
    L.pop()
    e = sys.exc_info()[1]
    if was == 1 and L.rec is not None and L.rec.mode in ('infer', 'seed') and st.infer and not isinstance(e, EngineSignal):
        raise PathEnd('left the loop')

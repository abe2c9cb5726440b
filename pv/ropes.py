"""Byte strings of symbolic content and length: ropes of pieces, with solver-aided slicing and equality."""
import hashlib
import z3
from . import core
from .core import SInt, SBool, Unsupported, norm, term, mk_int, mk_bool, PathEnd


def S():
    return core.S


# ---- arithmetic helpers ---------------------------------------------------------------------------
def same(a, b):
    """Provably equal terms."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    d = norm(a - b)
    if isinstance(d, int):
        return d == 0
    return S().prove(d == 0)


def leq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    d = norm(b - a)
    if isinstance(d, int):
        return d >= 0
    return S().prove(d >= 0)


def decide(c):
    """Truth of a condition on this path; forks when both are possible."""
    return S().branch(c)


def is0(a):
    return isinstance(a, int) and a == 0


def zt(a):
    return z3.IntVal(a) if isinstance(a, int) else a


# ---- bases: uninterpreted byte functions --------------------------------------------------------------
class Base:
    """An unknown byte string: content fn(*args, i), length len."""
    __slots__ = ('name', 'args', 'length', 'origin', 'fn')

    def __init__(self, name, args, length, origin=None):
        self.name, self.args, self.length, self.origin = name, tuple(args), length, origin
        self.fn = z3.Function(name, *([z3.IntSort()] * (len(self.args) + 2)))
        BASEREG.add(name)

    def at(self, i):
        t = self.fn(*[zt(a) for a in self.args], zt(i))
        st = S()
        k = t.get_id()
        if k not in st.ranges:
            st.ranges.add(k)
            st.keep.append(t)
            st.add(z3.And(t >= 0, t <= 255), aux=True)
        return t

    def same(self, o):
        if self is o:
            return True
        return self.name == o.name and all(same(x, y) for x, y in zip(self.args, o.args))


SUMREG = {}      # name -> (key, canonical body, number of parameters); the canonical index is canon_var(900)
BASEREG = set()


def param(i):
    return z3.Int('#p%d' % i)


def is_index(t):
    """loop indices and template variables: what later substitutions replace"""
    if not z3.is_app(t) or z3.is_int_value(t):
        return False
    n = t.decl().name()
    return n.startswith('N@') or (t.num_args() == 0 and n.startswith('#'))


def index_params(body, skip):
    out, seen, todo = [], set(), [body]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(skip):
            continue
        if is_index(x):
            out.append(x)
            continue
        todo.extend(reversed(x.children()))
    return out


class Sum:
    """Prefix sums P(k) = f(0) + ... + f(k-1) of an indexed term; one uninterpreted P per canonical f (and its parameters).

    pos: f is nonnegative whatever its index.  Otherwise f(j) >= 0 is only used below the horizons for which it has been
    established (the iterations of a loop that have been completed, the elements of an existing concatenation)."""

    def __init__(self, name, ps, body, pos):
        self.name, self.ps, self.var, self.body, self.pos = name, ps, canon_var(900), body, pos
        self.fn = z3.Function(name, *([z3.IntSort()] * (len(ps) + 2)))
        self.args = []
        self.small = {}
        self.horizons = []
        self.rec = name in RECSUMS
        S().add(self.app(0) == 0, aux=True)

    def dup(self):
        o = object.__new__(Sum)
        o.__dict__.update(self.__dict__)
        o.args, o.small, o.horizons = list(self.args), dict(self.small), list(self.horizons)
        return o

    def app(self, k):
        return self.fn(*(self.ps + [zt(k)]))

    def f(self, j):
        b = z3.substitute(self.body, (self.var, zt(j)))
        if self.rec and isinstance(j, int):
            b = z3.substitute(b, (self.app(j), zt(self.at(j))))
        return revive(b)

    def mono(self, a, b, pa, pb, h):
        """0 <= a <= b (<= h): P(a) <= P(b)"""
        st = S()
        g = [zt(a) >= 0, zt(a) <= zt(b)] + ([] if h is None else [zt(b) <= zt(h)])
        st.add(z3.Implies(z3.And(*g), zt(pa) <= zt(pb)), aux=True)

    def horizon(self, h):
        """f(j) >= 0 has been established for 0 <= j < h"""
        h = norm(h)
        if self.pos or any(same_term(x, h) for x in self.horizons):
            return
        st = S()
        self.horizons.append(h)
        ph = self.at(h)
        if not (isinstance(h, int) and h <= 0):
            st.fact(lambda j: z3.And(self.f(j) >= 0, self.app(j) >= 0, self.app(j + 1) <= zt(ph)), 0, h)
        st.add(z3.Implies(zt(h) >= 0, zt(ph) >= 0), aux=True)
        pts = [(a, self.app(a)) for a in self.args] + list(self.small.items())
        for i, (a, pa) in enumerate(pts):
            self.mono(0, a, 0, pa, h)
            for b, pb in pts[i + 1:]:
                self.mono(a, b, pa, pb, h)
                self.mono(b, a, pb, pa, h)

    def at(self, k):
        k = norm(k)
        st = S()
        if isinstance(k, int):
            if k == 0:
                return 0
            if k <= 8 and k > 0:
                if k in self.small:
                    return self.small[k]
                r = 0
                for j in range(k):
                    st.index_term(j)
                    r = r + self.f(j)
                r = norm(r)
                self.small[k] = r
                st.add(self.app(k) == r, aux=True)
                self.relate(k, r)
                return r
        t = self.app(k)
        if any(same_term(a, k) for a in self.args):
            return t
        self.args.append(k)
        if self.pos:
            self.at(1)
            st.fact(lambda j: z3.And(self.app(j + 1) == self.app(j) + self.f(j), self.f(j) >= 0, self.app(j) >= 0, self.app(j + 1) <= t), 0, k)
        else:
            st.fact(lambda j: self.app(j + 1) == self.app(j) + self.f(j), 0, k)
        st.index_term(k)
        st.index_term(norm(k - 1))
        r = const_range(self.body)
        if r is not None:
            st.add(z3.Implies(zt(k) >= 0, z3.And(t >= r[0] * zt(k), t <= r[1] * zt(k))), aux=True)
        self.relate(k, t)
        return t

    def relate(self, k, t):
        for h in ([None] if self.pos else self.horizons):
            self.mono(0, k, 0, t, h)
            for a in self.args:
                if not same_term(a, k):
                    self.mono(a, k, self.app(a), t, h)
                    self.mono(k, a, t, self.app(a), h)
            for a, pa in self.small.items():
                if not same_term(a, k):
                    self.mono(a, k, pa, t, h)
                    self.mono(k, a, t, pa, h)


def same_term(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def const_range(t):
    """constant bounds of a term made of constants and case distinctions"""
    if z3.is_int_value(t):
        return t.as_long(), t.as_long()
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = const_range(t.arg(1)), const_range(t.arg(2))
        return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
    return None


def intrinsic(t):
    """nonnegative whatever the values of its indices: built from lengths and byte values"""
    if isinstance(t, int):
        return t >= 0
    if z3.is_int_value(t):
        return t.as_long() >= 0
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    ch = t.children()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        return all(intrinsic(c) for c in ch)
    if k == z3.Z3_OP_ITE:
        return intrinsic(ch[1]) and intrinsic(ch[2])
    if k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV):
        return z3.is_int_value(ch[1]) and ch[1].as_long() > 0 and (k == z3.Z3_OP_MOD or intrinsic(ch[0]))
    n = t.decl().name()
    if ch and n in BASEREG:
        return True
    if n.endswith('.len') and n in LENREG:
        return True
    if ch and n in SUMREG:
        return SUMREG[n][2]
    return False


LENREG = {}      # functions giving the length of an unknown byte string: their upper bound (or None)


_V = {}


def canon_var(depth):
    if depth not in _V:
        _V[depth] = z3.Int('#k%d' % depth)
    return _V[depth]


BODIES = {}      # canonical bodies of the sums defined by recursion
RECSUMS = set()
SELF = z3.Int('!self')


def rec_sum(var, body, own):
    """The function P with P(0) = 0 and P(k+1) = P(k) + body(k, P(k)); `own` stands for P(var) in body."""
    v = canon_var(900)
    b = z3.substitute(z3.substitute(zt(norm(body)), (own, SELF)), (var, v))
    b = z3.simplify(b)
    ps = index_params(b, v)
    c = z3.substitute(b, *[(p, param(i)) for i, p in enumerate(ps)]) if ps else b
    name = 'sum$' + hashlib.md5(('R' + c.sexpr()).encode()).hexdigest()[:12]
    fn = z3.Function(name, *([z3.IntSort()] * (len(ps) + 2)))
    c = z3.simplify(z3.substitute(c, (SELF, fn(*([param(i) for i in range(len(ps))] + [v])))))
    SUMREG[name] = (c, len(ps), True)
    SUMREG[name] = (c, len(ps), intrinsic(c))
    RECSUMS.add(name)
    BODIES[c.sexpr()] = (name, c)
    return sum_of(name, ps)


def get_sum(var, body):
    """Sum over var of body (a term)."""
    body = zt(norm(body))
    v = canon_var(900)
    b = z3.simplify(z3.substitute(body, (var, v)))
    d = shift_of([b], v)
    if d and intrinsic(b):
        return ShiftSum(get_sum(v, z3.substitute(b, (v, v - d))), d)
    ps = index_params(b, v)
    c = z3.substitute(b, *[(p, param(i)) for i, p in enumerate(ps)]) if ps else b
    key = c.sexpr()
    if key in BODIES:
        return sum_of(BODIES[key][0], ps)
    name = 'sum$' + hashlib.md5(key.encode()).hexdigest()[:12]
    SUMREG[name] = (c, len(ps), intrinsic(c))
    return sum_of(name, ps)


class ShiftSum:
    """the sums of f(j + c), by those of f (which is nonnegative)"""
    pos = True

    def __init__(self, s, c):
        self.s, self.c = s, c
        self.name = s.name

    def app(self, k):
        return zt(norm(self.s.app(norm(k + self.c)) - self.s.at(self.c)))

    def at(self, k):
        return norm(self.s.at(norm(k + self.c)) - self.s.at(self.c))

    def f(self, j):
        return self.s.f(norm(j + self.c))

    def horizon(self, h):
        pass


def sum_of(name, ps):
    st = S()
    key = name + '(' + ','.join(p.sexpr() for p in ps) + ')'
    s = st.sumtab.get(key)
    if s is None:
        c, n, pos = SUMREG[name]
        body = z3.substitute(c, *[(param(i), p) for i, p in enumerate(ps)]) if ps else c
        s = Sum(name, ps, body, pos)
        st.sumtab[key] = s
    return s


def revive(t):
    """Give the facts of the functions occurring in a term made elsewhere (after a substitution)."""
    if isinstance(t, int) or t is None:
        return t
    st = S()
    todo = [t]
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in st.revived:
            continue
        st.revived.add(k)
        st.keep.append(x)
        if not z3.is_app(x):
            continue
        todo.extend(x.children())
        n = x.decl().name()
        if x.num_args() and n.startswith('sum$') and n in SUMREG:
            a = x.children()
            if not any(has_hash(y) for y in a):
                sum_of(n, a[:-1]).at(a[-1])
        elif x.num_args() and n in BASEREG and k not in st.ranges:
            if not has_hash(x):
                st.ranges.add(k)
                st.add(z3.And(x >= 0, x <= 255), aux=True)
        elif x.num_args() and n in LENREG and k not in st.ranges:
            if not has_hash(x):
                st.ranges.add(k)
                h = LENREG[n]
                st.add(x >= 0 if h is None else z3.And(x >= 0, x <= h), aux=True)
    return t


def has_hash(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and not z3.is_int_value(x) and x.decl().name().startswith('#'):
            return True
        todo.extend(x.children())
    return False


# ---- pieces ---------------------------------------------------------------------------------------------
class Lit:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    @property
    def n(self):
        return len(self.b)

    def byte(self, i):
        if isinstance(i, int):
            return self.b[i]
        if len(set(self.b)) == 1:
            return self.b[0]
        if len(self.b) > 300:
            raise Unsupported('symbolic index into a long literal')
        t = z3.IntVal(self.b[-1])
        for k in range(len(self.b) - 2, -1, -1):
            t = z3.If(i == k, z3.IntVal(self.b[k]), t)
        return t

    def cut(self, r):
        if isinstance(r, int):
            return [Lit(self.b[:r])], [Lit(self.b[r:])]
        if len(set(self.b)) == 1:
            return [Rep(self.b[0], r)], [Rep(self.b[0], norm(len(self.b) - r))]
        k = core.enum_value(r)
        return self.cut(k)

    def key(self):
        return 'L' + self.b.hex()


class Num:
    """n little-endian bytes of t, 0 <= t < 256**n."""
    __slots__ = ('t', 'n')

    def __init__(self, t, n):
        self.t, self.n = t, n

    def byte(self, i):
        if not isinstance(i, int):
            i = core.enum_value(i)
        if self.n == 1:
            return self.t
        if i == self.n - 1:
            return norm(self.t / 256 ** i)
        return norm((self.t / 256 ** i) % 256) if i else norm(self.t % 256)

    def cut(self, r):
        r = core.enum_value(r)
        return [Num(norm(self.t % 256 ** r), r)], [Num(norm(self.t / 256 ** r), self.n - r)]

    def key(self):
        return 'N%d:%s' % (self.n, self.t.sexpr())


class Arr:
    __slots__ = ('base', 'off', 'n')

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def byte(self, i):
        return self.base.at(norm(self.off + i))

    def cut(self, r):
        return [Arr(self.base, self.off, r)], [Arr(self.base, norm(self.off + r), norm(self.n - r))]

    def key(self):
        return 'A%s(%s)[%s:%s]' % (self.base.name, ','.join(str(a) if isinstance(a, int) else a.sexpr() for a in self.base.args),
                                   self.off if isinstance(self.off, int) else self.off.sexpr(), self.n if isinstance(self.n, int) else self.n.sexpr())


class Rep:
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v, self.n = v, n

    def byte(self, i):
        return self.v

    def cut(self, r):
        return [Rep(self.v, r)], [Rep(self.v, norm(self.n - r))]

    def key(self):
        return 'R%s*%s' % (self.v, self.n if isinstance(self.n, int) else self.n.sexpr())


def offs_t(t, v, out):
    """offsets c of the arguments v + c of functions in t; a bare v counts as 0"""
    if isinstance(t, int) or t is None:
        return
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            out.append(0)
            return
        ch = x.children()
        if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in ch:
                if not core.mentions(a, v):
                    continue
                c = z3.simplify(a - v)
                if z3.is_int_value(c):
                    out.append(c.as_long())
                else:
                    todo.append(a)
        else:
            todo.extend(ch)


def offs_v(x, v, out):
    """the same for a value or piece"""
    if isinstance(x, (int, str, bytes, float, Lit)) or x is None:
        return
    if isinstance(x, z3.ExprRef):
        offs_t(x, v, out)
    elif isinstance(x, SInt):
        offs_t(x.t, v, out)
    elif isinstance(x, SBool):
        offs_t(x.b, v, out)
    elif isinstance(x, SBytes):
        for p in x.p:
            offs_v(p, v, out)
    elif isinstance(x, Num):
        offs_t(x.t, v, out)
    elif isinstance(x, Rep):
        offs_t(x.v, v, out)
        offs_t(x.n, v, out)
    elif isinstance(x, Arr):
        offs_t(x.n, v, out)
        if isinstance(x.off, z3.ExprRef) and core.mentions(x.off, v):
            out.append(0)
        for a in x.base.args:
            if isinstance(a, z3.ExprRef) and core.mentions(a, v):
                c = z3.simplify(a - v)
                if z3.is_int_value(c):
                    out.append(c.as_long())
                else:
                    offs_t(a, v, out)
    elif type(x) is tuple:
        for y in x:
            offs_v(y, v, out)
    else:
        out.append(0)


def shift_of(xs, v):
    """how far the index of a template can be moved so that its least use is at 0"""
    out = []
    for x in xs:
        offs_v(x, v, out)
        if out and min(out) <= 0:
            return 0
    return min(out) if out else 0


class FoldDef:
    """Concatenation of rope(j): template over a canonical variable."""
    __slots__ = ('var', 'pieces', 'key', 'depth', '_sum', '_tok', 'c', 'canon')

    def __init__(self, var, pieces):
        d = 0
        for p in pieces:
            if isinstance(p, Fold):
                d = max(d, p.d.depth + 1)
        v = canon_var(d)
        self.depth = d
        self.var = v
        self.pieces = [subst_piece(p, var, v) for p in pieces]
        self.key = '+'.join(p.key() for p in self.pieces)
        self._tok = None
        self.c = shift_of(self.pieces, v)
        self.canon = None
        if self.c:
            if intrinsic(total(self.pieces)):
                self.canon = FoldDef(v, [subst_piece(p, v, v - self.c) for p in self.pieces])
                if self.canon.c:
                    self.canon = None
            if self.canon is None:
                self.c = 0

    @property
    def sum(self):
        st = S()
        if self._tok is not st.sumtab:
            self._sum = get_sum(self.var, total(self.pieces))
            self._tok = st.sumtab
        return self._sum

    def piece(self, j):
        return norm_pieces([subst_piece(p, self.var, zt(j)) for p in self.pieces])


class Fold:
    __slots__ = ('d', 'lo', 'hi')

    def __init__(self, d, lo, hi):
        if d.c:
            d, lo, hi = d.canon, norm(lo + d.c), norm(hi + d.c)
        self.d, self.lo, self.hi = d, lo, hi

    @property
    def n(self):
        s = self.d.sum
        a, b = s.at(self.lo), s.at(self.hi)
        if is0(self.lo):
            s.horizon(self.hi)
        elif not s.pos:
            S().add(zt(a) <= zt(b), aux=True)
        return norm(b - a)

    def key(self):
        return 'F{%s}[%s:%s]' % (self.d.key, self.lo if isinstance(self.lo, int) else self.lo.sexpr(), self.hi if isinstance(self.hi, int) else self.hi.sexpr())

    def byte(self, i):
        l, r = self.cut(i)
        l2, r2 = split(r, 1)
        return piece_byte(l2, 0)

    def cut(self, r):
        s = self.d.sum
        st = S()
        cands = [self.lo, self.hi] + [t for t in st.idx_terms]
        seen = []
        for k in cands:
            for k2 in (k, norm(k + 1), norm(k - 1)):
                if not any((x == k2 if isinstance(k2, int) and isinstance(x, int) else (not isinstance(k2, int) and not isinstance(x, int) and x.eq(k2))) for x in seen):
                    seen.append(k2)
        base = s.at(self.lo)
        for k in seen:
            if isinstance(k, int) and k < 0:
                continue
            if leq(self.lo, k) and leq(k, self.hi) and same(norm(s.at(k) - base), r):
                return [Fold(self.d, self.lo, k)], [Fold(self.d, k, self.hi)]
        for k in seen:
            if isinstance(k, int) and k < 0:
                continue
            if leq(self.lo, k) and leq(norm(k + 1), self.hi) and leq(norm(s.at(k) - base), r) and leq(r, norm(s.at(norm(k + 1)) - base)):
                l, rr = split(self.d.piece(k), norm(r - (s.at(k) - base)))
                return [Fold(self.d, self.lo, k)] + l, rr + [Fold(self.d, norm(k + 1), self.hi)]
        # some element contains the offset: name its index
        n = self.n
        if not (leq(0, r) and leq(r, n)):
            raise Unsupported('cannot locate an offset inside a concatenation')
        if not leq(norm(r + 1), n) and decide(zt(r) == zt(n)):
            return [self], []
        k = st.fresh('at', z3.IntSort())
        st.index_term(k)
        st.add(z3.And(k >= zt(self.lo), k < zt(self.hi)), aux=True)
        st.add(z3.And(zt(s.at(k)) - zt(base) <= zt(r), zt(r) < zt(s.at(norm(k + 1))) - zt(base)), aux=True)
        l, rr = split(self.d.piece(k), norm(r - (s.at(k) - base)))
        return [Fold(self.d, self.lo, k)] + l, rr + [Fold(self.d, norm(k + 1), self.hi)]


def subst_term(t, var, val):
    if isinstance(t, int) or t is None:
        return t
    return revive(norm(z3.substitute(t, (var, val))))


def subst_base(b, var, val):
    if not b.args and not b.origin:
        return b
    args = [subst_term(a, var, val) for a in b.args]
    o = b.origin
    if o is not None:
        o = (o[0], tuple(subst_val(x, var, val) for x in o[1]))
    nb = Base(b.name, args, subst_term(b.length, var, val), o)
    return nb


def subst_piece(p, var, val):
    if isinstance(p, Lit):
        return p
    if isinstance(p, Num):
        t = subst_term(p.t, var, val)
        if isinstance(t, int):
            return Lit(t.to_bytes(p.n, 'little'))
        return Num(t, p.n)
    if isinstance(p, Arr):
        return Arr(subst_base(p.base, var, val), subst_term(p.off, var, val), subst_term(p.n, var, val))
    if isinstance(p, Rep):
        return Rep(subst_term(p.v, var, val), subst_term(p.n, var, val))
    if isinstance(p, Fold):
        if not occurs(p, var):
            return p
        d = p.d
        if any(occurs(x, var) for x in d.pieces):
            inner = canon_var(500 + d.depth)
            ps = [subst_piece(subst_piece(x, d.var, inner), var, val) for x in d.pieces]
            d = FoldDef(inner, ps)
        return Fold(d, subst_term(p.lo, var, val), subst_term(p.hi, var, val))
    raise Unsupported('substitution')


def occurs_t(t, var):
    if isinstance(t, int) or t is None:
        return False
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(var):
            return True
        todo.extend(x.children())
    return False


def occurs(p, var):
    if isinstance(p, Lit):
        return False
    if isinstance(p, Num):
        return occurs_t(p.t, var)
    if isinstance(p, Arr):
        return any(occurs_t(a, var) for a in p.base.args) or occurs_t(p.off, var) or occurs_t(p.n, var)
    if isinstance(p, Rep):
        return occurs_t(p.n, var) or occurs_t(p.v, var)
    return occurs_t(p.lo, var) or occurs_t(p.hi, var) or any(occurs(x, var) for x in p.d.pieces)


def subst_val(v, var, val):
    if isinstance(v, SInt):
        return mk_int(revive(z3.substitute(v.t, (var, val))))
    if isinstance(v, SBool):
        return mk_bool(revive(z3.substitute(v.b, (var, val))))
    if isinstance(v, SBytes):
        return mk_bytes([subst_piece(p, var, val) for p in v.p])
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (var, val))
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(subst_val(x, var, val) for x in v)
    from . import lists
    if isinstance(v, lists.MList):
        return lists.MList([lists.subst_seg(s, var, val) for s in v.segs], tup=v.tup)
    f = getattr(type(v), '_pv_subst', None)
    if f is not None:
        return f(v, var, val)
    return v


def total(pieces):
    n = 0
    for p in pieces:
        n = n + p.n
    return norm(n)


def fits(n):
    """assumption: no byte string has 2**62 bytes or more"""
    if not isinstance(n, int):
        st = S()
        k = n.get_id()
        if k not in st.ranges:
            st.ranges.add(k)
            st.keep.append(n)
            st.add(n < 2 ** 62, aux=True)
    return n


def norm_pieces(ps):
    out = []
    for p in ps:
        n = p.n
        if is0(n):
            continue
        if isinstance(p, Rep) and isinstance(n, int) and n <= 64:
            p = Lit(bytes([p.v]) * n) if isinstance(p.v, int) else p
        elif isinstance(p, Num) and isinstance(p.t, int):
            p = Lit(p.t.to_bytes(p.n, 'little'))
        elif isinstance(p, Fold) and isinstance(p.lo, int) and isinstance(p.hi, int) and p.hi - p.lo <= 4:
            for j in range(p.lo, p.hi):
                out.extend(p.d.piece(j))
            continue
        if out:
            q = out[-1]
            if isinstance(q, Lit) and isinstance(p, Lit):
                out[-1] = Lit(q.b + p.b)
                continue
            if isinstance(q, Arr) and isinstance(p, Arr) and q.base is p.base or isinstance(q, Arr) and isinstance(p, Arr) and q.base.name == p.base.name and not q.base.args:
                d = norm(q.off + q.n - p.off)
                if is0(d):
                    out[-1] = Arr(q.base, q.off, norm(q.n + p.n))
                    continue
            if isinstance(q, Rep) and isinstance(p, Rep) and q.v is p.v:
                out[-1] = Rep(q.v, norm(q.n + p.n))
                continue
            if isinstance(q, Fold) and isinstance(p, Fold) and q.d.key == p.d.key and is0(norm(q.hi - p.lo)):
                out[-1] = Fold(q.d, q.lo, p.hi)
                continue
            while isinstance(p, Fold) and isinstance(p.lo, int) and p.lo > 0:
                # the element before it
                e = p.d.piece(p.lo - 1)
                k = len(e)
                if not k or len(out) < k or isinstance(e[0], Lit) or isinstance(e[-1], Lit) or [x.key() for x in out[-k:]] != [x.key() for x in e]:
                    break
                del out[-k:]
                p = Fold(p.d, p.lo - 1, p.hi)
                if not out:
                    break
            q = out[-1] if out else None
            if isinstance(q, Num) and isinstance(p, Num) and q.n + p.n <= 8:
                # bytes of one number taken apart
                j = rejoin(q, p)
                if j is not None:
                    out[-1] = j
                    continue
        out.append(p)
    return out


def rejoin(q, p):
    """Num(t % 256**a, a) + Num(t / 256**a, b) -> Num(t)"""
    try:
        if z3.is_app(q.t) and q.t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(q.t.arg(1)) and q.t.arg(1).as_long() == 256 ** q.n:
            t = q.t.arg(0)
            if norm(p.t - norm(t / 256 ** q.n)) == 0:
                return Num(t, q.n + p.n)
    except Exception:
        pass
    return None


def split(ps, pos):
    """Split pieces at position pos (0 <= pos <= total, known)."""
    left = []
    i = 0
    r = pos
    while i < len(ps):
        if is0(r):
            break
        p = ps[i]
        n = p.n
        if leq(n, r) or (not leq(r, n) and decide(zt(n) <= zt(r))):
            left.append(p)
            r = norm(r - n)
            i += 1
            continue
        if same(r, 0):
            break
        a, b = p.cut(r)
        return norm_pieces(left + a), norm_pieces(b + list(ps[i + 1:]))
    return norm_pieces(left), norm_pieces(ps[i:])


def piece_byte(ps, pos):
    r = pos
    for p in ps:
        n = p.n
        if leq(norm(r + 1), n) or (not leq(n, r) and decide(zt(r) < zt(n))):
            if isinstance(p, Arr):
                S().byte_read(p.base.name, norm(p.off + r))
            return p.byte(r)
        r = norm(r - n)
    raise Unsupported('index beyond the end')


# ---- equality -----------------------------------------------------------------------------------------------
def eq_pieces(a, b):
    """z3 condition (or bool) for equality; forks where the shapes depend on symbolic lengths."""
    a, b = list(a), list(b)
    if '+'.join(p.key() for p in a) == '+'.join(p.key() for p in b):
        return True
    la, lb = total(a), total(b)
    if not same(la, lb):
        if not decide(zt(la) == zt(lb)):
            return False
    conds = []
    peeled = 0
    while a and b:
        p, q = a[0], b[0]
        if isinstance(p, Fold) and isinstance(q, Fold):
            r = align(p, q)
            if r is not None:
                a[0:1], b[0:1] = r
                continue
        if isinstance(p, Fold) and isinstance(q, Arr):
            r = telescope(p, q)
            if r is not None:
                a.pop(0)
                b[0:1] = r
                continue
        elif isinstance(q, Fold) and isinstance(p, Arr):
            r = telescope(q, p)
            if r is not None:
                b.pop(0)
                a[0:1] = r
                continue
        n, m = p.n, q.n
        peeled += 1
        if peeled > 60:
            raise Unsupported('comparison of concatenations')
        if same(n, m):
            a.pop(0), b.pop(0)
        elif leq(n, m) or (not leq(m, n) and decide(zt(n) <= zt(m))):
            if same(n, 0):
                a.pop(0)
                continue
            if isinstance(q, Fold) and leq(norm(q.lo + 1), q.hi):
                x = None
                b[0:1] = q.d.piece(q.lo) + [Fold(q.d, norm(q.lo + 1), q.hi)]
                if b and isinstance(b[0], Fold) and b[0] is q:
                    raise Unsupported('fold')
                continue
            else:
                x, y = q.cut(n)
            a.pop(0)
            b[0:1] = x + y
            p, q = p, b.pop(0)
            if len(x) != 1:
                b[0:0] = [q]
                a[0:0] = [p]
                if len(x) == 0:
                    raise Unsupported('cut')
                # compare piecewise
                continue
        else:
            if same(m, 0):
                b.pop(0)
                continue
            if isinstance(p, Fold) and leq(norm(p.lo + 1), p.hi):
                a[0:1] = p.d.piece(p.lo) + [Fold(p.d, norm(p.lo + 1), p.hi)]
                continue
            x, y = p.cut(m)
            b.pop(0)
            a[0:1] = x + y
            p = a.pop(0)
            if len(x) != 1:
                a[0:0] = [p]
                b[0:0] = [q]
                continue
        c = chunk_eq(p, q)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    for p in a + b:
        if not same(p.n, 0):
            # lengths are equal, so the rest is empty
            S().add(zt(p.n) == 0)
    if not conds:
        return True
    return z3.And(*conds) if len(conds) > 1 else conds[0]


def align(p, q):
    """Two concatenations in front: drop the common number of elements where these are provably equal."""
    np, nq = norm(p.hi - p.lo), norm(q.hi - q.lo)
    if leq(np, nq):
        n = np
    elif leq(nq, np):
        n = nq
    else:
        return None
    if isinstance(n, int) and n <= 0:
        return None
    if not (p.d.key == q.d.key and same(p.lo, q.lo)):
        if not fold_eq(p, q, n):
            return None
    return norm_pieces([Fold(p.d, norm(p.lo + n), p.hi)]), norm_pieces([Fold(q.d, norm(q.lo + n), q.hi)])


def telescope(p, q):
    """A concatenation that is a contiguous part of one byte string: what follows it there, or None."""
    st = S()
    n = p.n
    if not leq(n, q.n):
        return None
    s = p.d.sum
    lo = s.at(p.lo)

    def hyp():
        j = st.fresh('j', z3.IntSort())
        st.add(z3.And(j >= zt(p.lo), j < zt(p.hi)))
        st.index_term(j)
        ps = p.d.piece(j)
        c = eq_pieces(ps, [Arr(q.base, norm(q.off + s.at(j) - lo), total(ps))])
        return c is True or (c is not False and st.prove(c))
    if st.hyp(hyp):
        return norm_pieces([Arr(q.base, norm(q.off + n), norm(q.n - n))])
    return None


def fold_eq(p, q, n):
    st = S()

    def hyp():
        j = st.fresh('j', z3.IntSort())
        st.add(z3.And(j >= 0, j < zt(n)))
        st.index_term(norm(j + p.lo))
        st.index_term(norm(j + q.lo))
        c = eq_pieces(p.d.piece(norm(j + p.lo)), q.d.piece(norm(j + q.lo)))
        return c is True or (c is not False and st.prove(c))
    return st.hyp(hyp)


def chunk_eq(p, q):
    """Condition for two pieces of provably equal length to be equal."""
    st = S()
    if not isinstance(p.n, int) and isinstance(q.n, int) and isinstance(p, (Arr, Rep)):
        p, q = q, p
    if isinstance(q, Lit) and not isinstance(p, Lit):
        p, q = q, p
    if isinstance(p, Lit):
        if isinstance(q, Lit):
            return p.b == q.b
        if isinstance(q, Num):
            return q.t == int.from_bytes(p.b, 'little')
        if isinstance(q, Rep):
            return z3.And(*[zt(q.v) == x for x in p.b])
        if isinstance(q, Arr):
            return z3.And(*[q.base.at(norm(q.off + k)) == p.b[k] for k in range(len(p.b))])
    if p.key() == q.key():
        return True
    if isinstance(p, Num) and isinstance(q, Num):
        return p.t == q.t
    if isinstance(q, Num) and isinstance(p, (Arr, Rep)):
        p, q = q, p
    if isinstance(p, Num) and isinstance(q, (Arr, Rep)):
        v = 0
        for k in range(p.n):
            v = v + zt(q.byte(k)) * 256 ** k
        return p.t == v
    if isinstance(p, Rep) and isinstance(q, Rep):
        return z3.Or(zt(p.v) == zt(q.v), zt(p.n) == 0)
    if isinstance(p, Arr) and isinstance(q, Arr):
        if p.base.same(q.base) and same(p.off, q.off):
            return True
        o1, o2 = p.base.origin, q.base.origin
        pre = None
        if o1 is not None and o2 is not None and o1[0] == o2[0] and same(p.off, q.off):
            cs = []
            for x, y in zip(o1[1], o2[1]):
                c = val_eq(x, y)
                if c is False:
                    cs = None
                    break
                if c is not True:
                    cs.append(c)
            if cs is not None:
                if not cs:
                    return True
                pre = z3.And(*cs)
                if st.prove(pre):
                    return True
        return elementwise(lambda j: p.base.at(norm(p.off + j)) == q.base.at(norm(q.off + j)), p.n, pre, p.key() + '==' + q.key())
    n = p.n
    if isinstance(p, Rep) and isinstance(q, Arr):
        p, q = q, p
    if isinstance(p, Arr) and isinstance(q, Rep):
        return elementwise(lambda j: p.base.at(norm(p.off + j)) == q.v, n, None, p.key() + '==' + q.key())
    if isinstance(p, Fold) and isinstance(q, Fold):
        if p.d.key == q.d.key and same(p.lo, q.lo) and same(p.hi, q.hi):
            return True
        if same(norm(p.hi - p.lo), norm(q.hi - q.lo)):
            if fold_eq(p, q, norm(p.hi - p.lo)):
                return True
    st.inexact = st.inexact or 'equality of concatenations'
    k = ('opaque', p.key(), q.key())
    if k not in st.opaque:
        st.opaque[k] = st.fresh('same', z3.BoolSort())
    return st.opaque[k]


def elementwise(cond, n, pre, key):
    st = S()
    if isinstance(n, int) and n <= 64 and pre is None:
        return z3.And(*[cond(k) for k in range(n)]) if n else True
    if key in st.opaque:
        e = st.opaque[key]
    else:
        e = st.fresh('eq', z3.BoolSort())
        st.opaque[key] = e
        w = st.fresh('w', z3.IntSort())
        st.byte_term(w)
        st.add(z3.Implies(z3.Not(e), z3.And(w >= 0, w < n, z3.Not(cond(w)))))
        if isinstance(n, int) and n <= 128:
            for k in range(n):
                st.add(z3.Implies(e, cond(k)))
        else:
            st.bytefact(lambda j: z3.Implies(e, cond(j)), n)
            if not isinstance(n, int) and st.prove(zt(n) <= 64):
                for k in range(64):
                    st.add(z3.Implies(z3.And(e, k < zt(n)), cond(k)))
    if pre is not None:
        st.add(z3.Implies(pre, e))
    return e


def val_eq(x, y):
    """Condition for equality of two values (ints, bytes)."""
    if isinstance(x, (bytes, SBytes)) and isinstance(y, (bytes, SBytes)):
        return eq_pieces(pieces_of(x), pieces_of(y))
    if core.is_num(x) and core.is_num(y):
        r = x == y
        return r if isinstance(r, bool) else r.b
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
        return x == y
    return x == y


# ---- python values ----------------------------------------------------------------------------------------------
def pieces_of(v):
    """Pieces of anything bytes-like."""
    if isinstance(v, SBytes):
        return v.p
    if isinstance(v, (bytes, bytearray, memoryview)):
        b = bytes(v)
        return [Lit(b)] if b else []
    f = getattr(type(v), '_pv_bytes', None)
    if f is not None:
        return f(v)
    return None


def is_bytes(v):
    return isinstance(v, (bytes, SBytes))


def mk_bytes(ps):
    ps = norm_pieces(ps)
    if not ps:
        return b''
    if len(ps) == 1 and isinstance(ps[0], Lit):
        return ps[0].b
    return SBytes(ps)


def need(v):
    ps = pieces_of(v)
    if ps is None:
        raise pyerr(TypeError("a bytes-like object is required, not '%s'" % type(v).__name__))
    return ps


def pyerr(e):
    """An error the modelled operation really raises (as opposed to a defect of the verifier)."""
    e._pv_ok = True
    return e


def clamp(i, n, default):
    """Python slice bound."""
    if i is None:
        return default
    i = norm(term(i)) if not hasattr(i, '__index__') or isinstance(i, (int, SInt, SBool)) else i.__index__()
    if not leq(0, i):
        if decide(zt(i) < 0):
            i = norm(i + n)
            if not leq(0, i) and decide(zt(i) < 0):
                return 0
    if leq(i, n):
        return i
    return i if decide(zt(i) <= zt(n)) else n


def slice_pieces(ps, sl):
    if sl.step is not None and not (isinstance(sl.step, int) and sl.step == 1):
        raise Unsupported('slice step')
    n = total(ps)
    a = clamp(sl.start, n, 0)
    b = clamp(sl.stop, n, n)
    if not leq(a, b) and not decide(zt(a) <= zt(b)):
        return []
    l, r = split(ps, b)
    x, y = split(l, a)
    return y


def index_pieces(ps, i):
    n = total(ps)
    i = norm(term(i))
    if not leq(0, i) and decide(zt(i) < 0):
        i = norm(i + n)
        if not leq(0, i) and decide(zt(i) < 0):
            raise pyerr(IndexError('index out of range'))
    if not leq(norm(i + 1), n) and decide(zt(i) >= zt(n)):
        raise pyerr(IndexError('index out of range'))
    return piece_byte(ps, i)


class SBytes:
    __slots__ = ('p', 'mem', 'birth')
    _pv_symbolic = True
    _pv_repeat = True

    def __init__(self, p):
        self.p = p
        st = core.S
        if st is not None:
            st.births += 1
            self.birth = st.births

    def length(self):
        return mk_int(fits(total(self.p)))

    def _set(self, ps):
        self.p = norm_pieces(ps)

    def __eq__(self, o):
        q = pieces_of(o)
        if q is None:
            return NotImplemented
        c = eq_pieces(self.p, q)
        return c if isinstance(c, bool) else mk_bool(c)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return core.s_not(r)

    def __hash__(self):
        raise Unsupported('hash of a symbolic byte string')

    def __add__(self, o):
        q = pieces_of(o)
        return NotImplemented if q is None else mk_bytes(list(self.p) + list(q))

    def __radd__(self, o):
        q = pieces_of(o)
        return NotImplemented if q is None else mk_bytes(list(q) + list(self.p))

    def __mul__(self, k):
        return repeat(self, k)
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_bytes(slice_pieces(self.p, i))
        return mk_int(index_pieces(self.p, i))

    def __bool__(self):
        return decide(zt(total(self.p)) > 0)

    def __len__(self):
        return core.enum_value(total(self.p))

    def __iter__(self):
        n = len(self)
        for k in range(n):
            yield self[k]

    def __contains__(self, x):
        for y in self:
            if y == x:
                return True
        return False

    def __lt__(self, o):
        raise Unsupported('ordering of symbolic byte strings')
    __le__ = __gt__ = __ge__ = __lt__

    def hex(self, *a):
        return '<sym>'

    def __format__(self, s):
        return '<sym>'

    def __repr__(self):
        return 'SBytes(%s)' % '+'.join(p.key() for p in self.p)[:400]

    def __str__(self):
        return '<sym>'

    def startswith(self, x, *a):
        if a or isinstance(x, tuple):
            raise Unsupported('startswith')
        n = total(need(x))
        return self[:mk_int(n)] == mk_bytes(need(x))

    def endswith(self, x, *a):
        if a or isinstance(x, tuple):
            raise Unsupported('endswith')
        n, m = total(need(x)), total(self.p)
        if not decide(zt(n) <= zt(m)):
            return False
        return self[mk_int(norm(m - n)):] == mk_bytes(need(x))

    def rstrip(self, chars=None):
        return strip(self, chars, False, True)

    def lstrip(self, chars=None):
        return strip(self, chars, True, False)

    def strip(self, chars=None):
        return strip(self, chars, True, True)

    def ljust(self, w, fill=b' '):
        return self + justify(self, w, fill)

    def rjust(self, w, fill=b' '):
        return justify(self, w, fill) + self

    def find(self, x, *a):
        return find(self, x, a)

    def index(self, x, *a):
        r = find(self, x, a)
        if r == -1:
            raise pyerr(ValueError('subsection not found'))
        return r

    def join(self, it):
        return join(self, it)

    def tobytes(self):
        return self

    def release(self):
        pass

    def __getattr__(self, n):
        if n.startswith('__') or n == '_pv_bytes' or n == 'mem':
            raise AttributeError(n)
        if hasattr(bytes, n):
            raise Unsupported('bytes.%s of a symbolic value' % n)
        raise pyerr(AttributeError("'bytes' object has no attribute '%s'" % n))


def one_of(b, chars):
    """The condition that a byte is one of some constant ones."""
    t = zt(b.t if isinstance(b, SInt) else int(b))
    return z3.Or([t == c for c in chars]) if chars else z3.BoolVal(False)


def justify(b, w, fill):
    """What ljust and rjust add."""
    if len(fill) != 1:
        raise pyerr(TypeError('the fill character must be a byte string of length 1'))
    n = total(pieces_of(b))
    if decide(zt(n) >= zt(w)):
        return b''
    if not (isinstance(n, int) and isinstance(w, int)):
        raise Unsupported('bytes.ljust of a string of unknown length')
    return fill * (w - n)


def strip(b, chars, left, right):
    """bytes.strip and relatives.  Where something is taken off, how much is over-approximated: the byte next to what is
    taken off is not one of the characters (that all bytes taken off are is left out unless the length is known)."""
    chars = set(b' \t\n\r\x0b\x0c' if chars is None else bytes(chars))
    st = S()
    for end in ('right',) * right + ('left',) * left:
        n = total(pieces_of(b))
        if not decide(zt(n) > 0):
            return b''
        at = mk_int(norm(zt(n) - 1)) if end == 'right' else 0
        if not decide(one_of(b[at], chars)):
            continue
        k = st.fresh('strip', z3.IntSort())
        st.add(z3.And(k >= 1, k <= zt(n)))
        if isinstance(n, int) and n <= 128:
            # all bytes taken off are such characters
            for i in range(n):
                st.add(z3.Implies((k >= n - i) if end == 'right' else (k > i), one_of(b[i], chars)))
        else:
            core.WEAK.add('bytes.strip')
            st.inexact = st.inexact or 'bytes.strip'
        if decide(k == zt(n)):
            return b''
        kept = mk_int(norm(zt(n) - k))
        b = b[:kept] if end == 'right' else b[mk_int(k):]
        edge = b[mk_int(norm(zt(n) - k - 1))] if end == 'right' else b[0]
        st.add(z3.Not(one_of(edge, chars)))
        if not st.feasible():
            raise core.PathEnd('strip')
    return b


def find(b, x, a):
    """bytes.find of one byte, over-approximated: some position with that byte, or -1."""
    if a or not (isinstance(x, int) or (isinstance(x, bytes) and len(x) == 1)):
        raise Unsupported('bytes.find of a symbolic value')
    v = x if isinstance(x, int) else x[0]
    st = S()
    n = total(pieces_of(b))
    core.WEAK.add('bytes.find')
    st.inexact = st.inexact or 'bytes.find'
    k = st.fresh('find', z3.IntSort())
    st.add(z3.And(k >= -1, k < zt(n)))
    if decide(k == -1):
        if decide(zt(n) > 0) and decide(one_of(b[0], [v])):
            raise core.PathEnd('find')
        return -1
    if not decide(one_of(b[mk_int(k)], [v])):
        raise core.PathEnd('find')
    return mk_int(k)


def join(sep, it):
    from . import lists
    if isinstance(it, lists.MList):
        segs = it.segs
    elif isinstance(it, (list, tuple)):
        segs = [lists.Items(list(it))]
    else:
        segs = [lists.Items(list(it))]
    out = []
    sp = need(sep)
    if sp and (len(segs) > 1 or any(not isinstance(s, lists.Items) for s in segs)):
        raise Unsupported('join with a separator')
    for s in segs:
        if isinstance(s, lists.Items):
            for k, x in enumerate(s.v):
                ps = pieces_of(x)
                if ps is None:
                    raise pyerr(TypeError('sequence item %d: expected a bytes-like object, %s found' % (k, type(x).__name__)))
                if k and sp:
                    out.extend(sp)
                out.extend(ps)
        else:
            v = s.d.template
            ps = pieces_of(v)
            if ps is None:
                raise pyerr(TypeError('expected a bytes-like object'))
            out.append(consecutive(s, ps) or Fold(FoldDef(s.d.var, ps), s.lo, s.hi))
    return mk_bytes(out)


def consecutive(s, ps):
    """Items that are consecutive parts of one byte string: the part of it they make up together, or None."""
    if len(ps) != 1 or not isinstance(ps[0], Arr):
        return None
    a, var, st = ps[0], s.d.var, S()
    if any(occurs_t(x, var) for x in a.base.args if not isinstance(x, int)) or not occurs_t(zt(a.off), var):
        return None

    def hyp():
        j = st.fresh('j', z3.IntSort())
        st.add(z3.And(j >= zt(s.lo), j < zt(s.hi)))
        st.index_term(j)
        st.index_term(norm(j + 1))
        return st.prove(subst_term(zt(a.off), var, j + 1) == subst_term(zt(a.off) + zt(a.n), var, j))
    if not st.hyp(hyp):
        return None
    st.index_term(s.lo)
    st.index_term(s.hi)
    lo, hi = (norm(subst_term(zt(a.off), var, zt(x))) for x in (s.lo, s.hi))
    return Arr(a.base, lo, norm(zt(hi) - zt(lo)))


def repeat(b, k):
    ps = need(b)
    k = norm(term(k))
    if isinstance(k, int):
        return mk_bytes(list(ps) * max(k, 0))
    if not leq(0, k) and decide(k < 0):
        return b''
    if len(ps) == 1 and isinstance(ps[0], Lit) and len(set(ps[0].b)) == 1:
        return mk_bytes([Rep(ps[0].b[0], norm(k * len(ps[0].b)))])
    if not ps:
        return b''
    return mk_bytes(list(ps) * core.enum_value(k))


class SView:
    """memoryview of a bytearray: reads and writes go through to it"""
    _pv_symbolic = True

    def __init__(self, owner, a=None, b=None):
        self.owner = owner
        self.a = 0 if a is None else a
        self.b = total(owner.p) if b is None else b
        owner.views = True

    def _pv_bytes(self):
        l, r = split(self.owner.p, self.b)
        return split(l, self.a)[1]

    def size(self):
        return norm(self.b - self.a)

    def length(self):
        return mk_int(fits(self.size()))
    nbytes = property(length)

    def bounds(self, i):
        if i.step is not None:
            raise Unsupported('slice step')
        n = self.size()
        a, b = clamp(i.start, n, 0), clamp(i.stop, n, n)
        if not leq(a, b) and not decide(zt(a) <= zt(b)):
            b = a
        return norm(self.a + a), norm(self.a + b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SView(self.owner, *self.bounds(i))
        return mk_int(index_pieces(self._pv_bytes(), i))

    def __setitem__(self, i, v):
        if not isinstance(i, slice):
            raise Unsupported('memoryview item assignment')
        a, b = self.bounds(i)
        m = total(need(v))
        if not same(m, norm(b - a)) and not decide(zt(m) == zt(norm(b - a))):
            raise pyerr(ValueError('memoryview assignment: lvalue and rvalue have different structures'))
        self.owner.views = False
        self.owner[mk_int(a):mk_int(b)] = v
        self.owner.views = True     # (the size is the same)

    def __eq__(self, o):
        return mk_eq(self, o)

    def __ne__(self, o):
        r = mk_eq(self, o)
        return r if r is NotImplemented else core.s_not(r)
    __hash__ = None

    def __bool__(self):
        return decide(zt(self.size()) > 0)

    def __len__(self):
        return core.enum_value(self.size())

    def __iter__(self):
        return iter(self.tobytes())

    def tobytes(self):
        return mk_bytes(self._pv_bytes())

    def hex(self):
        return '<sym>'

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __repr__(self):
        return '<memory>'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(memoryview, n):
            raise Unsupported('memoryview.' + n)
        raise AttributeError(n)


class SByteArray:
    """bytearray"""
    _pv_symbolic = True
    _pv_repeat = True
    views = False           # has been the subject of a memoryview

    def __init__(self, ps=()):
        self.p = norm_pieces(list(ps))
        S().track(self)

    def _pv_bytes(self):
        return self.p

    def _get(self):
        return mk_bytes(self.p)

    def _put(self, v):
        self.p = list(need(v))

    def _w(self, resize=True):
        if resize and self.views:
            raise Unsupported('bytearray that has a memoryview changes size')
        S().wrote(self, '@')

    def length(self):
        return mk_int(fits(total(self.p)))

    def extend(self, x):
        q = pieces_of(x)
        if q is None:
            from . import lists
            if isinstance(x, lists.MList) or isinstance(x, (list, tuple)):
                q = ints_to_pieces(x)
            else:
                raise pyerr(TypeError('expected bytes-like'))
        self._w()
        self.p = norm_pieces(list(self.p) + list(q))

    def append(self, v):
        self._w()
        self.p = norm_pieces(list(self.p) + ints_to_pieces([v]))

    def clear(self):
        self._w()
        self.p = []

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        q = pieces_of(o)
        return NotImplemented if q is None else SByteArray(list(self.p) + list(q))

    def __radd__(self, o):
        q = pieces_of(o)
        return NotImplemented if q is None else mk_bytes(list(q) + list(self.p))

    def __eq__(self, o):
        return mk_eq(self, o)

    def __ne__(self, o):
        r = mk_eq(self, o)
        return r if r is NotImplemented else core.s_not(r)
    __hash__ = None

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SByteArray(slice_pieces(self.p, i))
        return mk_int(index_pieces(self.p, i))

    def __setitem__(self, i, v):
        self._w(False)
        n = total(self.p)
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice step')
            a, b = clamp(i.start, n, 0), clamp(i.stop, n, n)
            if not leq(a, b) and not decide(zt(a) <= zt(b)):
                b = a
            l, r = split(self.p, b)
            l, m = split(l, a)
            if self.views and not same(total(need(v)), norm(b - a)):
                raise Unsupported('bytearray that has a memoryview changes size')
            self.p = norm_pieces(l + list(need(v)) + r)
            return
        i = norm(term(i))
        if not leq(0, i) and decide(zt(i) < 0):
            i = norm(i + n)
        if not (leq(0, i) and leq(norm(i + 1), n)) and not decide(z3.And(zt(i) >= 0, zt(i) < zt(n))):
            raise pyerr(IndexError('bytearray index out of range'))
        l, r = split(self.p, i)
        m, r = split(r, 1)
        self.p = norm_pieces(l + ints_to_pieces([v]) + r)

    def __delitem__(self, i):
        if not isinstance(i, slice):
            raise Unsupported('del of a bytearray item')
        self[i] = b''

    def __bool__(self):
        return decide(zt(total(self.p)) > 0)

    def __len__(self):
        return core.enum_value(total(self.p))

    def __iter__(self):
        return iter(mk_bytes(self.p))

    def hex(self):
        return '<sym>'

    def startswith(self, x):
        return SBytes(self.p).startswith(x)

    def endswith(self, x):
        return SBytes(self.p).endswith(x)

    def __repr__(self):
        return 'bytearray(<sym>)'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(bytearray, n):
            raise Unsupported('bytearray.' + n)
        raise pyerr(AttributeError("'bytearray' object has no attribute '%s'" % n))


def mk_eq(a, b):
    x, y = pieces_of(a), pieces_of(b)
    if x is None or y is None:
        return NotImplemented
    c = eq_pieces(x, y)
    return c if isinstance(c, bool) else mk_bool(c)


def ints_to_pieces(vs):
    from . import lists
    if isinstance(vs, lists.MList):
        vs = vs.native('bytes from a symbolic list')
    out = []
    for v in vs:
        t = norm(term(v))
        if isinstance(t, int):
            if not 0 <= t <= 255:
                raise pyerr(ValueError('bytes must be in range(0, 256)'))
            out.append(Lit(bytes([t])))
        else:
            if not (leq(0, t) and leq(t, 255)) and not decide(z3.And(t >= 0, t <= 255)):
                raise pyerr(ValueError('bytes must be in range(0, 256)'))
            out.append(Num(t, 1))
    return norm_pieces(out)


def int_to_bytes(v, length, byteorder, signed=False):
    t = norm(term(v))
    n = length.__index__() if not isinstance(length, int) else length
    if signed:
        t2 = t
        if not S().branch(z3.And(zt(t) >= -(256 ** n // 2), zt(t) < 256 ** n // 2)):
            raise pyerr(OverflowError('int too big to convert'))
        t = norm(z3.If(zt(t) < 0, zt(t) + 256 ** n, zt(t)))
        if leq(0, t2):
            t = t2
    else:
        if not leq(0, t) and decide(zt(t) < 0):
            raise pyerr(OverflowError("can't convert negative int to unsigned"))
        if not leq(norm(t + 1), 256 ** n) and not decide(zt(t) < 256 ** n):
            raise pyerr(OverflowError('int too big to convert'))
    if byteorder == 'little':
        return mk_bytes([Num(zt(t), n)]) if n else b''
    if byteorder == 'big':
        p = Num(zt(t), n)
        return mk_bytes([Num(zt(p.byte(k)), 1) for k in range(n - 1, -1, -1)])
    raise pyerr(ValueError("byteorder must be either 'little' or 'big'"))


def int_from_bytes(b, byteorder='big', signed=False):
    ps = need(b)
    n = total(ps)
    n = n if isinstance(n, int) else core.enum_value(n)
    if n > 64:
        raise Unsupported('long int')
    if byteorder == 'big':
        ps = norm_pieces([Num(zt(piece_byte(ps, k)), 1) for k in range(n - 1, -1, -1)])
    t = num_value(ps)
    if signed and n:
        t = norm(z3.If(zt(t) >= 256 ** n // 2, zt(t) - 256 ** n, zt(t)))
    return mk_int(t)


def num_value(ps):
    """Little-endian value of pieces of concrete total length."""
    v = 0
    sh = 1
    for p in ps:
        n = p.n
        if isinstance(p, Num):
            v = v + p.t * sh
        elif isinstance(p, Lit):
            v = v + int.from_bytes(p.b, 'little') * sh
        else:
            if not isinstance(n, int):
                n = core.enum_value(n)
            for k in range(n):
                v = v + zt(p.byte(k)) * (sh * 256 ** k)
        sh = sh * 256 ** n
    return norm(v)


def sym_bytes(name, n=None, lo=0, hi=None, args=()):
    """A fresh unknown byte string."""
    st = S()
    nm = st.fresh_name(name)
    args = list(st.loop_idx) + list(args)
    if n is None:
        LENREG[nm + '.len'] = hi if isinstance(hi, int) else None
        f = z3.Function(nm + '.len', *([z3.IntSort()] * (len(args) + 1)))
        L = f(*args) if args else z3.Int(nm + '.len')
        st.add(L >= zt(lo))
        if hi is not None:
            st.add(L <= zt(hi))
        st.lens.append(L)
    else:
        L = n
    b = Base(nm, args, L)
    return mk_bytes([Arr(b, 0, L)])

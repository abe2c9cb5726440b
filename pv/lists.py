"""Lists, tuples and deques whose length and content may be symbolic: segments of items and indexed maps."""
import z3
from . import core
from .core import SInt, SBool, Unsupported, norm, term, mk_int
from .ropes import S, same, leq, decide, zt, is0, pyerr, subst_val, subst_term, canon_var, shift_of, clamp, is_bytes, val_eq


class Items:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    @property
    def n(self):
        return len(self.v)


class MapDef:
    """template over a canonical variable; element j is subst(template)."""
    _n = [0]

    def __init__(self, var, template, key=None):
        MapDef._n[0] += 1
        v = z3.Int('#m%d' % MapDef._n[0])
        self.var = v
        self.template = subst_val(template, var, v)
        self.key = key or repr(subst_val(self.template, v, canon_var(901)))
        self.c = shift_of([self.template], v)
        self.canon = None
        if self.c:
            self.canon = MapDef(v, subst_val(self.template, v, v - self.c))
            if self.canon.c:
                self.c = 0

    def at(self, j):
        return subst_val(self.template, self.var, zt(j))


class Map:
    __slots__ = ('d', 'lo', 'hi')

    def __init__(self, d, lo, hi):
        if d.c:
            d, lo, hi = d.canon, norm(lo + d.c), norm(hi + d.c)
        self.d, self.lo, self.hi = d, lo, hi

    @property
    def n(self):
        return norm(self.hi - self.lo)


def subst_seg(s, var, val):
    if isinstance(s, Items):
        return Items([subst_val(x, var, val) for x in s.v])
    d = s.d
    t = subst_val(d.template, var, val)
    if t is not d.template and repr(t) != repr(d.template):
        d = MapDef(d.var, t)
    return Map(d, subst_term(s.lo, var, val), subst_term(s.hi, var, val))


def norm_segs(segs):
    out = []
    for s in segs:
        if is0(s.n):
            continue
        if out and isinstance(s, Items) and isinstance(out[-1], Items):
            out[-1] = Items(out[-1].v + s.v)
        elif out and isinstance(s, Map) and isinstance(out[-1], Map) and out[-1].d.key == s.d.key and is0(norm(out[-1].hi - s.lo)):
            out[-1] = Map(s.d, out[-1].lo, s.hi)
        elif out and isinstance(s, Map) and isinstance(out[-1], Items) and isinstance(s.lo, int) and s.lo > 0 and not isinstance(s.hi, int) and is_bytes(out[-1].v[-1]) \
                and repr(out[-1].v[-1]) == repr(s.d.at(s.lo - 1)):
            # the items before it
            it = out[-1].v
            lo = s.lo
            while it and lo > 0 and is_bytes(it[-1]) and repr(it[-1]) == repr(s.d.at(lo - 1)):
                S().index_term(lo - 1)
                it, lo = it[:-1], lo - 1
            if it:
                out[-1] = Items(it)
            else:
                out.pop()
            out.append(Map(s.d, lo, s.hi))
        elif isinstance(s, Map) and isinstance(s.lo, int) and isinstance(s.hi, int) and s.hi - s.lo <= 8:
            it = []
            for j in range(s.lo, s.hi):
                S().index_term(j)
                it.append(s.d.at(j))
            if out and isinstance(out[-1], Items):
                out[-1] = Items(out[-1].v + it)
            else:
                out.append(Items(it))
        else:
            out.append(s)
    return out


def split_segs(segs, pos):
    left = []
    r = pos
    i = 0
    while i < len(segs):
        if is0(r):
            break
        s = segs[i]
        n = s.n
        if leq(n, r) or (not leq(r, n) and decide(zt(n) <= zt(r))):
            left.append(s)
            r = norm(r - n)
            i += 1
            continue
        if same(r, 0):
            break
        if isinstance(s, Items):
            k = core.enum_value(r)
            a, b = Items(s.v[:k]), Items(s.v[k:])
        else:
            m = norm(s.lo + r)
            a, b = Map(s.d, s.lo, m), Map(s.d, m, s.hi)
        return norm_segs(left + [a]), norm_segs([b] + list(segs[i + 1:]))
    return norm_segs(left), norm_segs(segs[i:])


class MList:
    """list (tup=False) or tuple of symbolic length (tup=True)."""
    _pv_symbolic = True
    __slots__ = ('segs', 'tup', '__weakref__')

    def __init__(self, segs=(), tup=False):
        self.segs = norm_segs(list(segs))
        self.tup = tup
        if not tup:
            S().track(self)

    @staticmethod
    def of(items):
        return MList([Items(list(items))])

    # -- heap interface
    def _get(self):
        return tuple(self.segs)

    def _put(self, segs):
        self.segs = list(segs)

    def _w(self):
        S().wrote(self, '@')

    def size(self):
        n = 0
        for s in self.segs:
            n = n + s.n
        return norm(n)

    def length(self):
        return mk_int(self.size())

    def concrete(self):
        return all(isinstance(s, Items) for s in self.segs)

    def native(self, why='a symbolic list'):
        out = []
        for s in self.segs:
            if isinstance(s, Items):
                out.extend(s.v)
            else:
                n = core.enum_value(s.n)
                for j in range(n):
                    S().index_term(norm(s.lo + j))
                    out.append(s.d.at(norm(s.lo + j)))
        return out

    def at(self, i):
        """element at a position known to be in range"""
        r = i
        for s in self.segs:
            n = s.n
            if leq(norm(r + 1), n) or (not leq(n, r) and decide(zt(r) < zt(n))):
                if isinstance(s, Items):
                    k = r if isinstance(r, int) else core.enum_value(r)
                    return s.v[k]
                j = norm(s.lo + r)
                S().index_term(j)
                return s.d.at(j)
            r = norm(r - n)
        raise Unsupported('list index')

    def _idx(self, i):
        n = self.size()
        i = norm(term(i))
        if not leq(0, i) and decide(zt(i) < 0):
            i = norm(i + n)
            if not leq(0, i) and decide(zt(i) < 0):
                raise pyerr(IndexError('list index out of range'))
        if not leq(norm(i + 1), n) and decide(zt(i) >= zt(n)):
            raise pyerr(IndexError('list index out of range'))
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                it = self.native()[i]
                return tuple(it) if self.tup else MList.of(it)
            n = self.size()
            a, b = clamp(i.start, n, 0), clamp(i.stop, n, n)
            if not leq(a, b) and not decide(zt(a) <= zt(b)):
                return mk_tuple([]) if self.tup else MList([])
            l, _ = split_segs(self.segs, b)
            _, m = split_segs(l, a)
            return mk_tuple(m) if self.tup else MList(m)
        if not isinstance(i, (int, SInt, SBool)):
            if not hasattr(i, '__index__'):
                raise pyerr(TypeError('list indices must be integers or slices'))
            i = i.__index__()
        return self.at(self._idx(i))

    def __setitem__(self, i, v):
        if self.tup:
            raise pyerr(TypeError("'tuple' object does not support item assignment"))
        self._w()
        if isinstance(i, slice):
            it = self.native()
            it[i] = list(v)
            self.segs = norm_segs([Items(it)])
            return
        k = self._idx(i)
        l, r = split_segs(self.segs, k)
        _, r = split_segs(r, 1)
        self.segs = norm_segs(l + [Items([v])] + r)

    def __delitem__(self, i):
        self._w()
        if isinstance(i, slice):
            n = self.size()
            a, b = clamp(i.start, n, 0), clamp(i.stop, n, n)
            l, r = split_segs(self.segs, b)
            l, _ = split_segs(l, a)
            self.segs = norm_segs(l + r)
            return
        self.pop(i)

    def append(self, v):
        self._w()
        self.segs = norm_segs(self.segs + [Items([v])])

    def extend(self, o):
        self._w()
        self.segs = norm_segs(self.segs + segs_of(o))

    def insert(self, i, v):
        self._w()
        n = self.size()
        k = clamp(i, n, 0)
        l, r = split_segs(self.segs, k)
        self.segs = norm_segs(l + [Items([v])] + r)

    def pop(self, i=-1):
        n = self.size()
        if not decide(zt(n) > 0):
            raise pyerr(IndexError('pop from empty list'))
        self._w()
        k = self._idx(i)
        l, r = split_segs(self.segs, k)
        m, r = split_segs(r, 1)
        v = MList(m, tup=True).at(0)
        self.segs = norm_segs(l + r)
        return v

    def clear(self):
        self._w()
        self.segs = []

    def copy(self):
        return MList(self.segs)

    def reverse(self):
        self._w()
        self.segs = [Items(self.native()[::-1])]

    def sort(self, **k):
        self._w()
        self.segs = [Items(sorted(self.native(), **k))]

    def index(self, v):
        for k, x in enumerate(self.native()):
            if x == v:
                return k
        raise pyerr(ValueError('not in list'))

    def count(self, v):
        return sum(1 for x in self.native() if x == v)

    def __add__(self, o):
        if isinstance(o, (MList, list, tuple)):
            if self.tup:
                return mk_tuple(self.segs + segs_of(o))
            return MList(self.segs + segs_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            if self.tup:
                return mk_tuple(segs_of(o) + self.segs)
            return MList(segs_of(o) + self.segs)
        return NotImplemented

    def __iadd__(self, o):
        if self.tup:
            return self + o
        self.extend(o)
        return self

    def __mul__(self, k):
        if isinstance(k, SInt) and len(self.segs) == 1 and isinstance(self.segs[0], Items) and len(self.segs[0].v) == 1 \
                and (isinstance(self.segs[0].v[0], (bool, int, bytes, SInt, SBool)) or self.segs[0].v[0] is None):
            n = norm(term(k))
            r = [Map(MapDef(z3.Int('#r'), self.segs[0].v[0]), 0, n)] if leq(0, n) or decide(zt(n) > 0) else []
            return mk_tuple(r) if self.tup else MList(r)
        if isinstance(k, (int, SInt)):
            k = k if isinstance(k, int) else k.__index__()
            r = list(self.segs) * max(k, 0)
            return mk_tuple(r) if self.tup else MList(r)
        return NotImplemented
    __rmul__ = __mul__

    def __bool__(self):
        return decide(zt(self.size()) > 0)

    def __len__(self):
        return core.enum_value(self.size())

    def __iter__(self):
        # native iteration: only for lists of few possible lengths
        if self.concrete():
            k = 0
            while k < self.size():
                yield self.at(k)
                k += 1
            return
        for x in self.native():
            yield x

    def __contains__(self, v):
        for x in self:
            if x is v or x == v:
                return True
        return False

    def __eq__(self, o):
        if isinstance(o, (list, tuple, MList)):
            if isinstance(o, MList) and o.tup != self.tup or isinstance(o, list) and self.tup or isinstance(o, tuple) and not self.tup:
                return False
            c = list_eq(self.segs, segs_of(o))
            return c if isinstance(c, bool) else core.mk_bool(c)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.s_not(r)
    __hash__ = None

    def __repr__(self):
        out = []
        for s in self.segs:
            if isinstance(s, Items):
                out.append(repr(s.v))
            else:
                out.append('Map{%s}[%s:%s]' % (s.d.key, s.lo, s.hi))
        return ('T' if self.tup else 'M') + '(%s)' % '+'.join(out)
    __str__ = lambda self: '<list>'

    def __format__(self, s):
        return '<list>'


def list_eq(a, b):
    n, m = MList(a, tup=True).size(), MList(b, tup=True).size()
    if not same(n, m) and not decide(zt(n) == zt(m)):
        return False
    a, b = list(a), list(b)
    conds = []
    st = S()
    while a and b:
        p, q = a[0], b[0]
        x = p.n
        if same(p.n, q.n):
            pass
        elif leq(p.n, q.n) or (not leq(q.n, p.n) and decide(zt(p.n) <= zt(q.n))):
            l, r = split_segs([q], p.n)
            b[0:1] = l + r
        else:
            l, r = split_segs([p], q.n)
            a[0:1] = l + r
        p, q = a.pop(0), b.pop(0)
        if not same(p.n, q.n):
            raise Unsupported('list equality')
        if isinstance(p, Items) or isinstance(q, Items):
            k = p.n if isinstance(p, Items) else q.n
            for j in range(k):
                c = val_eq(MList([p], tup=True).at(j), MList([q], tup=True).at(j))
                c = core.zb(c) if not isinstance(c, bool) else c
                if c is False:
                    return False
                if c is not True:
                    conds.append(c)
            continue
        if p.d.key == q.d.key and same(p.lo, q.lo):
            continue

        def hyp():
            j = st.fresh('j', z3.IntSort())
            st.add(z3.And(j >= 0, j < zt(p.n)), aux=True)
            st.index_term(norm(j + p.lo))
            st.index_term(norm(j + q.lo))
            c = val_eq(p.d.at(norm(j + p.lo)), q.d.at(norm(j + q.lo)))
            return c is True or (c is not False and st.prove(core.zb(c)))
        if st.hyp(hyp):
            continue
        # not provably equal everywhere: equal iff no witness
        e = st.fresh('leq', z3.BoolSort())
        w = st.fresh('lw', z3.IntSort())
        if st.branch(e):
            st.inexact = st.inexact or 'equality of lists'
            return True if not conds else z3.And(*conds)
        st.add(z3.And(w >= 0, w < zt(p.n)))
        st.index_term(norm(w + p.lo))
        st.index_term(norm(w + q.lo))
        c = val_eq(p.d.at(norm(w + p.lo)), q.d.at(norm(w + q.lo)))
        st.add(z3.Not(core.zb(c)))
        return False
    if not conds:
        return True
    return z3.And(*conds)


def segs_of(o):
    if isinstance(o, MList):
        return list(o.segs)
    if isinstance(o, SDeque):
        return list(o.m.segs)
    return [Items(list(o))]


def mk_tuple(segs):
    segs = norm_segs(segs)
    if all(isinstance(s, Items) for s in segs):
        out = []
        for s in segs:
            out.extend(s.v)
        return tuple(out)
    return MList(segs, tup=True)


class SDeque:
    """collections.deque without maxlen"""
    _pv_symbolic = True

    def __init__(self, it=(), maxlen=None):
        if maxlen is not None:
            raise Unsupported('deque with maxlen')
        self.m = MList(segs_of(it))

    def length(self):
        return self.m.length()

    def append(self, v):
        self.m.append(v)

    def appendleft(self, v):
        self.m.insert(0, v)

    def extend(self, o):
        self.m.extend(o)

    def extendleft(self, o):
        self.m._w()
        it = MList(segs_of(o)).native()
        self.m.segs = norm_segs([Items(it[::-1])] + self.m.segs)

    def popleft(self):
        if not decide(zt(self.m.size()) > 0):
            raise pyerr(IndexError('pop from an empty deque'))
        return self.m.pop(0)

    def pop(self):
        if not decide(zt(self.m.size()) > 0):
            raise pyerr(IndexError('pop from an empty deque'))
        return self.m.pop()

    def clear(self):
        self.m.clear()

    def __getitem__(self, i):
        return self.m[i]

    def __bool__(self):
        return bool(self.m)

    def __len__(self):
        return len(self.m)

    def __iter__(self):
        return iter(self.m)
    __hash__ = None

"""Symbolic state, path exploration and scalar values (ints, bools) of the verifier.

One path = one run of a contract.  Every place where the run depends on a symbolic condition asks
`S.branch`; the runs are repeated (deterministically) until every feasible branch combination has been
taken.  `S.prove` discharges an obligation with z3: the negation must be unsatisfiable under the path
condition.  `unknown` is never treated as proved nor as infeasible.
"""
import time
import os
import z3


class EngineSignal(BaseException):
    """Control flow of the verifier; not an Exception so that code under proof cannot catch it."""


class PathEnd(EngineSignal):
    pass


class Restart(EngineSignal):
    """the paths from the entry of a loop (position `pos` of the trace) have to be explored again"""

    def __init__(self, why, pos):
        super().__init__(why)
        self.pos = pos


class NeedInfer(EngineSignal):
    """A loop needs an invariant: raised with the key of the loop; the explorer infers it and runs the path again."""


class Unsupported(EngineSignal):
    """The code does something the verifier has no semantics for: the contract is undecided."""


class Ev:
    __slots__ = ('val', 'alt', 'kind')

    def __init__(self, val, alt, kind):
        self.val, self.alt, self.kind = val, alt, kind


def dup_state(d):
    return {k: dup_state(v) if type(v) is dict else list(v) if type(v) is list else v for k, v in d.items()}


class SumTab(dict):
    """prefix sums in use; copied with their bookkeeping for a hypothetical argument"""

    def copy(self):
        return SumTab((k, s.dup()) for k, s in self.items())


WEAK = set()      # operations over-approximated in this run (a refutation then needs a failing input to count)


class State:
    """State of one exploration; `S` below is the current one."""

    def __init__(self, timeout_ms=10000, unroll=None, seed=1):
        self.timeout_ms = timeout_ms
        self.unroll = unroll          # None: loops need invariants; k: unroll at most k times (bounded)
        self.cuts = set()             # while loops that depend on unknown values
        self.loops = {}               # loop instance key -> inference record, kept over restarts
        self.stats = dict(queries=0, unknown=0, solver_s=0.0, paths=0, pruned=0, restarts=0, obligations=0,
                          discharged=0, bounded_cuts=0, infer=0)
        self.trusted = set()          # models/assumptions actually used
        self.functions = set()        # functions of the repository executed under contract
        self.seed = seed
        self.bounded = False
        self.loops_proved = set()
        self.extract = None           # model -> inputs
        self.results = []             # (label, status, counterexample) of obligations, over all paths
        self.dump = None              # list: SMT-LIB text of every query answered unsat (second solver)
        self.deadline = None

    # ---- one path -------------------------------------------------------------------------------
    def begin(self, trace):
        self.trace = trace
        self.pos = 0
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.solver.set('random_seed', self.seed)
        self.pc = []
        self.counter = {}
        self.loop_id = ''             # names of symbols made inside a loop carry its identity
        self.inst = 0
        self.hypdepth = 0
        self.noinduct = None
        self.births = 0
        self.revived = set()
        self.loopcount = {}
        self.loop_idx = []            # loop index constants in scope (fresh symbols depend on them)
        self.idx_terms = []           # integer terms at which indexed facts are instantiated
        self.facts = []               # (fn(j)->BoolRef, lo, hi)
        self.byte_facts = []          # (fn, lo, hi, {byte string: [c]}): facts about the bytes at j + c
        self.byte_reads = []          # (byte string, position) read one at a time
        self.uf_apps = []             # (fname, args, result)
        self.ufb_apps = []
        self.sums = []
        self.inputs = []              # (name, kind, value)
        self.obls = []
        self.covers = set()
        self.infer = False            # inside an inference round: obligations are not recorded
        self.ranges = set()
        self.notes = []
        self.aborted = None
        self.genuine = 0
        self.keep = []
        self.sumtab = SumTab()
        self.inexact = None           # why this path over-approximates, if it does
        self.opaque = {}
        self.lens = []
        self.bfacts = []
        self.bterms = []
        self.serial = 0               # objects numbered in creation order
        self.oid = {}
        self.objs = {}
        self.loopstack = []
        self.run_state = {}           # models' per-path state
        self.mutations = 0
        self.nofacts = True           # no quantified facts in play: a model is a real counterexample

    def fresh(self, name, sort):
        nm = self.fresh_name(name)
        if self.loop_idx:
            f = z3.Function(nm, *([z3.IntSort()] * len(self.loop_idx) + [sort]))
            return f(*self.loop_idx)
        return z3.Const(nm, sort)

    def fresh_name(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return '%s%s!%d' % (name, self.loop_id, n)

    def add(self, c, aux=False):
        """Add to the path condition; aux: a consequence of definitions, not kept in loop summaries."""
        if isinstance(c, bool):
            if not c:
                raise PathEnd('assumed false')
            return
        if not aux and self.inst == 0 and not self.hypdepth:
            for L in self.loopstack:
                if L.inductive:
                    L.kept.append(c)
        self.pc.append(c)
        self.solver.add(c)

    # ---- queries --------------------------------------------------------------------------------
    def _check(self, c):
        t0 = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        if self.dump is not None and r == z3.unsat:
            self.dump.append(self.solver.to_smt2())
        self.solver.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('out of time')
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def oblige(self, label, c):
        """A proof obligation: c must hold here."""
        c = zb(c)
        c = z3.simplify(c)
        ev = self._event('o')
        if ev is None and self.infer:
            ev = self._record('assumed', False, 'o')
        if ev is None:
            self.stats['obligations'] += 1
            t0 = time.time()
            cex = None
            if z3.is_true(c):
                r = 'proved'
            else:
                self.solver.push()
                self.solver.add(z3.Not(c))
                q = self.solver.check()
                self.stats['queries'] += 1
                if q == z3.unsat:
                    r = 'proved'
                    if self.dump is not None:
                        self.dump.append(self.solver.to_smt2())
                elif q == z3.sat:
                    r = 'failed'
                    cex = self.counterexample()
                else:
                    r = 'unknown'
                    self.stats['unknown'] += 1
                self.solver.pop()
            self.stats['solver_s'] += time.time() - t0
            if r == 'proved':
                self.stats['discharged'] += 1
            self.results.append((label, r, cex, bool(self.inexact is None and self.nofacts and not self.facts)))
            ev = self._record(r, False, 'o')
        if ev.val != 'proved':
            if z3.is_false(c):
                raise PathEnd('obligation')
            self.add(c, aux=True)
            if not self.feasible():
                raise PathEnd('obligation')

    def counterexample(self):
        if self.extract is None:
            return None
        caps = (8, 70, 400, 70000, 1 << 25, None)
        for cap in caps:
            self.solver.push()
            try:
                if cap is not None:
                    for L in self.lens:
                        self.solver.add(L <= cap)
                if self.solver.check() == z3.sat:
                    return self.extract(self.solver.model())
            except z3.Z3Exception:
                return None
            finally:
                self.solver.pop()
        return None

    def sat(self, c):
        return self._check(c) != z3.unsat

    def _event(self, kind):
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != kind:
                raise Unsupported('non-deterministic re-execution: %s vs %s' % (ev.kind, kind))
            self.pos += 1
            return ev
        return None

    def _record(self, val, alt, kind):
        ev = Ev(val, alt, kind)
        self.trace.append(ev)
        self.pos += 1
        return ev

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ev = self._event('b')
        if ev is None:
            t = self.sat(c)
            f = self.sat(z3.Not(c)) if t else True
            if t and f:
                ev = self._record((True, True), True, 'b')
            elif t:
                ev = self._record((True, False), False, 'b')
            else:
                if not self.sat(z3.BoolVal(True)):
                    raise PathEnd('infeasible')
                ev = self._record((False, False), False, 'b')
        val, genuine = ev.val
        if genuine:
            self.genuine += 1
        self.add(c if val else z3.Not(c), aux=not genuine)
        return val

    def choose(self, n):
        """Nondeterministic choice 0..n-1, all explored."""
        ev = self._event('c%d' % n)
        if ev is None:
            ev = self._record(0, n > 1, 'c%d' % n)
        self.genuine += 1
        return ev.val

    def prove(self, c):
        """True iff c is valid under the path condition."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        ev = self._event('p')
        if ev is None:
            ev = self._record(self._check(z3.Not(c)) == z3.unsat, False, 'p')
        return ev.val

    def feasible(self):
        ev = self._event('f')
        if ev is None:
            ev = self._record(self.sat(z3.BoolVal(True)), False, 'f')
        return ev.val

    def alternatives(self, start):
        out = []
        for k in range(start, len(self.trace)):
            ev = self.trace[k]
            if not ev.alt:
                continue
            pre = self.trace[:k]
            if ev.kind == 'b':
                out.append(pre + [Ev((False, True), False, 'b')])
            elif ev.kind[0] == 'c':
                n = int(ev.kind[1:])
                for v in range(n - 1, ev.val, -1):
                    out.append(pre + [Ev(v, False, ev.kind)])
        return out

    def hyp(self, fn):
        """Explore all sub-paths of fn() hypothetically; True iff fn() is True on every one."""
        ev = self._event('h')
        if ev is not None:
            return ev.val
        saved = (self.trace, self.pos)
        names = ('pc', 'counter', 'loop_idx', 'idx_terms', 'facts', 'uf_apps', 'ufb_apps', 'sums', 'ranges', 'obls', 'inputs',
                 'sumtab', 'opaque', 'lens', 'bfacts', 'bterms', 'run_state')
        keep = {n: getattr(self, n) for n in names}
        keep_inex = self.inexact
        self.hypdepth += 1
        keep['revived'] = self.revived
        names = names + ('revived',)
        keep_gen = self.genuine
        work = [[]]
        ok = True
        err = None
        n = 0
        while work and ok:
            pre = work.pop()
            start = len(pre)
            self.trace, self.pos = list(pre), 0
            for nm in names:
                v = keep[nm]
                setattr(self, nm, dup_state(v) if nm == 'run_state' else v.copy())
            self.solver.push()
            n += 1
            try:
                if n > 400:
                    raise Unsupported('too many cases in a hypothetical argument')
                r = fn()
                if r is not True:
                    ok = False
            except PathEnd:
                pass
            except EngineSignal as e:
                err = e
                ok = False
            finally:
                self.solver.pop()
            work.extend(self.alternatives(start))
        for nm in names:
            setattr(self, nm, keep[nm])
        self.genuine = keep_gen
        self.hypdepth -= 1
        self.inexact = keep_inex
        self.trace, self.pos = saved
        if err is not None:
            raise err
        self._record(ok, False, 'h')
        return ok

    # ---- indexed facts (instantiated at index terms instead of quantifiers) -------------------------
    def index_term(self, t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        if self.inst:
            return
        t = z3.simplify(t)
        for u in self.idx_terms:
            if u.eq(t):
                return
        self.idx_terms.append(t)
        for (fn, lo, hi, offs) in list(self.facts):
            self._insts(fn, lo, hi, offs, t)

    def fact(self, fn, lo, hi):
        """For all lo <= j < hi: fn(j)."""
        self.inst += 1
        try:
            body = fn(PROBE)
            offs = offsets(body)
        finally:
            self.inst -= 1
        self.facts.append((fn, lo, hi, offs))
        bo = byte_offsets(body)
        if bo:
            self.byte_facts.append((fn, lo, hi, bo))
            for (b, t) in list(self.byte_reads):
                for c in bo.get(b, ()):
                    self._inst(fn, lo, hi, z3.simplify(t - c))
        for t in list(self.idx_terms):
            self._insts(fn, lo, hi, offs, t)

    def _insts(self, fn, lo, hi, offs, t):
        self._inst(fn, lo, hi, t)
        for c in offs:
            self._inst(fn, lo, hi, z3.simplify(t - c))

    def byte_read(self, b, t):
        if self.inst:
            return
        if isinstance(t, int):
            t = z3.IntVal(t)
        if any(x == b and u.eq(t) for (x, u) in self.byte_reads):
            return
        self.byte_reads.append((b, t))
        for (fn, lo, hi, bo) in list(self.byte_facts):
            for c in bo.get(b, ()):
                self._inst(fn, lo, hi, z3.simplify(t - c))

    def byte_term(self, t):
        self.bterms.append(t)
        for fn, n in list(self.bfacts):
            self.add(z3.Implies(z3.And(t >= 0, t < n), fn(t)), aux=True)

    def bytefact(self, fn, n):
        self.bfacts.append((fn, n))
        for t in list(self.bterms):
            self.add(z3.Implies(z3.And(t >= 0, t < n), fn(t)), aux=True)

    # ---- heap -----------------------------------------------------------------------------------
    def track(self, obj):
        """Number an object (deterministic over re-executions)."""
        k = id(obj)
        n = self.oid.get(k)
        if n is None:
            n = self.serial
            self.serial += 1
            self.oid[k] = n
            self.objs[n] = obj
        return n

    def wrote(self, obj, attr):
        self.mutations += 1
        n = self.track(obj)
        for L in self.loopstack:
            L.note(n, attr)

    def _inst(self, fn, lo, hi, t):
        g = z3.simplify(z3.And(t >= lo, t < hi))
        if z3.is_false(g):
            return
        self.inst += 1
        try:
            self.add(z3.Implies(g, fn(t)), aux=True)
        finally:
            self.inst -= 1


TRACE = bool(os.environ.get('PV_TRACE'))
PROBE = z3.Int('#probe')


def offsets(b):
    """the c for which f(..., j + c) occurs in a fact about j: it is needed at t - c for the index terms t"""
    out, seen, todo = [], set(), [b]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        ch = x.children()
        todo.extend(ch)
        if ch and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in ch:
                c = z3.simplify(a - PROBE)
                if not mentions(c, PROBE) and not (z3.is_int_value(c) and c.as_long() == 0) and not any(c.eq(d) for d in out):
                    out.append(c)
    return out[:3]


def byte_offsets(b):
    """{byte string: the c for which its byte at j + c occurs in a fact about j}"""
    from . import ropes
    out, seen, todo = {}, set(), [b]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        ch = x.children()
        todo.extend(ch)
        if ch and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in ropes.BASEREG:
            c = z3.simplify(ch[-1] - PROBE)
            if not mentions(c, PROBE):
                l = out.setdefault(x.decl().name(), [])
                if not any(c.eq(d) for d in l) and len(l) < 4:
                    l.append(c)
    return out


def mentions(t, v):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


S = None


def set_state(s):
    global S
    S = s


def cur():
    return S


# ---- terms: python int or z3 Int expression ---------------------------------------------------------
def norm(t):
    if isinstance(t, int):
        return int(t)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def term(v):
    """python int / SInt / SBool / z3 -> int or z3 Int"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.b, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ArithRef):
        return v
    raise TypeError('an integer is required (got type %s)' % type(v).__name__)


def is_num(v):
    return isinstance(v, (int, SInt, SBool))


def zb(v):
    """-> z3 Bool"""
    if isinstance(v, SBool):
        return v.b
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    return z3.BoolVal(bool(v))


def mk_int(t):
    t = norm(t)
    return t if isinstance(t, int) else SInt(t)


def mk_bool(b):
    if isinstance(b, bool):
        return b
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SBool(b)


def pymod_int(name):
    def f(self, o):
        return NotImplemented
    return f


class SInt:
    __slots__ = ('t',)
    _pv_symbolic = True

    def __init__(self, t):
        self.t = t

    def _o(self, o):
        if isinstance(o, (int, SInt, SBool)):
            return term(o)
        return None

    def __add__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mk_int(self.t + x)
    __radd__ = __add__

    def __sub__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mk_int(self.t - x)

    def __rsub__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mk_int(x - self.t)

    def __mul__(self, o):
        x = self._o(o)
        if x is None:
            if isinstance(o, (bytes, bytearray)) or hasattr(type(o), '_pv_repeat'):
                from .ropes import repeat
                return repeat(o, self)
            return NotImplemented
        return mk_int(self.t * x)
    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if S.branch(self.t >= 0) else -self

    def _divisor(self, o):
        x = self._o(o)
        if x is None:
            return None
        x = norm(x)
        if not isinstance(x, int):
            raise Unsupported('division by a symbolic value')
        if x == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if x < 0:
            raise Unsupported('division by a negative value')
        return x

    def __floordiv__(self, o):
        x = self._divisor(o)
        return NotImplemented if x is None else mk_int(self.t / x)

    def __mod__(self, o):
        x = self._divisor(o)
        return NotImplemented if x is None else mk_int(self.t % x)

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        raise Unsupported('division by a symbolic value')
    __rmod__ = __rfloordiv__

    def __truediv__(self, o):
        raise Unsupported('float division of a symbolic value')
    __rtruediv__ = __truediv__

    def __lshift__(self, o):
        if isinstance(o, int):
            if o < 0:
                raise ValueError('negative shift count')
            return mk_int(self.t * (1 << o))
        if isinstance(o, SInt):
            return self << o.__index__()
        return NotImplemented

    def __rshift__(self, o):
        if isinstance(o, int):
            if o < 0:
                raise ValueError('negative shift count')
            return mk_int(self.t / (1 << o))
        if isinstance(o, SInt):
            return self >> o.__index__()
        return NotImplemented

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if isinstance(o, SBool):
            o = SInt(term(o))
        if isinstance(o, SInt):
            return self._bitop(o, 'and')
        if isinstance(o, int):
            m = int(o)
            if m < 0:
                return self - (self & ~m)
            # sum over maximal runs of one-bits
            out = z3.IntVal(0)
            k = 0
            while (m >> k):
                if not (m >> k) & 1:
                    k += 1
                    continue
                e = k
                while (m >> e) & 1:
                    e += 1
                out = out + ((self.t / (1 << k)) % (1 << (e - k))) * (1 << k)
                k = e
            return mk_int(out)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and o >= 0 or isinstance(o, SInt):
            return self + o - (self & o)
        return NotImplemented if not isinstance(o, int) else (_ for _ in ()).throw(Unsupported('or'))
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int) and o >= 0 or isinstance(o, SInt):
            return self + o - 2 * (self & o)
        return NotImplemented if not isinstance(o, int) else (_ for _ in ()).throw(Unsupported('xor'))
    __rxor__ = __xor__

    def __invert__(self):
        return mk_int(-self.t - 1)

    def _bitop(self, o, kind):
        for w in (8, 32, 64):
            if S.prove(z3.And(self.t >= 0, self.t < (1 << w), o.t >= 0, o.t < (1 << w))):
                return mk_int(z3.BV2Int(z3.Int2BV(self.t, w) & z3.Int2BV(o.t, w)))
        raise Unsupported('bitwise operation on unbounded values')

    def __pow__(self, o, m=None):
        if isinstance(o, int) and m is None and 0 <= o < 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('power')

    def __rpow__(self, o):
        return o ** self.__index__()

    def __eq__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mk_bool(self.t == x)

    def __ne__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mk_bool(self.t != x)

    def __lt__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mk_bool(self.t < x)

    def __le__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mk_bool(self.t <= x)

    def __gt__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mk_bool(self.t > x)

    def __ge__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mk_bool(self.t >= x)

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return S.branch(self.t != 0)

    def __index__(self):
        return enum_value(self.t)
    __int__ = __index__

    def __float__(self):
        raise Unsupported('float of a symbolic value')

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return 'SInt(%s)' % self.t
    __str__ = __repr__

    def bit_length(self):
        raise Unsupported('bit_length')

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .ropes import int_to_bytes
        return int_to_bytes(self, length, byteorder, signed)


def enum_value(t, limit=24):
    """Fork over the possible values of t (few) and return the concrete one."""
    t = norm(t)
    if isinstance(t, int):
        return t
    for _ in range(limit):
        ev = S._event('v')
        if ev is None:
            if S.solver.check() != z3.sat:
                raise PathEnd('infeasible')
            S.stats['queries'] += 1
            v = S.solver.model().eval(t, model_completion=True)
            ev = S._record(v.as_long(), False, 'v')
        if S.branch(t == ev.val):
            return ev.val
    raise Unsupported('a symbolic integer with many values is used where a concrete one is needed')


class SBool:
    __slots__ = ('b',)
    _pv_symbolic = True

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return S.branch(self.b)

    def _n(self):
        return SInt(term(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(self.b == zb(o))
        if isinstance(o, (int, SInt)):
            return self._n() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_bool(z3.Not(zb(r)))

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(z3.And(self.b, zb(o)))
        return self._n() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(z3.Or(self.b, zb(o)))
        return self._n() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(z3.Xor(self.b, zb(o)))
        return self._n() ^ o
    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __lshift__(self, o):
        return self._n() << o

    def __rshift__(self, o):
        return self._n() >> o

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def __neg__(self):
        return -self._n()

    def __invert__(self):
        return ~self._n()

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return 'SBool(%s)' % self.b
    __str__ = __repr__


def s_not(v):
    if isinstance(v, SBool):
        return mk_bool(z3.Not(v.b))
    return not v


def is_symbolic(v):
    return getattr(type(v), '_pv_symbolic', False)

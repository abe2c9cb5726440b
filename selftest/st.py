"""Self-test of the verifier: small programs with true and with false specifications.

true_*  must be proved (and never fail when run);   false_*  must never be proved (and do fail when run).
The prefix open_* marks true specifications the verifier is allowed to leave undecided.
"""
import itertools
import struct
from collections import deque
from pv.spec import contract

T, F = contract('T'), contract('F')


# ---- loops over lists ---------------------------------------------------------------------------
def total(msgs):
    n = 0
    for m in msgs:
        n += len(m)
    return n


@T
def true_sum(env):
    ms = env.bytes_list('ms')
    env.check('sum', total(ms) == env.sum_map(ms, lambda m: len(m)))


@F
def false_sum(env):
    ms = env.bytes_list('ms')
    env.check('sum', total(ms) == env.sum_map(ms, lambda m: len(m)) + (1 if len(ms) == 3 else 0))


def frames(msgs):
    out = bytearray()
    for m in msgs:
        out += struct.pack('<I', len(m)) + m
    return bytes(out)


@T
def true_frames(env):
    ms = env.bytes_list('ms', item_hi=1000)
    env.check('frames', frames(ms) == env.concat_map(ms, lambda m: len(m).to_bytes(4, 'little') + m))


@F
def false_frames(env):
    ms = env.bytes_list('ms', item_hi=1000)
    env.check('frames', frames(ms) == env.concat_map(ms, lambda m: len(m).to_bytes(4, 'big') + m))


@F
def false_frames_order(env):
    ms = env.bytes_list('ms', item_hi=1000)
    env.check('frames', frames(ms) == env.concat_map(ms, lambda m: m + len(m).to_bytes(4, 'little')))


def skip_empty(msgs):
    out = []
    for m in msgs:
        if m:
            out.append(m)
    return out


@F
def false_skip(env):
    ms = env.bytes_list('ms')
    env.check('all kept', len(skip_empty(ms)) == len(ms))


def last_of(msgs):
    r = b''
    for m in msgs:
        r = m
    return r


@T
def true_last(env):
    ms = env.bytes_list('ms', lo=1)
    env.check('last', last_of(ms) == ms[len(ms) - 1])


@F
def false_last(env):
    ms = env.bytes_list('ms', lo=1)
    env.check('last', last_of(ms) == ms[0])


def has_long(msgs, k):
    for m in msgs:
        if len(m) > k:
            return True
    return False


@T
def true_any(env):
    ms = env.bytes_list('ms')
    if not has_long(ms, 3):
        env.forall('short', ms, lambda i, m: len(m) <= 3)


@F
def false_any(env):
    ms = env.bytes_list('ms')
    if not has_long(ms, 3):
        env.forall('short', ms, lambda i, m: len(m) <= 2)


@F
def false_any2(env):
    ms = env.bytes_list('ms')
    if has_long(ms, 3):
        env.forall('long', ms, lambda i, m: len(m) > 3)


@T
def true_any_comp(env):
    ms = env.bytes_list('ms')
    r = any(len(m) > 3 for m in ms)
    env.check('same', r == has_long(ms, 3))


@F
def false_all_comp(env):
    ms = env.bytes_list('ms')
    r = all(len(m) > 3 for m in ms)
    env.check('same', r == has_long(ms, 3))


# ---- index of the last --------------------------------------------------------------------------
def flags(msgs, is_last):
    out = []
    for i, m in enumerate(msgs):
        out.append((m, is_last and i == len(msgs) - 1))
    return out


@T
def true_flags(env):
    ms = env.bytes_list('ms', lo=1)
    fl = env.bool('last')
    out = flags(ms, fl)
    env.check('length', len(out) == len(ms))
    env.forall('flag', out, lambda i, x: x[1] == (fl and i == len(ms) - 1))


@F
def false_flags(env):
    ms = env.bytes_list('ms', lo=1)
    fl = env.bool('last')
    out = flags(ms, fl)
    env.forall('flag', out, lambda i, x: x[1] == (fl and i == 0))


@F
def false_flags2(env):
    ms = env.bytes_list('ms', lo=1)
    fl = env.bool('last')
    out = flags(ms, fl)
    env.forall('flag', out, lambda i, x: x[1] == (i == len(ms) - 1))


# ---- while loops --------------------------------------------------------------------------------
def count_down(n):
    k = 0
    while n > 0:
        n -= 3
        k += 1
    return k, n


@T
def true_count(env):
    n = env.int('n', 0, 1000000)
    k, r = count_down(n)
    env.check('count', k * 3 == n - r)
    env.check('rest', -3 < r <= 0)


@F
def false_count(env):
    n = env.int('n', 0, 1000000)
    k, r = count_down(n)
    env.check('rest', -2 < r <= 0)


def alternate(n):
    a, b = 0, 1
    for i in range(n):
        a, b = b, a
    return a


@F
def false_alternate(env):
    n = env.int('n', 0, 1000)
    env.check('zero', alternate(n) == 0)


@F
def false_alternate2(env):
    n = env.int('n', 0, 1000)
    env.check('one', alternate(n) == 1)


def parse(data):
    out = []
    off = 0
    while off < len(data):
        n = data[off]
        if off + 1 + n > len(data):
            raise ValueError
        out.append(data[off + 1:off + 1 + n])
        off += 1 + n
    return out


@T
def true_parse(env):
    d = env.bytes('d')
    r = env.call(parse, d)
    if r.ok:
        env.check('bytes', env.concat_map(r.value, lambda m: len(m).to_bytes(1, 'little') + m) == d)
    else:
        env.check('error', r.raised(ValueError))


@F
def false_parse(env):
    d = env.bytes('d')
    r = env.call(parse, d)
    env.check('never fails', r.ok)


@F
def false_parse2(env):
    d = env.bytes('d')
    r = env.call(parse, d)
    if r.ok:
        env.forall('nonempty', r.value, lambda i, m: len(m) > 0)


# ---- histories ----------------------------------------------------------------------------------
class Counter:
    def __init__(self):
        self.n = 0
        self.ok = 0

    def step(self, good):
        self.n += 2
        if good:
            self.ok += 1


@T
def true_history(env):
    c = Counter()
    for i in env.times('steps'):
        c.step(env.bool('good'))
    env.check('parity', c.n % 2 == 0)
    env.check('bound', c.ok * 2 <= c.n)


@F
def false_history(env):
    c = Counter()
    for i in env.times('steps'):
        c.step(env.bool('good'))
    env.check('all good', c.ok * 2 == c.n)


@F
def false_history2(env):
    c = Counter()
    for i in env.times('steps'):
        c.step(env.bool('good'))
    env.check('never three', c.n != 6)


@F
def false_choice3(env):
    x = env.choice('x', [1, 2, 3])
    env.check('not the third', x != 3)


@F
def false_choice3_loop(env):
    s = 0
    for i in env.times('steps'):
        s += env.choice('x', [0, 2, 1])
    env.check('even', s % 2 == 0)


@F
def false_choice_loop_nested(env):
    s = 0
    for i in env.times('steps'):
        if env.bool('b'):
            if env.choice('x', [0, 1, 2]) == 2:
                s = 7
    env.check('zero', s == 0)


class Queue:
    def __init__(self):
        self.q = deque()

    def put(self, xs):
        self.q.extend(xs[1:])
        return xs[0]

    def get(self):
        return self.q.popleft() if self.q else None


@T
def true_queue(env):
    q = Queue()
    ms = env.bytes_list('ms', lo=1)
    env.check('first', q.put(ms) == ms[0])
    out = [ms[0]]
    while q.q:
        out.append(q.get())
    env.forall_pairs('same', out, ms, lambda i, a, b: a == b)


@F
def false_queue(env):
    q = Queue()
    ms = env.bytes_list('ms', lo=1)
    q.put(ms)
    out = []
    while q.q:
        out.append(q.get())
    env.check('all', len(out) == len(ms))


# ---- exceptions, finally, state after a failure ----------------------------------------------------------
def guarded(xs, k):
    n = 0
    try:
        for x in xs:
            if len(x) == k:
                raise KeyError(n)
            n += 1
    except KeyError:
        n = -1
    finally:
        n = n * 2
    return n


@T
def true_guarded(env):
    ms = env.bytes_list('ms')
    r = guarded(ms, 5)
    env.check('either', r == -2 or r == 2 * len(ms))


@F
def false_guarded(env):
    ms = env.bytes_list('ms')
    env.check('always', guarded(ms, 5) == 2 * len(ms))


@F
def false_guarded2(env):
    ms = env.bytes_list('ms', lo=1)
    env.check('never', guarded(ms, 5) == -2)


def brk(xs):
    i = 0
    for x in xs:
        if x == b'':
            break
        i += 1
    else:
        return -1
    return i


@T
def true_break(env):
    ms = env.bytes_list('ms')
    r = brk(ms)
    if r >= 0:
        env.check('empty one', ms[r] == b'')
    else:
        env.forall('none', ms, lambda i, m: m != b'')


@F
def false_break(env):
    ms = env.bytes_list('ms')
    env.check('none', brk(ms) == -1)


@F
def false_break2(env):
    ms = env.bytes_list('ms', lo=2)
    env.check('not the second', brk(ms) != 1)


# ---- machine integers and bytes ---------------------------------------------------------------------------------
@T
def true_struct(env):
    n = env.int('n', -2**31, 2**31 - 1)
    env.check('roundtrip', struct.unpack('<i', struct.pack('<i', n))[0] == n)


@F
def false_struct(env):
    n = env.int('n', -2**31, 2**31 - 1)
    env.check('roundtrip', struct.unpack('<I', struct.pack('<i', n))[0] == n)


@F
def false_struct2(env):
    n = env.int('n', 0, 2**31)
    r = env.call(struct.pack, '<i', n)
    env.check('fits', r.ok)


@F
def false_bytes(env):
    a, b = env.bytes('a', 4), env.bytes('b', 4)
    env.check('concat', a + b == b + a)


@T
def true_slice(env):
    a = env.bytes('a')
    k = env.int('k', 0, 1000)
    env.check('split', a[:k] + a[k:] == a)
    env.check('length', len(a[:k]) == (k if k < len(a) else len(a)))


@F
def false_slice(env):
    a = env.bytes('a')
    k = env.int('k', 0, 10)
    env.check('length', len(a[:k]) == k)


@T
def true_slice_neg(env):
    a = env.bytes('a', lo=3)
    env.check('tail', a[:-2] + a[-2:] == a)
    env.check('len', len(a[-2:]) == 2)


@F
def false_slice_neg(env):
    a = env.bytes('a')
    env.check('len', len(a[-2:]) == 2)


@T
def true_divmod(env):
    n = env.int('n', -1000, 1000)
    q, r = divmod(n, 7)
    env.check('divmod', q * 7 + r == n and 0 <= r < 7)
    env.check('and', n & 127 == n % 128)


@F
def false_shift(env):
    n = env.int('n', 0, 65535)
    env.check('shift', (n << 8) & 65535 == (n * 256))


# ---- aliasing ----------------------------------------------------------------------------------------------------
@F
def false_alias(env):
    a = [1]
    b = a
    for i in env.times('n'):
        b.append(2)
    env.check('unchanged', len(a) == 1)


@F
def false_alias_obj(env):
    c = Counter()
    d = c
    for i in env.times('n'):
        d.step(True)
    env.check('unchanged', c.n == 0)


@F
def false_bytearray(env):
    x = bytearray(b'ab')
    y = x
    for i in env.times('n'):
        y.extend(b'c')
    env.check('unchanged', len(x) == 2)


class Shared:
    pool = []

    def __init__(self):
        self.mine = Shared.pool


@F
def false_class_state(env):
    a, b = Shared(), Shared()
    n0 = len(b.mine)
    a.mine.append(1)
    env.check('separate', len(b.mine) == n0)


@F
def false_default_arg(env):
    def f(x, acc=[]):
        acc.append(x)
        return len(acc)
    f(1)
    env.check('fresh', f(2) == 1)


@F
def false_closure(env):
    n = 0

    def inc():
        nonlocal n
        n += 1
    for i in env.times('n'):
        inc()
    env.check('zero', n == 0)


# ---- nested loops -----------------------------------------------------------------------------------------------
def nested(msgs, k):
    n = 0
    for m in msgs:
        for i in range(k):
            n += len(m)
    return n


@T
def open_nested(env):
    ms = env.bytes_list('ms')
    env.check('sum', nested(ms, 3) == 3 * env.sum_map(ms, lambda m: len(m)))


@F
def false_nested(env):
    ms = env.bytes_list('ms')
    env.check('sum', nested(ms, 3) == 2 * env.sum_map(ms, lambda m: len(m)))


class Tally:
    def __init__(self):
        self.n = 0
        self.seen = []
        self.raw = bytearray()


def fill(t, msgs):
    for m in msgs:
        t.n = t.n + 1
        t.seen.append(m)
        t.raw.extend(m)


@F
def false_nested_attr(env):
    """What an inner loop does to an object is done by the loop around it."""
    t = Tally()
    ms = env.bytes_list('ms')
    for i in env.times('steps'):
        fill(t, ms)
    env.check('zero', t.n == 0)


@F
def false_nested_list(env):
    t = Tally()
    ms = env.bytes_list('ms')
    for i in env.times('steps'):
        fill(t, ms)
    env.check('empty', len(t.seen) == 0)


@F
def false_nested_bytes(env):
    t = Tally()
    ms = env.bytes_list('ms')
    for i in env.times('steps'):
        fill(t, ms)
    env.check('empty', len(t.raw) == 0)


@F
def false_nested_while(env):
    t = Tally()
    for i in env.times('steps'):
        k = env.int('k', 0, 100)
        while t.n < k:
            t.n = t.n + 1
    env.check('zero', t.n == 0)


@F
def false_nested_twice(env):
    """Three loops deep."""
    t = Tally()
    ms = env.bytes_list('ms')
    for i in env.times('steps'):
        for j in env.times('more'):
            fill(t, ms)
    env.check('zero', t.n == 0)


@T
def open_nested_other(env):
    t, u = Tally(), Tally()
    ms = env.bytes_list('ms')
    for i in env.times('steps'):
        fill(t, ms)
    env.check('the other one is untouched', u.n == 0 and len(u.seen) == 0 and len(u.raw) == 0)


# ---- scheduling --------------------------------------------------------------------------------------------------
class Cell:
    def __init__(self):
        self.v = 0


@F
def false_lost_update(env):
    c = Cell()

    async def inc():
        t = c.v
        await env.pause()
        c.v = t + 1
    env.interleave([inc(), inc()])
    env.check('two', c.v == 2)


@T
def true_update(env):
    c = Cell()

    async def inc():
        c.v = c.v + 1
        await env.pause()
    env.interleave([inc(), inc(), inc()])
    env.check('three', c.v == 3)


@F
def false_loop_pause(env):
    c = Cell()
    n = env.int('n', 0, 5)

    async def a():
        for i in range(n):
            c.v = i + 1
            await env.pause()

    async def b():
        env.check('zero', c.v < 2)
    env.interleave([a(), b()])
    env.check('n', c.v == n)


@F
def false_silent_steps(env):
    """a coroutine that only moves on between two suspensions"""
    c = Cell()

    async def a():
        await env.pause()
        await env.pause()
        c.v = 1

    async def b():
        await env.pause()
        await env.pause()
        env.check('still zero', c.v == 0)
    env.interleave([a(), b()])


@T
def true_wait(env):
    c = Cell()

    async def a():
        await env.pause()
        c.v = 1

    async def b():
        await env.wait(lambda: c.v == 1)
        return c.v
    r = env.interleave([b(), a()])
    env.check('one', r[0].ok and r[0].value == 1)


@T
def true_deadlock(env):
    c = Cell()

    async def b():
        await env.wait(lambda: c.v == 1)
    r = env.interleave([b()])
    env.check('waits', r[0] is None)


@T
def true_any_bytes(env):
    b = env.bytes('b')
    if any(b):
        env.check('some', len(b) > 0)
    else:
        i = env.int('i', 0, len(b) - 1) if len(b) else None
        if i is not None:
            env.check('zero', b[i] == 0)


@F
def false_any_bytes(env):
    b = env.bytes('b')
    if not any(b):
        env.check('empty', len(b) == 0)


@T
def true_all_bytes(env):
    b = env.bytes('b')
    if all(b) and len(b) > 3:
        env.check('third', b[3] != 0)


@F
def false_all_bytes(env):
    b = env.bytes('b')
    if len(b) > 3 and all(b[:3]):
        env.check('third', b[3] != 0)


import re


@T
def true_regex(env):
    b = env.bytes('b', 6)
    m = re.compile(rb'(ab|[0-9]{2})*x?').fullmatch(b)
    if m:
        env.check('x only at the end', b[0] != 120 and b[3] != 120)
        env.check('pairs', b[0] == 97 and b[1] == 98 or 48 <= b[0] <= 57 and 48 <= b[1] <= 57)
    if re.compile(rb'\x00{6}|a.*').match(b):
        env.check('zeros or a', b == bytes(6) or b[0] == 97)
    else:
        env.check('neither', b != bytes(6) and b[0] != 97)
    if not re.search(rb'[^a-z]', b):
        env.check('letters', b[2] >= 97 and b[5] <= 122)


@F
def false_regex(env):
    b = env.bytes('b', 6, hint=lambda: env.rng.choice([b'abab12', b'abcd\nx']))
    if re.compile(rb'(ab|[0-9]{2})*x?').fullmatch(b):
        env.check('digits', b[0] != 97)


@F
def false_regex_end(env):
    b = env.bytes('b', 6, hint=lambda: env.rng.choice([b'abab12', b'abcd\nx']))
    if re.match(rb'[a-e]{4}f?$', b[:5]):
        env.check('letters', b[4] != 10)


@T
def true_view(env):
    x = env.bytes('x', 4, 9)
    buf = bytearray(len(x) + 4)
    view = memoryview(buf)
    view[2:2 + len(x)] = x
    env.check('written through', bytes(buf) == bytes(2) + x + bytes(2))
    buf[0:2] = b'ab'
    env.check('read through', bytes(view[:4]) == b'ab' + x[:2])
    env.check('a view is not a copy', bytes(view[2:][:len(x)]) == x)


@F
def false_view(env):
    buf = bytearray(4)
    view = memoryview(buf)
    view[1:3] = env.bytes('x', 2, 2)
    env.check('no write through', bytes(buf) == bytes(4))


@F
def false_view_stale(env):
    buf = bytearray(4)
    view = memoryview(buf)[1:]
    buf[1:3] = env.bytes('x', 2, 2)
    env.check('stale view', bytes(view) == bytes(3))


@T
def true_iter_sentinel(env):
    left = [env.bytes('a', lo=1, hi=3), env.bytes('b', hi=3), env.bytes('c', hi=3), b'']
    got = []
    for m in iter(lambda: left.pop(0), b''):
        got.append(m)
    env.check('first', got[0] != b'')
    env.check('no empty one', all(m != b'' for m in got))
    env.check('rest', len(got) + len(left) in (2, 3))


@F
def false_iter_sentinel(env):
    left = [env.bytes('b', hi=3), b'']
    got = []
    for m in iter(lambda: left.pop(0), b''):
        got.append(m)
    env.check('taken', len(got) == 1)


@T
def true_map_filter(env):
    a = env.bytes_list('a', item_hi=5)
    env.check('sum of lengths', sum(map(len, a)) == sum(len(x) for x in a))
    env.check('joined', b''.join(map(bytes, a)) == b''.join(a))


@T
def open_filter(env):
    a = env.bytes_list('a', item_hi=5)
    env.check('filtered', all(x != b'' for x in filter(None, a)))


@F
def false_map(env):
    a = env.bytes_list('a', item_hi=5)
    env.check('count', sum(map(len, a)) == len(a))


@T
def true_next(env):
    a = env.bytes_list('a', item_hi=5)
    x = next((m for m in a if len(m) == 3), None)
    env.check('found', x is None or len(x) == 3)


@F
def false_next(env):
    a = env.bytes_list('a', item_hi=2)
    x = next((m for m in a if len(m) == 1), None)
    env.check('never found', x is None)


@T
def true_strip_exact(env):
    x = env.bytes('x', 6)
    y = x.rstrip(b'\x00')
    env.check('only zeros taken off', y + bytes(6 - len(y)) == x)
    env.check('all of them', not y or y[-1] != 0)
    z = x.lstrip(b'ab')
    env.check('tail', x.endswith(z))
    env.check('first', not z or z[0] not in b'ab')
    if x[0] == 99:
        env.check('nothing taken off', z == x)


@F
def false_strip_exact(env):
    x = env.bytes('x', 4, hint=lambda: env.rng.choice([b'ab\x00\x00', b'ab\x00c']))
    env.check('a zero', len(x.rstrip(b'\x00')) >= 3)


# ---- iterators with a position, starred targets, zip of unlike lists -------------------------------------
class Steps:
    def __init__(self, start):
        self.steps = itertools.count(start, 2)
        self.value = next(self.steps)

    def advance(self):
        self.value = next(self.steps)


@T
def true_count(env):
    s = Steps(1)
    a = env.bytes_list('a', item_hi=3)
    for x in a:
        s.advance()
    env.check('value', s.value == 1 + 2 * len(a))


@F
def false_count(env):
    s = Steps(1)
    a = env.bytes_list('a', item_hi=3)
    for x in a:
        s.advance()
    env.check('value', s.value == (3 if len(a) else 1))


@F
def false_local_count(env):
    c = itertools.count(1)
    n = 0
    for x in env.bytes_list('a', item_hi=3):
        n = next(c)
    env.check('value', n <= 1)


@F
def false_local_iter(env):
    c = iter([1, 2, 3, 4, 5, 6, 7, 8, 9] * 99)
    n = 0
    for x in env.bytes_list('a', item_hi=3):
        n = next(c)
    env.check('value', n <= 1)


@F
def false_kept_iter(env):
    class K:
        pass
    k = K()
    k.it = iter([1, 2, 3, 4, 5, 6, 7, 8, 9] * 99)
    n = 0
    for x in env.bytes_list('a', item_hi=3):
        n = next(k.it)
    env.check('value', n <= 1)


@T
def true_star(env):
    a = env.bytes_list('a', lo=1, item_hi=5)
    *head, tail = a
    first, *rest = a
    env.check('parts', len(head) == len(a) - 1 and len(rest) == len(a) - 1)
    env.check('ends', tail == a[-1] and first == a[0])
    env.check('all', b''.join(head) + tail == b''.join(a) and first + b''.join(rest) == b''.join(a))


@F
def false_star(env):
    a = env.bytes_list('a', lo=1, item_hi=5)
    *head, tail = a
    env.check('parts', len(head) == 0 or head[0] == tail)


@F
def false_star_short(env):
    a = env.bytes_list('a', item_hi=5)
    try:
        x, *y, z = a
    except ValueError:
        env.check('never', False)


@T
def true_zip_mixed(env):
    a = env.bytes_list('a', lo=1, item_hi=5)
    out = []
    for m, last in zip(a, [False] * (len(a) - 1) + [True]):
        out.append(b'1' if last else b'0')
    env.check('flags', len(out) == len(a) and out[-1] == b'1')


@F
def false_zip_mixed(env):
    a = env.bytes_list('a', lo=1, item_hi=5)
    out = []
    for m, last in zip(a, [False] * (len(a) - 1) + [True]):
        out.append(b'1' if last else b'0')
    env.check('flags', out[0] == b'1')

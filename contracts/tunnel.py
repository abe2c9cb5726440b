"""C25: the in-process and inter-process tunnels."""
from collections import deque
from pv.spec import contract
from common import *

TU = 'saltchannel.dev.tunnel'


class Endpoint(StandIn):
    """One end of multiprocessing.Pipe: whole messages, in order, of any size."""
    kind = 'connection'

    def __init__(self, env, reads, writes):
        self.env, self.reads, self.writes = env, reads, writes

    def send_bytes(self, buf, offset=0, size=None):
        if self.writes is None:
            raise OSError('connection is read-only')
        b = bytes(buf)
        if size is None:
            size = len(b) - offset
        self.writes.append(b[offset:offset + size])

    def recv_bytes(self, maxlength=None):
        if self.reads is None:
            raise OSError('connection is write-only')
        if len(self.reads) == 0:
            raise EOFError('would block')
        m = self.reads.popleft()
        if maxlength is not None and len(m) > maxlength:
            raise OSError('bad message length')
        return m

    def send(self, obj):
        self.send_bytes(obj)

    def recv(self):
        return self.recv_bytes()

    def poll(self, timeout=0.0):
        return len(self.reads) > 0

    def close(self):
        pass


def tunnel(env, kind):
    M = env.mod(TU)

    def pipe(duplex=True):
        a, b = deque(), deque()
        if duplex:
            return Endpoint(env, a, b), Endpoint(env, b, a)
        return Endpoint(env, a, None), Endpoint(env, None, a)
    if hasattr(M, 'Pipe'):
        M.Pipe = pipe
    if hasattr(M, 'multiprocessing'):
        M.multiprocessing.Pipe = pipe
    if hasattr(M, 'mp'):
        M.mp.Pipe = pipe
    return M.Tunnel() if kind == 'queues' else M.TunnelMP()


def ends(env, t):
    return (t.channel1, t.channel2) if env.bool('from_1_to_2') else (t.channel2, t.channel1)


@contract('C25', on=['Tunnel', 'TunnelMP'], samples=2)
def c25_both_ways(env):
    """Any writes at both ends, then the reads: each end gets the other's messages, unchanged, in order, once."""
    x, y = ends(env, tunnel(env, env.choice('kind', ['queues', 'pipe'])))
    ahead = env.bytes_list('ahead', 0, None)
    msgs = env.bytes_list('msgs', 1, None)
    back = env.bytes_list('back', 1, None)
    for i in range(len(ahead)):
        env.check('write of one message', env.run(x.write(ahead[i])).ok)
    env.check('write of several', env.run(x.write(*msgs, is_last=env.bool('last'))).ok)
    env.check('write at the other end', env.run(y.write(*back)).ok)
    for i in range(len(ahead)):
        out = env.run(y.read())
        env.check('earlier messages first', out.ok and out.value == ahead[i])
    for i in range(len(msgs)):
        out = env.run(y.read())
        env.check('unchanged and in order', out.ok and out.value == msgs[i])
    for i in range(len(back)):
        out = env.run(x.read())
        env.check('the other direction', out.ok and out.value == back[i])
    env.check('nothing twice', not env.run(y.read()).ok and not env.run(x.read()).ok)


@contract('C25', on=['Tunnel', 'TunnelMP'], samples=2)
def c25_interleaved(env):
    """Reads between the writes."""
    x, y = ends(env, tunnel(env, env.choice('kind', ['queues', 'pipe'])))

    def put(end, m):
        env.check('write succeeds', env.run(end.write(m)).ok)

    def take(end, m):
        out = env.run(end.read())
        env.check('the oldest message not yet read', out.ok and out.value == m)
    for _ in env.times('rounds'):
        a, b, c, d = env.bytes('a'), env.bytes('b'), env.bytes('c'), env.bytes('d')
        put(x, a)
        put(x, b)
        take(y, a)
        put(y, d)
        put(x, c)
        take(y, b)
        take(y, c)
        take(x, d)
    env.check('nothing twice', not env.run(x.read()).ok and not env.run(y.read()).ok)


@contract('C25', on=['Tunnel', 'TunnelMP'], samples=2)
def c25_two_tunnels(env):
    """Tunnels share nothing."""
    kind = env.choice('kind', ['queues', 'pipe'])
    a, b = tunnel(env, kind), tunnel(env, kind)
    x, y = ends(env, a)
    m, n = env.bytes('m'), env.bytes('n')
    env.check('write', env.run(x.write(m)).ok)
    env.check('nothing in the other tunnel', not env.run(b.channel1.read()).ok and not env.run(b.channel2.read()).ok)
    env.check('write in the other', env.run(b.channel1.write(n)).ok)
    out = env.run(y.read())
    env.check('own message', out.ok and out.value == m)
    out = env.run(b.channel2.read())
    env.check('own message of the other', out.ok and out.value == n)

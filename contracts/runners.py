"""C27: connections and the client/server pairs."""
from pv.spec import contract
from common import *
from channels import Sock, frame, lost

CS = 'saltchannel.dev.client_server'
CSA = 'saltchannel.dev.client_server_a'


# ---- asyncio: connections -----------------------------------------------------------------------------------------
class Transport(StandIn):
    kind = 'transport'

    def __init__(self, env):
        self.env = env
        self.out = b''
        self.closed = 0

    def write(self, data):
        self.out = self.out + bytes(data)

    def writelines(self, many):
        for data in many:
            self.write(data)

    def close(self):
        self.closed = self.closed + 1

    def is_closing(self):
        return self.closed != 0

    def get_extra_info(self, name, default=None):
        return default


class Future(StandIn):
    """An awaitable whose result is computed when somebody waits for it."""
    kind = 'future'

    def __init__(self, env, work):
        self.env, self.work, self.over, self.value, self.exc = env, work, False, None, None

    def done(self):
        return self.over

    def cancelled(self):
        return False

    def exception(self):
        self.env.check('asked when it is over', self.over)
        return self.exc

    def result(self):
        self.env.check('asked when it is over', self.over)
        if self.exc is not None:
            raise self.exc
        return self.value

    def finish(self):
        if not self.over:
            self.over = True
            self.value, self.exc = self.work()

    def __await__(self):
        self.finish()
        if self.exc is not None:
            raise self.exc
        return self.value
        yield


class EventLoop(StandIn):
    """An event loop: connections and servers as asked for; tasks and jobs that are run later."""
    kind = 'event loop'

    def __init__(self, env, running=None):
        self.env = env
        self.running = [] if running is None else running       # loops running in this process, innermost last
        self.asked = []         # (host, port, options) of connections and servers
        self.made = []          # (transport, protocol)
        self.factory = None
        self.tasks = []
        self.jobs = []
        self.closed = 0

    def get_debug(self):
        return False

    def create_future(self):
        return self.env.loop.create_future()

    async def create_connection(self, factory, host=None, port=None, **options):
        t = Transport(self.env)
        p = factory()
        self.asked.append((host, port, options))
        self.made.append((t, p))
        p.connection_made(t)
        return t, p

    async def create_server(self, factory, host=None, port=None, **options):
        self.asked.append((host, port, options))
        self.factory = factory
        self.server = Server(self.env)
        return self.server

    def accept(self):
        t = Transport(self.env)
        p = self.factory()
        p.connection_made(t)
        return t, p

    def create_task(self, c, **k):
        self.tasks.append(c)
        return Future(self.env, lambda: finish(self.env, c))

    def call_soon(self, callback, *args, **k):
        callback(*args)

    def run_in_executor(self, executor, fn, *args):
        f = Future(self.env, lambda: finish_call(self.env, fn, args))
        self.jobs.append(f)
        return f

    def run_until_complete(self, c):
        self.running.append(self)
        v, e = finish(self.env, c)
        self.running.pop()
        if e is not None:
            raise e
        return v

    def is_running(self):
        return False

    def is_closed(self):
        return True

    def close(self):
        self.closed = self.closed + 1


class Server(StandIn):
    kind = 'server'

    def __init__(self, env):
        self.env = env
        self.closed = self.waited = 0
        self.sockets = [self]

    def getsockname(self):
        return ('127.0.0.1', 8888)

    def close(self):
        self.closed = self.closed + 1

    async def wait_closed(self):
        self.env.check('closed before waiting for the end', self.closed > 0)
        self.waited = self.waited + 1


def finish_call(env, fn, args, kwargs={}):
    out = env.call(fn, *args, **kwargs)
    return (out.value, None) if out.ok else (None, out.exc)


def finish(env, c):
    """Run a coroutine that waits for nothing -> (result, exception)."""
    out = env.drive(c)
    return (out.value, None) if out.ok else (None, out.exc)


def talk(env, reader, writer, transport, protocol, name, split=True):
    """reader and writer are the two directions of this connection"""
    before = transport.out
    m = env.bytes(name + '_out', hi=70000)
    writer.write_msg(m)
    env.check('messages written go to the own connection', transport.out == before + frame(m))
    a = env.bytes(name + '_in', hi=70000)
    data = frame(a)
    cut = env.int(name + '_cut', 0, len(data)) if split else 2
    protocol.data_received(data[:cut])
    protocol.data_received(data[cut:])
    got, e = finish(env, reader.read_msg())
    env.check('a message received is read', e is None)
    env.check('messages read come from the own connection', got == a)


@contract('C27', on=['open_saltchannel_connection', 'SaltChannelStreamReaderProtocol.connection_made', 'SaltChannelStreamReaderProtocol.data_received'])
def c27_connect(env):
    A = env.mod(CSA)
    loop = EventLoop(env)
    first = finish(env, A.open_saltchannel_connection('host', 4711, loop=loop, ssl=7))
    second = finish(env, A.open_saltchannel_connection('other', 4712, loop=loop))
    env.check('connected', first[1] is None and second[1] is None)
    env.check('to the given place', loop.asked == [('host', 4711, {'ssl': 7}), ('other', 4712, {})])
    (r1, w1), (r2, w2) = first[0], second[0]
    (t1, p1), (t2, p2) = loop.made
    talk(env, r1, w1, t1, p1, 'one')
    talk(env, r2, w2, t2, p2, 'two', False)
    talk(env, r1, w1, t1, p1, 'three', False)
    env.check('nothing closed', t1.closed == 0 and t2.closed == 0)


@contract('C27', on=['start_saltchannel_server', 'SaltChannelStreamReaderProtocol.connection_made', 'SaltChannelStreamReaderProtocol.data_received'])
def c27_server(env):
    A = env.mod(CSA)
    loop = EventLoop(env)
    seen = []
    plain = env.bool('callback_is_no_coroutine')

    async def session(reader, writer):
        seen.append((reader, writer))

    def callback(reader, writer):
        seen.append((reader, writer))
    server, e = finish(env, A.start_saltchannel_server(callback if plain else session, 'host', 4711, loop=loop, backlog=3))
    env.check('started', e is None and server is loop.server)
    env.check('at the given place', loop.asked == [('host', 4711, {'backlog': 3})])
    t1, p1 = loop.accept()
    t2, p2 = loop.accept()
    env.check('one session for each connection', len(seen) == 2 and loop.tasks == [] if plain else len(loop.tasks) == 2)
    for c in loop.tasks:
        env.check('the session runs', finish(env, c)[1] is None)
    env.check('each session exactly once', len(seen) == 2)
    (r1, w1), (r2, w2) = seen
    talk(env, r1, w1, t1, p1, 'one')
    talk(env, r2, w2, t2, p2, 'two', False)
    talk(env, r1, w1, t1, p1, 'three', False)
    env.check('nothing closed', t1.closed == 0 and t2.closed == 0)


# ---- asyncio: the pair ---------------------------------------------------------------------------------------------
class Executor(StandIn):
    kind = 'executor'

    def __init__(self, env, *a, **k):
        self.env, self.jobs = env, []

    def submit(self, fn, *args, **kwargs):
        f = Job(self.env, lambda: finish_call(self.env, fn, args, kwargs))
        self.jobs.append(f)
        return f

    def map(self, fn, *many):
        return [f.result() for f in [self.submit(fn, *args) for args in zip(*many)]]

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            self.env.outside('', 'cancelled jobs')
        for f in self.jobs:
            f.finish()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class Job(Future):
    """A future of an executor: asking for the result waits."""

    def result(self, timeout=None):
        self.finish()
        if self.exc is not None:
            raise self.exc
        return self.value

    def exception(self, timeout=None):
        self.finish()
        return self.exc


def provide_asyncio(env, loops):
    """asyncio as documented for Python 3.12; jobs run when they are waited for."""
    running = []
    main = EventLoop(env, running)

    def current():
        return running[-1] if running else main

    def ensure_future(f, *, loop=None):
        if isinstance(f, Future):
            return f
        return (loop or current()).create_task(f)

    async def wait(fs, *, timeout=None, return_when='ALL_COMPLETED'):
        fs = list(fs)
        env.check('waits for something', len(fs) != 0)
        if return_when != 'ALL_COMPLETED' or timeout is not None:
            env.outside('', 'wait for some')
        for f in fs:
            f.finish()
        return fs, []

    async def gather(*fs, return_exceptions=False):
        fs = [ensure_future(f) for f in fs]
        for f in fs:
            f.finish()
        out = []
        for f in fs:
            if f.exc is not None and not return_exceptions:
                raise f.exc
            out.append(f.value if f.exc is None else f.exc)
        return out

    def new_event_loop():
        loop = EventLoop(env, running)
        loops.append(loop)
        return loop

    def run(c, *, debug=None):
        loop = new_event_loop()
        try:
            return loop.run_until_complete(c)
        finally:
            loop.close()

    def executor(max_workers=None, *a, **k):
        env.check('an executor has workers', max_workers is None or max_workers > 0)
        return Executor(env)

    def other(name):
        return lambda *a, **k: env.outside('', name)
    env.provide('asyncio', **{n: other(n) for n in ('Runner', 'TaskGroup', 'as_completed', 'wait_for', 'shield', 'to_thread', 'timeout', 'run_coroutine_threadsafe')})
    env.provide('asyncio', run=run, get_running_loop=current, wrap_future=lambda f, *, loop=None: f, ensure_future=ensure_future, create_task=ensure_future, wait=wait, gather=gather, ALL_COMPLETED='ALL_COMPLETED', new_event_loop=new_event_loop,
                set_event_loop=lambda loop: None, get_event_loop=current)
    env.provide('asyncio.events', new_event_loop=new_event_loop, set_event_loop=lambda loop: None, get_event_loop=current)
    env.provide('concurrent.futures', ProcessPoolExecutor=executor, ThreadPoolExecutor=executor)
    return main


@contract('C27', on=['ClientServerPairA.run_sessions', 'ClientServerPairA.spawn_clients_and_wait', 'ClientServerPairA._spawn_client_process', 'ClientServerPairA._client_session_wrap',
                     'ClientServerPairA.start_server', 'ClientServerPairA.stop_server'], bound='1 to 3 client sessions')
def c27_async_pair(env):
    loops = []
    main = provide_asyncio(env, loops)
    A = env.mod(CSA)
    n = env.choice('clients', [1, 2, 3])
    fails = [env.bool('fails') for _ in range(n)]
    ran, served = [], []

    class Session(A.SessionA):
        async def server_session(self, reader, writer):
            served.append((reader, writer))

        async def client_session(self, reader, writer):
            k = len(ran)
            ran.append((reader, writer))
            if fails[k]:
                raise ValueError('session %d' % k)
    pair = A.ClientServerPairA(Session(), client_num=n)
    env.check('starts', env.call(pair.start_server).ok)
    env.check('one server', main.asked == [('127.0.0.1', 8888, {})] and main.factory is not None)
    t, p = main.accept()
    env.check('a connection is served', len(main.tasks) == 1 and finish(env, main.tasks[0])[1] is None and len(served) == 1)
    talk(env, served[0][0], served[0][1], t, p, 'served', False)
    out = env.call(pair.run_sessions)
    env.check('every client session ran once', len(ran) == n)
    env.check('failures are reported', out.ok if not any(fails) else out.raised(ValueError))
    env.check('each on a connection of its own to the server', len(loops) == n and all(x.asked == [('127.0.0.1', 8888, {})] for x in loops))
    for k in range(n):
        talk(env, ran[k][0], ran[k][1], loops[k].made[0][0], loops[k].made[0][1], 'client', False)
    env.check('the server is still up', main.closed == 0 and main.server.closed == 0)
    env.check('stops', env.call(pair.stop_server).ok)
    env.check('server and loop closed', main.server.closed == 1 and main.server.waited == 1 and main.closed == 1)


# ---- threads and sockets: the pair ----------------------------------------------------------------------------------
class Connection(Sock):
    """A client socket."""

    def __init__(self, world, *a, **k):
        self.world = world
        Sock.__init__(self, world.env, b'')
        self.peer = None
        self.closed = 0
        self.used = False
        world.connections.append(self)

    def connect(self, address):
        if self.world.refuses:
            raise ConnectionRefusedError('refused')
        self.peer = address

    def close(self):
        self.closed = self.closed + 1
        Sock.close(self)

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class TcpServer(StandIn):
    """socketserver.TCPServer: a handler object for each connection."""
    kind = 'TCP server'
    allow_reuse_address = False
    daemon_threads = False

    def __init__(self, address, handler, bind_and_activate=True):
        w = TcpServer.world
        w.env.check('one server at a time', w.server is None)
        w.server = self
        self.env, self.handler, self.asked = w.env, handler, address
        self.server_address = ('127.0.0.1', 4711)
        self.serving = self.stopped = self.closed = False

    def serve_forever(self, poll_interval=0.5):
        self.serving = True

    def shutdown(self):
        self.stopped = True

    def server_close(self):
        self.closed = True


class Handler:
    def __init__(self, request, client_address, server):
        self.request, self.client_address, self.server = request, client_address, server
        self.setup()
        try:
            self.handle()
        finally:
            self.finish()

    def setup(self):
        pass

    def handle(self):
        pass

    def finish(self):
        pass


class Thread(StandIn):
    """A thread: what it does happens at some time after start() and before join() returns."""
    kind = 'thread'

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        w = Thread.world
        self.env, self.target, self.args, self.kwargs, self.daemon = w.env, target, args, kwargs or {}, daemon
        self.name = name
        self.state = 'new'
        w.threads.append(self)

    def run(self):
        self.target(*self.args, **self.kwargs)

    def start(self):
        self.env.check('started once', self.state == 'new')
        self.state = 'started'
        if self.env.bool('runs_at_once'):
            self.go()

    def go(self):
        if self.state == 'started':
            self.state = 'over'
            self.env.call(self.run)         # an exception ends the thread, nobody sees it

    def join(self, timeout=None):
        self.env.check('only a started thread can be joined', self.state != 'new')
        if timeout is not None:
            self.env.outside('', 'join with a timeout')
        self.go()

    def is_alive(self):
        return self.state == 'started'


class World:
    """threading, socket and socketserver as documented"""

    def __init__(self, env):
        self.env = env
        self.threads, self.connections, self.slept = [], [], 0
        self.server = None
        self.refuses = False
        world = self
        TcpServer.world = Thread.world = self

        def socket(*a, **k):
            return Connection(world)

        def create_connection(address, *a, **k):
            c = Connection(world)
            try:
                c.connect(address)
            except OSError:
                c.close()
                raise
            return c

        def sleep(t):
            world.slept = world.slept + 1
        env.provide('threading', Thread=Thread)
        env.provide('socket', socket=socket, create_connection=create_connection, AF_INET=2, SOCK_STREAM=1, SOL_SOCKET=1, SO_REUSEADDR=2, SHUT_RDWR=2)
        env.provide('socketserver', TCPServer=TcpServer, ThreadingTCPServer=TcpServer, BaseRequestHandler=Handler)
        env.provide('time', sleep=sleep)
        env.provide('random', randint=lambda a, b: a, random=lambda: 0.5, uniform=lambda a, b: a)


def session_of(env, C, world, fails):
    """Client sessions write one message, server sessions answer; some fail."""
    class Session(C.Session):
        def __init__(self):
            self.clients = self.served = 0

        def client_session(self, channel):
            k = self.clients
            self.clients = k + 1
            m = env.bytes('request', hi=100)
            channel.write_sync(m)
            here = [c for c in world.connections if c.out != b'' and not c.used]
            env.check('on one connection of its own', len(here) == 1)
            here[0].used = True
            env.check('the channel is over the own connection', here[0].out == frame(m))
            env.check('connected to the server', here[0].peer == world.server.server_address)
            env.check('the connection is open', here[0].closed == 0)
            if fails[k]:
                raise (OSError if k % 2 else ValueError)('session')

        def server_session(self, channel):
            self.served = self.served + 1
            channel.write_sync(b'served')
    return Session()


@contract('C27', on=['MpClientServerPair.run_sessions', 'MpClientServerPair._run_session'], bound='0 to 3 client sessions')
def c27_sync_sessions(env):
    world = World(env)
    C = env.mod(CS)
    n = env.choice('sessions', [0, 1, 2, 3])
    fails = [env.bool('fails') for _ in range(n)]
    s = session_of(env, C, world, fails)
    pair = C.MpClientServerPair(s)
    env.check('starts', env.call(pair.start_server).ok)
    t = len(world.threads)
    jitter = env.bool('jitter')
    out = env.call(pair.run_sessions, n, jitter)
    env.check('returns whatever the sessions do', out.ok)
    env.check('every session ran exactly once', s.clients == n)
    env.check('a connection for each', len(world.connections) == n)
    env.check('all of them closed', all(c.closed > 0 for c in world.connections))
    env.check('all over when it returns', all(x.state == 'over' for x in world.threads[t:]))
    env.check('no delay unless asked for', jitter or world.slept == 0)
    env.check('the server is still up', not world.server.stopped and not world.server.closed)


@contract('C27', on=['MpClientServerPair.start_server', 'MpClientServerPair.stop_server', 'MpClientServerPair._server_handler_factory', 'MpClientServerPair._run_session'])
def c27_sync_server(env):
    world = World(env)
    C = env.mod(CS)
    s = session_of(env, C, world, [])
    pair = C.MpClientServerPair(s)
    env.check('starts', env.call(pair.start_server).ok)
    env.check('at a free port of this host', world.server.asked[0] in ('localhost', '127.0.0.1') and world.server.asked[1] == 0)
    env.check('served by a thread that does not keep the process alive', len(world.threads) == 1 and world.threads[0].daemon == True and world.threads[0].state != 'new')
    world.threads[0].go()
    env.check('serving', world.server.serving)
    env.check('alive', pair.is_alive)
    for k in range(2):
        sock = Sock(env, b'')
        out = env.call(world.server.handler, sock, ('127.0.0.1', 5), world.server)
        env.check('served once', out.ok and s.served == k + 1)
        env.check('on its own connection', sock.out == frame(b'served'))
    world.refuses = True
    env.check('a refused connection is no failure of the pair', env.call(pair.run_sessions, 1, False).ok)
    env.check('no session without a connection', s.clients == 0)
    env.check('closed', all(c.closed > 0 for c in world.connections))
    env.check('stops', env.call(pair.stop_server).ok)
    env.check('stopped and closed', world.server.stopped and world.server.closed)

"""C24: the echo sessions."""
from pv.spec import contract
from common import *

ES = 'saltchannel.dev.simple_echo_session'
ESA = 'saltchannel.dev.simple_echo_session_a'


class EchoPeer:
    """The client's side: sends any number of messages, then ends; every answer is compared with what it sent."""

    def __init__(self, env, ending):
        self.env, self.ending = env, ending
        self.sent = 0
        self.answered = 0
        self.latest = None
        self.closed = 0
        self.drained = 0

    def next(self):
        env = self.env
        env.check('every message is answered before the next is read', self.answered == self.sent)
        if env.bool('more'):
            m = env.bytes('msg', lo=1)
            self.latest = m
            self.sent = self.sent + 1
            return m
        if self.ending == 'empty':
            return b''
        raise env.mod('saltchannel.exceptions').ComException('closed')

    def answer(self, m):
        self.env.check('the message just read, unchanged', self.answered + 1 == self.sent and m == self.latest)
        self.answered = self.answered + 1


@contract('C24', covers=['ended'], on=['SimpleEchoSession.server_session'], samples=2)
def c24_blocking(env):
    p = EchoPeer(env, env.choice('ending', ['empty', 'closed']))

    e = env

    class Chan(StandIn):
        env, kind = e, 'channel'

        def read_sync(self):
            return p.next()

        def write_sync(self, msg, *args, is_last=False):
            env.check('one message per write, not marked last', len(args) == 0 and not is_last)
            p.answer(msg)
    out = env.call(env.mod(ES).SimpleEchoSession().server_session, Chan())
    env.check('ends normally', out.ok)
    env.check('all answered', p.answered == p.sent)
    env.cover('ended')


@contract('C24', covers=['ended'], on=['SimpleEchoSessionA.server_session'], samples=2)
def c24_asyncio(env):
    p = EchoPeer(env, 'empty')
    ends = env.choice('ending', ['empty', 'at_eof'])

    e = env

    class Reader(StandIn):
        env, kind = e, 'reader'

        def at_eof(self):
            return ends == 'at_eof' and env.bool('eof')

        async def read_msg(self):
            return p.next()

    e = env

    class Writer(StandIn):
        env, kind = e, 'writer'

        def get_extra_info(self, name, default=None):
            return ('127.0.0.1', 1)

        def write_msg(self, msg):
            env.check('still open', p.closed == 0)
            p.answer(msg)

        async def drain(self):
            p.drained = p.answered

        def close(self):
            p.closed = p.closed + 1
    out = env.run(env.mod(ESA).SimpleEchoSessionA().server_session(Reader(), Writer()))
    env.check('ends normally', out.ok)
    env.check('all answered', p.answered == p.sent)
    env.check('everything flushed, then closed once', p.drained == p.answered and p.closed == 1)
    env.cover('ended')


@contract('C24', on=['SimpleEchoSession.client_session'], samples=2)
def c24_client(env):
    """The echo client sends one message of six bytes, again and again, each after the answer to the one before."""
    p = EchoPeer(env, 'empty')

    e = env

    class Chan(StandIn):
        env, kind = e, 'channel'

        def __init__(self):
            self.first = None
            self.n = 0
            self.waiting = False

        def write_sync(self, msg, *args, is_last=False):
            env.check('one message at a time', not self.waiting and len(args) == 0)
            self.waiting = True
            env.check('six bytes', len(msg) == 6)
            if self.first is None:
                self.first = msg
            env.check('the same message', msg == self.first)
            self.n = self.n + 1

        def read_sync(self):
            env.check('only after sending', self.waiting)
            self.waiting = False
            return env.bytes('answer')
    ch = Chan()
    out = env.call(env.mod(ES).SimpleEchoSession().client_session, ch)
    env.check('ends normally', out.ok)
    env.check('ten messages', ch.n == 10 and not ch.waiting)


@contract('C24', on=['SimpleEchoSessionA.client_session'], samples=2)
def c24_client_asyncio(env):
    """As c24_client; then an empty message ends the session, everything is flushed and the writer closed once."""
    log = []

    e = env

    class Reader(StandIn):
        env, kind = e, 'reader'

        async def read_msg(self):
            env.check('only after sending', len(log) % 2 == 1)
            log.append('read')
            return env.bytes('answer')

    e = env

    class Writer(StandIn):
        env, kind = e, 'writer'

        first = None

        def get_extra_info(self, name, default=None):
            return ('127.0.0.1', 1)

        def write_msg(self, msg):
            env.check('one message at a time', len(log) % 2 == 0 and 'close' not in log)
            log.append('write')
            if len(log) < 21:
                env.check('six bytes', len(msg) == 6)
                if self.first is None:
                    self.first = msg
                env.check('the same message', msg == self.first)
            else:
                env.check('an empty message at the end', len(log) == 21 and len(msg) == 0)

        async def drain(self):
            if len(log) == 21:
                log.append('drain')

        def close(self):
            log.append('close')
    out = env.run(env.mod(ESA).SimpleEchoSessionA().client_session(Reader(), Writer()))
    env.check('ends normally', out.ok)
    env.check('ten messages, the end, flushed, closed', len(log) == 23 and log[21] == 'drain' and log[22] == 'close')

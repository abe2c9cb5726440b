"""Registration of contracts (shared by the symbolic and the concrete runner)."""

CONTRACTS = []


class Contract:
    def __init__(self, prop, fn, name, covers, on, raises, samples, bound):
        self.prop, self.fn, self.name = prop, fn, name
        self.covers, self.on, self.samples, self.bound = covers, on, samples, bound


def contract(prop, covers=(), on=(), samples=1.0, bound=None):
    """prop: property id; covers: labels that must be reachable (vacuity guard); on: the functions of the
    repository the contract is about; samples: weight in the concrete cross-check; bound: what the contract is
    limited to where it does not quantify over everything."""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else list(prop)):
            CONTRACTS.append(Contract(p, fn, fn.__name__, tuple(covers), tuple(on), None, samples, bound))
        return fn
    return deco


class Outcome:
    """Result of calling code under contract: a value or an exception."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None

    def raised(self, cls):
        return self.exc is not None and isinstance(self.exc, cls)

    def __repr__(self):
        return 'Outcome(%r)' % (self.value,) if self.ok else 'Outcome(raised %s: %s)' % (type(self.exc).__name__, self.exc)


def _known():
    import asyncio, concurrent.futures, logging, socket, socketserver, threading
    from multiprocessing import connection
    return {'socket': dir(socket.socket), 'channel': ['loop', 'read_sync', 'write_sync', 'read', 'write'],
            'reader': dir(asyncio.StreamReader), 'writer': dir(asyncio.StreamWriter), 'transport': dir(asyncio.Transport) + ['set_write_buffer_limits'],
            'connection': dir(connection.Connection), 'logger': dir(logging.Logger) + ['name', 'level', 'handlers', 'parent', 'propagate'], 'time': [],
            'event loop': dir(asyncio.BaseEventLoop) + dir(asyncio.AbstractEventLoop), 'server': dir(asyncio.Server), 'TCP server': dir(socketserver.TCPServer) + ['socket'],
            'thread': dir(threading.Thread), 'future': dir(asyncio.Future), 'executor': dir(concurrent.futures.Executor) + dir(concurrent.futures.ThreadPoolExecutor)}


KNOWN = _known()


def outside(kind, name):
    """Does the real thing a specification object of this kind stands for have such an attribute?  (kind '': beyond the specification in another way)"""
    return kind == '' or not name.startswith('__') and name in KNOWN[kind]

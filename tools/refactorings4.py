"""a fourth set of behaviour-preserving edits: runners, echo and example sessions, logging channel, tunnels, key pairs"""
V = 'saltchannel/v2/'
D = 'saltchannel/dev/'
EC, AC, VP, CS, SS = V + 'encrypted_channel_v2.py', V + 'app_channel_v2.py', V + 'packets.py', V + 'salt_client_session.py', V + 'salt_server_session.py'
CSS, CSA, MC, TU, ES, ESA, E3, E1 = (D + 'client_server.py', D + 'client_server_a.py', D + 'mitm_channel.py', D + 'tunnel.py', D + 'simple_echo_session.py', D + 'simple_echo_session_a.py',
                                D + 'example_session3.py', D + 'example_session1.py')
FUT = """        futures = [asyncio.ensure_future(
            loop.run_in_executor(ProcessPoolExecutor(max_workers=self.client_num+1), self._spawn_client_process))
            for x in range(self.client_num)]
        while futures:
            done, futures = await asyncio.wait(futures, return_when=asyncio.ALL_COMPLETED)
            for f in done:
                await f
"""
SPAWN = """        new_loop = asyncio.new_event_loop()
        asyncio.set_event_loop(new_loop)
        new_loop.run_until_complete(self._client_session_wrap(loop=new_loop))
        new_loop.close()
"""
RUN = """        thread_list = []
        for i in range(1, num+1):
            client_thread = threading.Thread(target=self._run_session)
            thread_list.append(client_thread)
            if jitter:
                time.sleep(0.0001*random.randint(1, 999))
            client_thread.start()

        # wait for all session threads to finish
        for x in thread_list:
            x.join()
"""
ONE = """        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            sock.connect(self.server.server_address)
            channel = SocketChannel(sock)
            self.is_session_active = True
            self.session.client_session(MitmChannel(channel, log=logging.getLogger(__name__)))

        except Exception as e:
            logging.exception(e)
        finally:
            sock.close()

        self.is_session_active = False
"""
HANDLER = """        class TCPRequestHandler(socketserver.BaseRequestHandler):

            def handle(self):
                ch = SocketChannel(self.request)
                session.server_session(ch)

        return TCPRequestHandler
"""
MADE = """            self._stream_writer = SaltChannelStreamWriter(transport, self,
                                                  self._stream_reader,
                                                  self._loop)
            res = self._client_connected_cb(self._stream_reader,
                                            self._stream_writer)
            if coroutines.iscoroutine(res):
                self._loop.create_task(res)
"""
MW = """        await self.orig.write(msg, *args, is_last=is_last)

        for m in (msg,) + args:
            self.counter_write += len(m)

        if self.log:
            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=msg))
            for m in args:
                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=m))
"""
R = {
 'r_pool_with': (CSA, [(FUT, """        with ProcessPoolExecutor(max_workers=self.client_num+1) as pool:
            jobs = []
            for _ in range(self.client_num):
                jobs.append(asyncio.ensure_future(loop.run_in_executor(pool, self._spawn_client_process)))
            if jobs:
                await asyncio.wait(jobs)
                for job in jobs:
                    await job
""")]),
 'r_async_run': (CSA, [(SPAWN, """        asyncio.run(self._client_session_wrap())
""")]),
 'r_spawn_finally': (CSA, [(SPAWN, """        new_loop = asyncio.new_event_loop()
        try:
            asyncio.set_event_loop(new_loop)
            new_loop.run_until_complete(self._client_session_wrap(loop=new_loop))
        finally:
            new_loop.close()
""")]),
 'r_wait_helper': (CSA, [(FUT, """        pending = [self._client_job(loop) for _ in range(self.client_num)]
        while pending:
            done, pending = await asyncio.wait(pending)
            for job in done:
                job.result()

    def _client_job(self, loop):
        pool = ProcessPoolExecutor(max_workers=self.client_num + 1)
        return asyncio.ensure_future(loop.run_in_executor(pool, self._spawn_client_process))
""")]),
 'r_open_or': (CSA, [("""    if loop is None:
        loop = events.get_event_loop()
    reader = SaltChannelStreamReader(limit=limit, loop=loop)
    protocol = SaltChannelStreamReaderProtocol(reader, loop=loop)
    transport, _ = await loop.create_connection(lambda: protocol, host, port, **kwds)
    writer = SaltChannelStreamWriter(transport, protocol, reader, loop)
    return reader, writer
""", """    loop = loop or events.get_event_loop()
    reader, protocol = _reader_and_protocol(None, loop, limit)

    def factory():
        return protocol

    connected = await loop.create_connection(factory, host, port, **kwds)
    return reader, SaltChannelStreamWriter(connected[0], protocol, reader, loop)
"""), ("async def open_saltchannel_connection", """def _reader_and_protocol(callback, loop, limit):
    reader = SaltChannelStreamReader(limit=limit, loop=loop)
    return reader, SaltChannelStreamReaderProtocol(reader, callback, loop=loop)

async def open_saltchannel_connection"""), ("""        reader = SaltChannelStreamReader(limit=limit, loop=loop)
        protocol = SaltChannelStreamReaderProtocol(reader, client_connected_cb,
                                        loop=loop)
        return protocol
""", """        return _reader_and_protocol(client_connected_cb, loop, limit)[1]
""")]),
 'r_made_early': (CSA, [("        if self._client_connected_cb is not None:\n" + MADE, """        if self._client_connected_cb is None:
            return
        reader, loop = self._stream_reader, self._loop
        self._stream_writer = writer = SaltChannelStreamWriter(transport, self, reader, loop)
        session = self._client_connected_cb(reader, writer)
        if asyncio.iscoroutine(session):
            loop.create_task(session)
""")]),
 'r_frame_fn': (CSA, [("        self.write(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))", "        header = struct.pack('<i', len(msg))\n        self.writelines([header, bytes(msg)])"),
                      ("""        msg_len = struct.unpack('<i', await self.readexactly(4))
        return b'' if not msg_len else await self.readexactly(msg_len[0])
""", """        header = await self.readexactly(4)
        (size,) = struct.unpack('<i', header)
        return await self.readexactly(size)
""")]),
 'r_globals': (CSA, [("""        LOOP = asyncio.get_event_loop()
        coro = start_saltchannel_server(self.session.server_session, '127.0.0.1', 8888, loop=LOOP)
        SERVER = LOOP.run_until_complete(coro)
""", """        LOOP = asyncio.get_event_loop()
        SERVER = LOOP.run_until_complete(self._listen(LOOP))
"""), ("    def run_sessions(self):", """    async def _listen(self, loop):
        server = await start_saltchannel_server(self.session.server_session, '127.0.0.1', 8888, loop=loop)
        return server

    def run_sessions(self):""")]),
 'r_run_comp': (CSS, [(RUN, """        threads = [threading.Thread(target=self._run_session) for _ in range(num)]
        for thread in threads:
            self._pause(jitter)
            thread.start()
        for thread in reversed(threads):
            thread.join()

    @staticmethod
    def _pause(jitter):
        if not jitter:
            return
        time.sleep(random.randint(1, 999) / 10000)
""")]),
 'r_run_while': (CSS, [(RUN, """        started = []
        while len(started) < num:
            if jitter:
                time.sleep(0.0001*random.randint(1, 999))
            thread = threading.Thread(target=self._run_session)
            thread.start()
            started.append(thread)
        while started:
            started.pop().join()
""")]),
 'r_one_with': (CSS, [(ONE, """        try:
            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as sock:
                sock.connect(self.server.server_address)
                self.is_session_active = True
                self.session.client_session(MitmChannel(SocketChannel(sock), log=logging.getLogger(__name__)))
        except Exception as e:
            logging.exception(e)
        self.is_session_active = False
""")]),
 'r_one_closing': (CSS, [(ONE, """        try:
            with contextlib.closing(socket.socket(socket.AF_INET, socket.SOCK_STREAM)) as sock:
                self._talk(sock)
        except Exception as e:
            logging.exception(e)
        self.is_session_active = False

    def _talk(self, sock):
        sock.connect(self.server.server_address)
        self.is_session_active = True
        self.session.client_session(MitmChannel(SocketChannel(sock), log=logging.getLogger(__name__)))
"""), ("import time\n", "import time\nimport contextlib\n")]),
 'r_handler_type': (CSS, [(HANDLER, """        def handle(request_handler):
            session.server_session(SocketChannel(request_handler.request))

        return type('TCPRequestHandler', (socketserver.BaseRequestHandler,), {'handle': handle})
""")]),
 'r_handler_setup': (CSS, [(HANDLER, """        class TCPRequestHandler(socketserver.BaseRequestHandler):

            def setup(self):
                self.channel = SocketChannel(self.request)

            def handle(self):
                session.server_session(self.channel)

        return TCPRequestHandler
""")]),
 'r_start': (CSS, [("""        server_thread = threading.Thread(target=self.server.serve_forever)
        # Exit the server thread when the main thread terminates
        server_thread.daemon = True
        server_thread.start()
""", """        threading.Thread(target=self.server.serve_forever, daemon=True).start()
""")]),
 'r_start_serve': (CSS, [("""        server_thread = threading.Thread(target=self.server.serve_forever)
""", """        server_thread = threading.Thread(target=self._serve)
"""), ("    def run_sessions(self, num", """    def _serve(self):
        self.server.serve_forever()

    def run_sessions(self, num""")]),
 'r_mitm_helper': (MC, [(MW, """        await self.orig.write(msg, *args, is_last=is_last)
        self._written(msg, args)

    def _written(self, first, rest):
        self.counter_write += len(first) + sum(len(m) for m in rest)
        if not self.log:
            return
        kinds = [MitmEventType.WRITE] + [MitmEventType.WRITE_WITH_PREVIOUS] * len(rest)
        for kind, data in zip(kinds, (first, *rest)):
            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=kind, data=data))
""")]),
 'r_mitm_map': (MC, [(MW, """        await self.orig.write(msg, *args, is_last=is_last)
        self.counter_write += sum(map(len, (msg,) + args))

        if self.log:
            record = MitmChannel.LogRecord
            self._log_event(record(time.perf_counter(), MitmEventType.WRITE, msg))
            for m in args:
                self._log_event(record(time.perf_counter(), MitmEventType.WRITE_WITH_PREVIOUS, m))
""")]),
 'r_tunnel_class': (TU, [("""        self.channel1 = Tunnel._channel_factory(self._q1, self._q2)
        self.channel2 = Tunnel._channel_factory(self._q2, self._q1)

    @staticmethod
    def _channel_factory(in_queue, out_queue):
        class _Channel(ByteChannel):
            async def read(self):
                return in_queue.popleft()

            async def write(self, msg, *args, is_last=False):
                for m in (msg,) + args:
                    out_queue.append(m)
        return _Channel()
""", """        self.channel1 = _QueueChannel(self._q1, self._q2)
        self.channel2 = _QueueChannel(self._q2, self._q1)
"""), ("class Tunnel:", """class _QueueChannel(ByteChannel):
    def __init__(self, incoming, outgoing):
        super().__init__()
        self._incoming = incoming
        self._outgoing = outgoing

    async def read(self):
        return self._incoming.popleft()

    async def write(self, msg, *args, is_last=False):
        self._outgoing.extend((msg, *args))


class Tunnel:""")]),
 'r_echo_iter': (ES, [("""            while True:
                msg = channel.read_sync()
                if not msg:
                    return # client closed socket
                channel.write_sync(msg)
""", """            for msg in iter(channel.read_sync, b''):
                channel.write_sync(msg)
""")]),
 'r_echo_walrus': (ES, [("""            while True:
                msg = channel.read_sync()
                if not msg:
                    return # client closed socket
                channel.write_sync(msg)
""", """            while msg := channel.read_sync():
                channel.write_sync(msg)
""")]),
 'r_echo_client': (ES, [("""            response = codecs.encode(channel.read_sync(), 'hex')
""", """            answer = channel.read_sync()
            response = answer.hex()
""")]),
 'r_echoa_helper': (ESA, [("""        await writer.drain()
        logging.info("SRV closing connection")
        writer.close()
""", """        await self._finish(writer, "SRV closing connection")
"""), ("""        await writer.drain()

        logging.info('Client closing the socket')
        writer.close()""", """        await self._finish(writer, 'Client closing the socket')

    async def _finish(self, writer, text):
        await writer.drain()
        logging.info(text)
        writer.close()""")]),
 'r_echoa_loop': (ESA, [("""        while not reader.at_eof():
            data = await reader.read_msg()
            if not data:
                logging.info("SRV received empty msg = client requested session end")
                break
""", """        while True:
            if reader.at_eof():
                break
            data = await reader.read_msg()
            if len(data) == 0:
                logging.info("SRV received empty msg = client requested session end")
                break
""")]),
 'r_ex3_helper': (E3, [("""                sss = SaltServerSession(self.server_sig_keypair, channel)
                sss.enc_keypair = self.server_enc_keypair
                sss.time_keeper = OneTwoThreeTimeKeeper()

                sss.handshake_sync()
                sss.app_channel.write_sync(sss.app_channel.read_sync())  # echo once at app layer
                data1 = sss.app_channel.read_sync()
                data2 = sss.app_channel.read_sync()
                sss.app_channel.write_sync(data1, data2, is_last=True)  # echo two application messages back, lastFlag is true

                if sss.app_channel.last: # client do not plan to send something more
                    logging.info("LastFlag detected in client's message. Server decides to close current connection.")
                    return
""", """                if self._serve_one(channel):
                    logging.info("LastFlag detected in client's message. Server decides to close current connection.")
                    break
"""), ("    def client_session(self, channel):", """    def _serve_one(self, channel):
        session = SaltServerSession(self.server_sig_keypair, channel)
        session.enc_keypair = self.server_enc_keypair
        session.time_keeper = OneTwoThreeTimeKeeper()
        session.handshake_sync()
        app = session.app_channel
        app.write_sync(app.read_sync())
        both = [app.read_sync() for _ in range(2)]
        app.write_sync(*both, is_last=True)
        return app.last

    def client_session(self, channel):""")]),
}

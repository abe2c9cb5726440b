"""more behaviour-preserving edits: library wrappers, MITM channel, stream classes"""
SL, SN, SP, ST, SB = ('saltchannel/saltlib/saltlib.py', 'saltchannel/saltlib/saltlib_native.py', 'saltchannel/saltlib/saltlib_pynacl.py',
                      'saltchannel/saltlib/saltlib_tweetnaclext.py', 'saltchannel/saltlib/saltlib_base.py')
MC, CSA = 'saltchannel/dev/mitm_channel.py', 'saltchannel/dev/client_server_a.py'
R = {
 'tu_extend': ('saltchannel/dev/tunnel.py', [("""                for m in (msg,) + args:
                    out_queue.append(m)
""", """                out_queue.extend((msg,) + args)
""")]),
 'tu_split': ('saltchannel/dev/tunnel.py', [("""                for m in (msg,) + args:
                    out_queue.append(m)
""", """                out_queue.append(msg)
                for m in args:
                    out_queue.append(m)
"""), ("""                for m in (msg,) + args:
                    endpoint.send_bytes(m)
""", """                endpoint.send_bytes(msg)
                for extra in args:
                    endpoint.send_bytes(extra)
""")]),
 'tu_classes': ('saltchannel/dev/tunnel.py', [("""        class _Channel(ByteChannel):
            async def read(self):
                return in_queue.popleft()

            async def write(self, msg, *args, is_last=False):
                for m in (msg,) + args:
                    out_queue.append(m)
        return _Channel()
""", """        return _QueueChannel(in_queue, out_queue)


class _QueueChannel(ByteChannel):
    def __init__(self, in_queue, out_queue, loop=None):
        super().__init__(loop=loop)
        self._in, self._out = in_queue, out_queue

    async def read(self):
        return self._in.popleft()

    async def write(self, msg, *args, is_last=False):
        for m in [msg, *args]:
            self._out.append(m)
"""), ("from multiprocessing import Pipe", "import multiprocessing"), ("end1, end2 = Pipe()", "end1, end2 = multiprocessing.Pipe(duplex=True)")]),
 'mc_sum': (MC, [("""        for m in (msg,) + args:
            self.counter_write += len(m)
""", """        self.counter_write += sum(len(m) for m in (msg,) + args)
""")]),
 'mc_sum2': (MC, [("""        for m in (msg,) + args:
            self.counter_write += len(m)
""", """        self.counter_write += len(msg) + sum(map(len, args))
""")]),
 'mc_join': (MC, [("""        for m in (msg,) + args:
            self.counter_write += len(m)
""", """        total = len(msg)
        for extra in args:
            total += len(extra)
        self.counter_write += total
""")]),
 'mc_log_helper': (MC, [("""        data = await self.orig.read()
        self.counter_read += len(data)
        if self.log:
            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.READ, data=data))
        return data
""", """        return self._seen(await self.orig.read())

    def _seen(self, data):
        self.counter_read += len(data)
        self._record(MitmEventType.READ, data)
        return data

    def _record(self, kind, data):
        if self.log:
            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=kind, data=data))
"""), ("""        data = self.orig.read_sync()
        self.counter_read += len(data)
        if self.log:
            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.READ, data=data))
        return data
""", """        return self._seen(self.orig.read_sync())
"""), ("""        if self.log:
            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=msg))
            for m in args:
                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=m))
""", """        self._record(MitmEventType.WRITE, msg)
        for m in args:
            self._record(MitmEventType.WRITE_WITH_PREVIOUS, m)
""")]),
 'mc_enumerate': (MC, [("""        for m in (msg,) + args:
            self.counter_write += len(m)

        if self.log:
            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=msg))
            for m in args:
                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=m))
""", """        for i, m in enumerate((msg,) + args):
            self.counter_write = self.counter_write + len(m)
            if self.log:
                kind = MitmEventType.WRITE if i == 0 else MitmEventType.WRITE_WITH_PREVIOUS
                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=kind, data=m))
""")]),
 'csa_reader': (CSA, [("""        msg_len = struct.unpack('<i', await self.readexactly(4))
        return b'' if not msg_len else await self.readexactly(msg_len[0])
""", """        prefix = await self.readexactly(4)
        size = struct.unpack('<i', prefix)[0]
        return await self.readexactly(size)
""")]),
 'csa_writer': (CSA, [("""        self.write(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))
""", """        frame = struct.pack('<i', len(msg)) + bytes(msg)
        self.write(frame)
""")]),
 'csa_writer2': (CSA, [("""        self.write(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))
""", """        self.write(struct.pack('<i', len(msg)))
        self.write(bytes(msg))
""")]),
 'sl_getlib': (SL, [("""        if lib_type == LibType.LIB_TYPE_BEST:
            for t, api in sorted(SaltLib.lib_map.items()):
                if api.isAvailable():
                    return api
            raise NoSuchLibException
        else:
            return SaltLib.lib_map[lib_type.value]
""", """        if lib_type != LibType.LIB_TYPE_BEST:
            return SaltLib.lib_map[lib_type.value]
        for key in sorted(SaltLib.lib_map):
            candidate = SaltLib.lib_map[key]
            if candidate.isAvailable():
                return candidate
        raise NoSuchLibException()
""")]),
 'sl_getlib_next': (SL, [("""            for t, api in sorted(SaltLib.lib_map.items()):
                if api.isAvailable():
                    return api
            raise NoSuchLibException
""", """            available = [SaltLib.lib_map[t] for t in sorted(SaltLib.lib_map) if SaltLib.lib_map[t].isAvailable()]
            if not available:
                raise NoSuchLibException
            return available[0]
""")]),
 'sl_keys': (SL, [("""        pk, sk = self.api.crypto_box_keypair_not_random(sec)
        return KeyPair(sec=sk, pub=pk)
""", """        public, secret = self.api.crypto_box_keypair_not_random(sec)
        return KeyPair(secret, public)
"""), ("""        return self.create_enc_keys_from_sec(self.random_bytes(self.api.crypto_box_SECRETKEYBYTES))
""", """        seed = SaltLib.random_bytes(self.api.crypto_box_SECRETKEYBYTES)
        return self.create_enc_keys_from_sec(seed)
""")]),
 'sl_shared': (SL, [("""        if len(my_sk) != self.api.crypto_box_SECRETKEYBYTES:
            raise ValueError("bad length of my_priv: ", len(my_sk))
        if len(peer_pk) != self.api.crypto_box_PUBLICKEYBYTES:
            raise ValueError("bad length of peer_pub: ", len(peer_pk))
        try:
""", """        for key, size, what in ((my_sk, self.api.crypto_box_SECRETKEYBYTES, "my_priv"), (peer_pk, self.api.crypto_box_PUBLICKEYBYTES, "peer_pub")):
            if len(key) != size:
                raise ValueError("bad length of %s: " % what, len(key))
        try:
""")]),
 'sn_pad': (SN, [("""        padded = (b"\\x00"*self.crypto_box_ZEROBYTES) + m
        c = ctypes.create_string_buffer(len(padded))
        wrap(sodium.crypto_box_afternm(c, padded, ctypes.c_ulonglong(len(padded)), n, k))
        return c.raw[self.crypto_box_BOXZEROBYTES:]
""", """        padded = bytes(self.crypto_box_ZEROBYTES) + m
        size = len(padded)
        out = ctypes.create_string_buffer(size)
        code = sodium.crypto_box_afternm(out, padded, ctypes.c_ulonglong(size), n, k)
        wrap(code)
        return out.raw[self.crypto_box_BOXZEROBYTES:size]
"""), ("""        if (res != 0):
            raise BadEncryptedDataException()
        return m.raw[self.crypto_box_ZEROBYTES:]
""", """        if res == 0:
            return m.raw[self.crypto_box_ZEROBYTES:]
        raise BadEncryptedDataException()
""")]),
 'sn_sign_open': (SN, [("""        if res != 0:
            raise BadSignatureException()
        return m.raw[:mlen.value]
""", """        if res:
            raise BadSignatureException()
        size = mlen.value
        return m.raw[0:size]
""")]),
 'sn_wrap': (SN, [("""def wrap(code):
    if code != 0:
        raise ValueError("libsodium returned ", code)
""", """def wrap(code):
    if code == 0:
        return
    raise ValueError("libsodium returned ", code)
""")]),
 'sp_err': (SP, [("""        try:
            return bindings.crypto_box_open_afternm(c, n, k)
        except Exception as e:
            raise BadEncryptedDataException(e)
""", """        try:
            clear = bindings.crypto_box_open_afternm(c, n, k)
        except Exception as err:
            raise BadEncryptedDataException(err) from err
        return clear
""")]),
 'sp_pair': (SP, [("""        return (ffi.buffer(pk, self.crypto_sign_PUBLICKEYBYTES)[:],
                ffi.buffer(sk, self.crypto_sign_SECRETKEYBYTES)[:],
                )
""", """        public = ffi.buffer(pk, self.crypto_sign_PUBLICKEYBYTES)[:]
        secret = ffi.buffer(sk, self.crypto_sign_SECRETKEYBYTES)[:]
        return public, secret
""")]),
}

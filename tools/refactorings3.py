"""a third set of behaviour-preserving edits: other idioms (match, walrus, struct, memoryview, dataclasses, context managers, ...)"""
V = 'saltchannel/v2/'
EC, AC, VP, CS, SS = V + 'encrypted_channel_v2.py', V + 'app_channel_v2.py', V + 'packets.py', V + 'salt_client_session.py', V + 'salt_server_session.py'
CH, UP, AP, UI = 'saltchannel/channel.py', 'saltchannel/util/packets.py', 'saltchannel/a1a2/packets.py', 'saltchannel/util/__init__.py'
A1, CSA = 'saltchannel/a1a2/a1_client_session.py', 'saltchannel/dev/client_server_a.py'
WRITE = """        msgs = (message,) + args
        msg_list = []
        for i, msg in enumerate(msgs):
            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
            self.write_nonce.advance()
        await self.channel.write(msg_list[0], *msg_list[1:], is_last=is_last)
"""
READ = """        if self.pushback_msg:
            raw = self.pushback_msg
            self.pushback_msg = None
        else:
            raw = await self.channel.read()

        clear = self.decrypt(self.unwrap(raw))
        self.read_nonce.advance()
        return clear
"""
AREAD = """        if len(self.readQ):
            return self.readQ.popleft()

        raw_chunk = await self.channel.read()
        ap = AppPacket(src_buf=raw_chunk, validate=False)
        if ap.data.Header.PacketType == PacketType.TYPE_APP_PACKET.value:  # AppPacket detected
            ap.validate()
            self.time_checker.check_time(ap.data.Time)
            return ap.Data
        else:
            map = MultiAppPacket(src_buf=raw_chunk, validate=True)  # MultiAppPacket detected if no exception
            self.time_checker.check_time(map.data.Time)
            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)
            return map.opt.Message[0]
"""
AWRITE = """        msgs = (message,) + args
        current_time = self.time_keeper.get_time()
        rawmsg_list = []

        if self.buffered_m4:
            self.buffered_m4.data.Time = current_time
            rawmsg_list.append(bytes(self.buffered_m4))
            self.buffered_m4 = None

        if MultiAppPacket.should_use(msgs):
            map = MultiAppPacket()
            map.data.Time = current_time
            map.data.Count = len(msgs)
            map.create_opt_fields(msgs=msgs)
            rawmsg_list.append(bytes(map))
        else:
            ap = AppPacket()
            for msg in msgs:
                ap.data.Time = current_time
                ap.Data = msg
                rawmsg_list.append(bytes(ap))

        await self.channel.write(rawmsg_list[0], *(rawmsg_list[1:]), is_last=is_last)
"""
PARSE = """                self.Message = []
                if not count:
                    return
                # deserialize manually now
                cnt = offset = 0
                while cnt < count:
                    if len(src) < offset + sizeof(c_uint16):
                        raise BadPeer("'Length' field is missing for message: ", cnt)
                    length_field = c_uint16.from_buffer_copy(src, offset)
                    offset += sizeof(c_uint16)
                    if len(src) < offset + length_field.value:
                        raise BadPeer("message is truncated: ", cnt)
                    self.Message.append(src[offset:offset+length_field.value])
                    offset += length_field.value
                    cnt += 1
"""
RECVALL = """        buf = bytearray()
        while count:
            newbuf = self.sock.recv(count)
            if not newbuf: return (bytes(buf), False)
            buf.extend(newbuf)
            count -= len(newbuf)
        return (bytes(buf), True)"""
R = {
 'x_nonce_struct': (EC, [("return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])", "return struct.pack('<Q', self.value) + bytes(self.session_nonce) + b'\\x00' * 8"), ("from enum import Enum\n", "import struct\nfrom enum import Enum\n")]),
 'x_nonce_fmt': (EC, [("return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])", "return struct.pack('<Q8s8x', self.value, self.session_nonce)"), ("from enum import Enum\n", "import struct\nfrom enum import Enum\n")]),
 'x_nonce_take': (EC, [("    def advance(self):\n", "    def take(self):\n        current = bytes(self)\n        self.advance()\n        return current\n\n    def advance(self):\n"), (WRITE, """        msgs = (message, *args)
        frames = []
        for msg in msgs:
            sealed = self.saltlib.crypto_box_afternm(msg, self.write_nonce.take(), self.key)
            frames.append(self.wrap(sealed, is_last=is_last and len(frames) == len(msgs) - 1))
        first, *rest = frames
        await self.channel.write(first, *rest, is_last=is_last)
""")]),
 'x_write_tail': (EC, [(WRITE, """        *head, tail = (message,) + args
        frames = [self._seal(m) for m in head]
        frames.append(self._seal(tail, is_last))
        await self.channel.write(*frames, is_last=is_last)

    def _seal(self, msg, last=False):
        frame = self.wrap(self.encrypt(msg), is_last=last)
        self.write_nonce.advance()
        return frame
""")]),
 'x_write_reversed': (EC, [(WRITE, """        pending = [message]
        pending.extend(args)
        remaining = len(pending)
        frames = []
        for msg in pending:
            remaining -= 1
            flag = is_last and not remaining
            frames.append(self.wrap(self.encrypt(msg), is_last=flag))
            self.write_nonce.advance()
        await self.channel.write(frames[0], *frames[1:], is_last=is_last)
""")]),
 'x_read_walrus': (EC, [(READ, """        if (raw := self.pushback_msg):
            self.pushback_msg = None
        else:
            raw = await self.channel.read()
        try:
            clear = self.decrypt(self.unwrap(raw))
        except BadPeer:
            raise
        else:
            self.read_nonce.advance()
        return clear
""")]),
 'x_read_helper': (EC, [(READ, """        return self._accept(await self._next_frame())

    async def _next_frame(self):
        raw, self.pushback_msg = self.pushback_msg, None
        return raw or await self.channel.read()

    def _accept(self, frame):
        clear = self.decrypt(self.unwrap(frame))
        self.read_nonce.advance()
        return clear
""")]),
 'x_wrap_raw': (EC, [("""        ep = EncryptedPacket()
        ep.data.Header.LastFlag = int(is_last)
        ep.Body = src_bytes
        return bytes(ep)
""", """        header = bytes([EncryptedPacket.TYPE, 0x80 if is_last else 0])
        return header + src_bytes
""")]),
 'x_decrypt_from': (EC, [("""        except BadEncryptedDataException:
            raise BadPeer("invalid ciphertext, could not be decrypted")
""", """        except BadEncryptedDataException as e:
            raise BadPeer("invalid ciphertext, could not be decrypted") from e
""")]),
 'x_role_values': (EC, [("""        self.read_nonce = Nonce(NonceType.READ, session_nonce, value= 2 if role == Role.CLIENT else 1)
        self.write_nonce = Nonce(NonceType.WRITE, session_nonce, value= 1 if role == Role.CLIENT else 2)
""", """        first = {Role.CLIENT: (2, 1), Role.SERVER: (1, 2)}
        read, write = first[role]
        self.read_nonce = Nonce(NonceType.READ, session_nonce, value=read)
        self.write_nonce = Nonce(NonceType.WRITE, session_nonce, value=write)
""")]),
 'x_last_property': (EC, [("        self.last_flag = bool(ep.data.Header.LastFlag)\n        return ep.Body\n", "        self._note_last(ep)\n        return ep.Body\n\n    def _note_last(self, ep):\n        self.last_flag = ep.data.Header.LastFlag != 0\n")]),
 'x_app_match': (AC, [(AREAD, """        if not self.readQ:
            self.readQ.extend(await self._receive())
        return self.readQ.popleft()

    async def _receive(self):
        raw = await self.channel.read()
        packet = AppPacket(src_buf=raw, validate=False)
        match packet.data.Header.PacketType:
            case PacketType.TYPE_APP_PACKET.value:
                packet.validate()
                messages = [packet.Data]
            case _:
                packet = MultiAppPacket(src_buf=raw, validate=True)
                messages = packet.opt.Message
        self.time_checker.check_time(packet.data.Time)
        return messages
""")]),
 'x_app_first_rest': (AC, [(AREAD, """        try:
            return self.readQ.popleft()
        except IndexError:
            pass
        raw_chunk = await self.channel.read()
        ap = AppPacket(src_buf=raw_chunk, validate=False)
        if ap.data.Header.PacketType == AppPacket.TYPE:
            ap.validate()
            self.time_checker.check_time(ap.data.Time)
            return ap.Data
        multi = MultiAppPacket(src_buf=raw_chunk, validate=True)
        self.time_checker.check_time(multi.data.Time)
        first, *rest = multi.opt.Message
        self.readQ.extend(rest)
        return first
""")]),
 'x_app_loop_queue': (AC, [("            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)\n            return map.opt.Message[0]\n", """            for extra in map.opt.Message[1:]:
                self.readQ.append(extra)
            return map.opt.Message[0]
""")]),
 'x_app_write_split': (AC, [(AWRITE, """        now = self.time_keeper.get_time()
        packets = self._deferred(now) + self._pack((message,) + args, now)
        await self.channel.write(*packets, is_last=is_last)

    def _deferred(self, now):
        m4, self.buffered_m4 = self.buffered_m4, None
        if not m4:
            return []
        m4.data.Time = now
        return [bytes(m4)]

    def _pack(self, msgs, now):
        if MultiAppPacket.should_use(msgs):
            multi = MultiAppPacket()
            multi.data.Time, multi.data.Count = now, len(msgs)
            multi.create_opt_fields(msgs=msgs)
            return [bytes(multi)]
        return [self._single(m, now) for m in msgs]

    @staticmethod
    def _single(msg, now):
        ap = AppPacket()
        ap.data.Time = now
        ap.Data = msg
        return bytes(ap)
""")]),
 'x_app_write_chain': (AC, [(AWRITE, """        msgs = (message,) + args
        current_time = self.time_keeper.get_time()
        head = ()
        if self.buffered_m4:
            deferred, self.buffered_m4 = self.buffered_m4, None
            deferred.data.Time = current_time
            head = (bytes(deferred),)

        if MultiAppPacket.should_use(msgs):
            map = MultiAppPacket()
            map.data.Time = current_time
            map.data.Count = len(msgs)
            map.create_opt_fields(msgs=msgs)
            body = (bytes(map),)
        else:
            body = tuple(self._encode(current_time, m) for m in msgs)

        await self.channel.write(*head, *body, is_last=is_last)

    def _encode(self, time, msg):
        ap = AppPacket()
        ap.data.Time = time
        ap.Data = msg
        return bytes(ap)
""")]),
 'x_multi_struct': (VP, [(PARSE, """                self.Message = []
                offset = 0
                for cnt in range(count or 0):
                    if len(src) - offset < 2:
                        raise BadPeer("'Length' field is missing for message: ", cnt)
                    (length,) = struct.unpack_from('<H', src, offset)
                    start, offset = offset + 2, offset + 2 + length
                    if offset > len(src):
                        raise BadPeer("message is truncated: ", cnt)
                    self.Message.append(src[start:offset])
""")]),
 'x_multi_frombytes': (VP, [(PARSE, """                self.Message = []
                if not count:
                    return
                end = 0
                while len(self.Message) < count:
                    begin = end + 2
                    if begin > len(src):
                        raise BadPeer("'Length' field is missing for message: ", len(self.Message))
                    end = begin + int.from_bytes(src[end:begin], 'little')
                    if end > len(src):
                        raise BadPeer("message is truncated: ", len(self.Message))
                    self.Message.append(src[begin:end])
""")]),
 'x_multi_local': (VP, [(PARSE, """                messages = []
                cnt = offset = 0
                total = len(src)
                while count and cnt < count:
                    if total < offset + 2:
                        raise BadPeer("'Length' field is missing for message: ", cnt)
                    size = src[offset] | (src[offset + 1] << 8)
                    offset += 2
                    if total < offset + size:
                        raise BadPeer("message is truncated: ", cnt)
                    messages.append(bytes(src[offset:offset + size]))
                    offset += size
                    cnt += 1
                self.Message = messages
""")]),
 'x_multi_join': (VP, [("""                raw = bytearray()
                for msg in self.Message:
                    raw.extend(b''.join([c_uint16(len(msg)), bytes(msg)]))
                return bytes(raw)
""", """                return b''.join(struct.pack('<H', len(msg)) + bytes(msg) for msg in self.Message)
""")]),
 'x_multi_parts': (VP, [("""                raw = bytearray()
                for msg in self.Message:
                    raw.extend(b''.join([c_uint16(len(msg)), bytes(msg)]))
                return bytes(raw)
""", """                raw = bytearray()
                for msg in self.Message:
                    raw += len(msg).to_bytes(2, 'little')
                    raw += msg
                return bytes(raw)
""")]),
 'x_from_bytes_bytes': (UP, [("        memmove(addressof(self), src, sizeof(self))\n", "        memmove(byref(self), bytes(src[:sizeof(self)]), sizeof(self))\n")]),
 'x_packet_type': (UP, [("""        if self.data.Header.PacketType != type(self).TYPE:
            raise BadPeer("bad packet type: ", self.data.Header.PacketType)
""", """        actual, expected = self.data.Header.PacketType, self.TYPE
        if actual == expected:
            return
        raise BadPeer("bad packet type: ", actual)
""")]),
 'x_setattr_own': (UP, [("""        if name in ["data", "opt"] or isinstance(getattr(type(self), name, None), property):
            super().__setattr__(name, value)
        else:
            setattr(self.data, name, util.cbytes(value))
""", """        own = name in ("data", "opt") or isinstance(getattr(type(self), name, None), property)
        if not own:
            setattr(self.data, name, util.cbytes(value))
            return
        object.__setattr__(self, name, value)
""")]),
 'x_recv_into': (CH, [(RECVALL, """        buf = bytearray(count)
        view = memoryview(buf)
        got = 0
        while got < count:
            n = self.sock.recv_into(view[got:], count - got)
            if not n:
                return (bytes(buf[:got]), False)
            got += n
        return (bytes(buf), True)""")]),
 'x_recv_list': (CH, [(RECVALL, """        parts = []
        missing = count
        while missing:
            part = self.sock.recv(missing)
            if not part:
                return (b''.join(parts), False)
            parts.append(part)
            missing -= len(part)
        return (b''.join(parts), True)""")]),
 'x_recv_iter': (CH, [(RECVALL, """        received = b''
        while len(received) != count:
            chunk = self.sock.recv(count - len(received))
            if chunk == b'':
                return (received, False)
            received += chunk
        return (received, True)""")]),
 'x_recv_while_true': (CH, [(RECVALL, """        data = bytearray()
        while True:
            missing = count - len(data)
            if missing == 0:
                break
            piece = self.sock.recv(missing)
            if len(piece) == 0:
                return bytes(data), False
            data += piece
        return bytes(data), True""")]),
 'x_send_loop': (CH, [("            self.sock.sendall(bytes(raw))\n", """            view = memoryview(raw)
            while len(view):
                view = view[self.sock.send(view):]
""")]),
 'x_send_join': (CH, [("""        raw = bytearray()
        try:
            for msg in (message,) + args:
                raw.extend(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))
            self.sock.sendall(bytes(raw))
""", """        try:
            self.sock.sendall(b''.join(self._frame(m) for m in (message, *args)))
"""), ("    def recvall(self, count):\n", """    @staticmethod
    def _frame(msg):
        return struct.pack('<i', len(msg)) + bytes(msg)

    def recvall(self, count):
""")]),
 'x_chan_ctx': (CH, [("""        try:
            return await self.reader.read_msg()
        except Exception as e:
            raise ComException(e)
""", """        with _translated():
            return await self.reader.read_msg()
"""), ("""        try:
            for m in (msg,) + args:
                self.writer.write_msg(m)
            await self.writer.drain()
        except Exception as e:
            raise ComException(e)
""", """        with _translated():
            for m in (msg,) + args:
                self.writer.write_msg(m)
            await self.writer.drain()
"""), ("class ByteChannel(metaclass=ABCMeta):\n", """class _translated:
    def __enter__(self):
        return self

    def __exit__(self, kind, exc, tb):
        if exc is not None and isinstance(exc, Exception):
            raise ComException(exc) from exc
        return False


class ByteChannel(metaclass=ABCMeta):
""")]),
 'x_chan_ctxlib': (CH, [("""        try:
            return await self.reader.read_msg()
        except Exception as e:
            raise ComException(e)
""", """        with translated():
            return await self.reader.read_msg()
"""), ("class ByteChannel(metaclass=ABCMeta):\n", """@contextlib.contextmanager
def translated():
    try:
        yield
    except Exception as e:
        raise ComException(e)


class ByteChannel(metaclass=ABCMeta):
"""), ("import struct\n", "import contextlib\nimport struct\n")]),
 'x_chan_deco': (CH, [("""    async def read(self):
        try:
            return await self.reader.read_msg()
        except Exception as e:
            raise ComException(e)
""", """    @_reporting
    async def read(self):
        return await self.reader.read_msg()
"""), ("class ByteChannel(metaclass=ABCMeta):\n", """def _reporting(fn):
    @functools.wraps(fn)
    async def wrapper(*args, **kwargs):
        try:
            return await fn(*args, **kwargs)
        except Exception as e:
            raise ComException(e)
    return wrapper


class ByteChannel(metaclass=ABCMeta):
"""), ("import struct\n", "import functools\nimport struct\n")]),
 'x_stream_read': (CSA, [("""        msg_len = struct.unpack('<i', await self.readexactly(4))
        return b'' if not msg_len else await self.readexactly(msg_len[0])
""", """        (size,) = struct.unpack('<i', await self.readexactly(struct.calcsize('<i')))
        return await self.readexactly(size)
""")]),
 'x_stream_struct': (CSA, [("self.write(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))", "prefix = _LENGTH.pack(len(msg))\n        self.write(prefix + bytes(msg))"), ("class SaltChannelStreamWriter", "_LENGTH = struct.Struct('<i')\n\n\nclass SaltChannelStreamWriter"), ("struct.unpack('<i', await self.readexactly(4))", "_LENGTH.unpack(await self.readexactly(_LENGTH.size))")]),
 'x_a1_dict': (AP, [("""        if self.data.AddressType == type(self).ADDRESS_TYPE_ANY:
            if self.data.AddressSize:
                raise BadPeer("Address must be empty for ADDRESS_TYPE_ANY type: ", self.data.AddressSize)
        elif self.data.AddressType == type(self).ADDRESS_TYPE_PUBKEY:
            if self.data.AddressSize != 32: # 32-byte public signing keys are defined in SaltCahnnel v2 specs
                raise BadPeer("Wrong AddressSize for ADDRESS_TYPE_PUBKEY: ", self.data.AddressSize)
        else:
            raise BadPeer("AddressType is unknown: ", self.data.AddressType)
""", """        kind, size = self.data.AddressType, self.data.AddressSize
        match (kind, size):
            case (0, 0) | (1, 32):
                return
            case (0, _):
                raise BadPeer("Address must be empty for ADDRESS_TYPE_ANY type: ", size)
            case (1, _):
                raise BadPeer("Wrong AddressSize for ADDRESS_TYPE_PUBKEY: ", size)
            case _:
                raise BadPeer("AddressType is unknown: ", kind)
""")]),
 'x_a2_any': (AP, [("""        for i, prot in enumerate(self.opt.Prot):
            if not prot.validate():
                raise BadPeer("Invalid P1, Proto: ", i)
""", """        if not all(prot.validate() for prot in self.opt.Prot):
            raise BadPeer("Invalid P1 or P2")
""")]),
 'x_a2_index': (AP, [("""        for i, prot in enumerate(self.opt.Prot):
            if not prot.validate():
                raise BadPeer("Invalid P1, Proto: ", i)
""", """        for i in range(len(self.opt.Prot)):
            if self.opt.Prot[i].validate():
                continue
            raise BadPeer("Invalid P1, Proto: ", i)
""")]),
 'x_a2_divmod': (AP, [("""        if (len(src)-3) % (A2Packet.P_SIZE*2):
            raise BadPeer("bad A2 packet size: ", len(src))
        self.opt = self._opt_factory(body=src, prot_count=(len(src)-3)//(A2Packet.P_SIZE*2))
""", """        count, extra = divmod(len(src) - self.data.size, 2 * self.P_SIZE)
        if extra != 0:
            raise BadPeer("bad A2 packet size: ", len(src))
        self.opt = self._opt_factory(body=src, prot_count=count)
""")]),
 'x_cs_steps': (CS, [("""        self.validate()
        await self.do_m1()

        (success, recv_chunk) = await self.do_m2()
        if not success:
            return

        self.create_encrypted_channel()
        await self.do_m3()
        self.validate_signature1()
        await self.do_m4()
""", """        self.validate()
        await self.do_m1()
        success, _ = await self.do_m2()
        if success:
            self.create_encrypted_channel()
            for step in (self.do_m3, self._checked, self.do_m4):
                await step()

    async def _checked(self):
        self.validate_signature1()
""")]),
 'x_cs_transcript': (CS, [("self.saltlib.sign(b''.join([packets.M4Packet.SIG2_PREFIX,self.m1_hash, self.m2_hash]),", "self.saltlib.sign(packets.M4Packet.SIG2_PREFIX + self._transcript(),"), ("""            self.saltlib.sign_open(b''.join([self.m3.Signature1, packets.M3Packet.SIG1_PREFIX,
                                            self.m1_hash, self.m2_hash]), self.m3.ServerSigKey)""", """            signed = self.m3.Signature1 + packets.M3Packet.SIG1_PREFIX + self._transcript()
            self.saltlib.sign_open(signed, self.m3.ServerSigKey)"""), ("    def create_encrypted_channel(self):\n", "    def _transcript(self):\n        return b''.join((self.m1_hash, self.m2_hash))\n\n    def create_encrypted_channel(self):\n")]),
 'x_cs_finally': (CS, [("""            raise saltchannel.exceptions.BadPeer("bad M3 packet size: ", len(chunk))
        self.m3 = packets.M3Packet(src_buf=chunk)
        self.time_checker.check_time(self.m3.data.Time)
""", """            raise saltchannel.exceptions.BadPeer("bad M3 packet size: ", len(chunk))
        m3 = packets.M3Packet(src_buf=chunk)
        try:
            self.time_checker.check_time(m3.data.Time)
        finally:
            self.m3 = m3
""")]),
 'x_ss_m3_local': (SS, [("""        time = 0
        msg_list = []

        if self.buffer_m2:
            time = self.time_keeper.get_first_time()
            self.m2.data.Time = time
            self.m2_hash = self.saltlib.sha512(bytes(self.m2))
            msg_list.append(bytes(self.m2))
        else:
            time = self.time_keeper.get_time()
""", """        msg_list = []
        if not self.buffer_m2:
            time = self.time_keeper.get_time()
        else:
            time = self.m2.data.Time = self.time_keeper.get_first_time()
            m2_raw = bytes(self.m2)
            msg_list = [m2_raw]
            self.m2_hash = self.saltlib.sha512(m2_raw)
"""), ("await self.clear_channel.write(msg_list[0], *(msg_list[1:]))", "await self.clear_channel.write(*msg_list)")]),
 'x_ss_a2_table': (SS, [("""        a1 = A1Packet(src_buf=data_chunk)
        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
            a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
        elif self.a2:
            a2 = self.a2  # use injected a2
        else:
            a2 = A2Packet(case=A2Packet.Case.A2_DEFAUT)

        await self.clear_channel.write(bytes(a2), is_last=True)
""", """        answer = self._a2_for(A1Packet(src_buf=data_chunk))
        await self.clear_channel.write(bytes(answer), is_last=True)

    def _a2_for(self, a1):
        by_key = a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY
        if by_key and a1.Address != self.sig_keypair.pub:
            return A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
        return self.a2 or A2Packet(case=A2Packet.Case.A2_DEFAUT)
""")]),
 'x_ss_dispatch': (SS, [("""        (valid_m1, resumed, recv_chunk) = await self.do_m1()

        if not valid_m1:
            await self.do_a2(recv_chunk)
            self.is_done = True
            return
""", """        outcome = await self.do_m1()
        if outcome[0] is False:
            await self.do_a2(outcome[2])
            self.is_done = True
            return
        resumed = outcome[1]
""")]),
 'x_sync_partial': (UI, [("""        def sync_func(self, *args, **kwargs):
            meth = getattr(self, func)
            return self.loop.run_until_complete(meth(*args, **kwargs))
        return sync_func
""", """        def sync_func(self, *args, **kwargs):
            coro = getattr(self, func)(*args, **kwargs)
            loop = self.loop
            return loop.run_until_complete(coro)
        return sync_func
""")]),
 'x_sync_comp': (UI, [("""        new_dct = {}
        for name,val in dct.items():
            # Make a sync version of all coroutine functions
            if asyncio.iscoroutinefunction(val):
                meth = cls.sync_maker(name)
                syncname = '{}_sync'.format(name)
                meth.__name__ = syncname
                meth.__qualname__ = '{}.{}'.format(clsname, syncname)
                new_dct[syncname] = meth
        dct.update(new_dct)
""", """        for name in [n for n, v in dct.items() if asyncio.iscoroutinefunction(v)]:
            twin = cls.sync_maker(name)
            twin.__name__ = name + '_sync'
            twin.__qualname__ = f'{clsname}.{name}_sync'
            dct[twin.__name__] = twin
""")]),
 'x_cbytes_loop': (UI, [("    return (ctypes.c_uint8 * len(bytes(src))).from_buffer_copy(src)", "    data = bytes(src)\n    array_type = ctypes.c_uint8 * len(data)\n    return array_type.from_buffer_copy(data)")]),
}

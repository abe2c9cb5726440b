#!/usr/bin/env python3
"""Behaviour-preserving edits of saltchannel (development aid, not a registered check).

refactorings.py [NAME...]   for each: scratch copy, edit, repository tests, and every property's check with PV_REPO on the copy;
reports checks that are not quiet and contracts that are no longer proved.
"""
import os, sys, shutil, subprocess, json, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from mutate import FILES, PY, run, contract_names

CH, EC, AC = 'saltchannel/channel.py', 'saltchannel/v2/encrypted_channel_v2.py', 'saltchannel/v2/app_channel_v2.py'
CS, SS = 'saltchannel/v2/salt_client_session.py', 'saltchannel/v2/salt_server_session.py'
VP, AP, UP, UI, UT = 'saltchannel/v2/packets.py', 'saltchannel/a1a2/packets.py', 'saltchannel/util/packets.py', 'saltchannel/util/__init__.py', 'saltchannel/util/time.py'
A1, MC, CSA = 'saltchannel/a1a2/a1_client_session.py', 'saltchannel/dev/mitm_channel.py', 'saltchannel/dev/client_server_a.py'
SL, SN, SP, ST, SB = ('saltchannel/saltlib/saltlib.py', 'saltchannel/saltlib/saltlib_native.py', 'saltchannel/saltlib/saltlib_pynacl.py',
                      'saltchannel/saltlib/saltlib_tweetnaclext.py', 'saltchannel/saltlib/saltlib_base.py')

R = {
 'ch_write_comp': (CH, [("""            raw = bytearray()
        try:
            for msg in (message,) + args:
                raw.extend(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))
            self.sock.sendall(bytes(raw))
""".replace('            raw', '        raw', 1), """        try:
            self.sock.sendall(b''.join(struct.pack('<i', len(m)) + bytes(m) for m in (message, *args)))
""")]),
 'ch_recv_helper': (CH, [("""           len_buf, success = self.recvall(4)
           if not success:
               raise ComException("Unable to recv size prefix. NOT all requested data were obtained")
           msg_len = struct.unpack('<i', len_buf)
           msg, success = self.recvall(msg_len[0])
           if not success:
               raise ComException("Unable to recv msg. NOT all requested data were obtained")
           return msg
""", """            (size,) = struct.unpack('<i', self._exactly(4, "size prefix"))
            return self._exactly(size, "msg")
"""), ("    def recvall(self, count):", """    def _exactly(self, count, what):
        data, complete = self.recvall(count)
        if complete:
            return data
        raise ComException("Unable to recv %s. NOT all requested data were obtained" % what)

    def recvall(self, count):""")]),
 'ch_recv_chunks': (CH, [("""        buf = bytearray()
        while count:
            newbuf = self.sock.recv(count)
            if not newbuf: return (bytes(buf), False)
            buf.extend(newbuf)
            count -= len(newbuf)
        return (bytes(buf), True)""", """        chunks = []
        remaining = count
        while remaining != 0:
            chunk = self.sock.recv(remaining)
            if len(chunk) == 0:
                break
            chunks.append(chunk)
            remaining = remaining - len(chunk)
        return (b''.join(chunks), remaining == 0)""")]),
 'ch_recv_buflen': (CH, [("""        while count:
            newbuf = self.sock.recv(count)
            if not newbuf: return (bytes(buf), False)
            buf.extend(newbuf)
            count -= len(newbuf)
        return (bytes(buf), True)""", """        while len(buf) != count:
            newbuf = self.sock.recv(count - len(buf))
            if not newbuf:
                return bytes(buf), False
            buf += newbuf
        return bytes(buf), True""")]),
 'ch_async_first': (CH, [("""            for m in (msg,) + args:
                self.writer.write_msg(m)
            await self.writer.drain()""", """            self.writer.write_msg(msg)
            for extra in args:
                self.writer.write_msg(extra)
            await self.writer.drain()""")]),
 'ec_write_zip': (EC, [("""        msgs = (message,) + args
        msg_list = []
        for i, msg in enumerate(msgs):
            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
            self.write_nonce.advance()
        await self.channel.write(msg_list[0], *msg_list[1:], is_last=is_last)""", """        pending = [message, *args]
        last_index = len(pending) - 1
        frames = [self._seal(clear, is_last and index == last_index) for index, clear in enumerate(pending)]
        await self.channel.write(*frames, is_last=is_last)

    def _seal(self, clear, last):
        frame = self.wrap(self.encrypt(clear), is_last=last)
        self.write_nonce.advance()
        return frame""")]),
 'ec_write_split': (EC, [("""        msgs = (message,) + args
        msg_list = []
        for i, msg in enumerate(msgs):
            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
            self.write_nonce.advance()
        await self.channel.write(msg_list[0], *msg_list[1:], is_last=is_last)""", """        *init, final = (message,) + args
        out = []
        for msg in init:
            out.append(self.wrap(self.encrypt(msg)))
            self.write_nonce.advance()
        out.append(self.wrap(self.encrypt(final), is_last=is_last))
        self.write_nonce.advance()
        first, rest = out[0], out[1:]
        await self.channel.write(first, *rest, is_last=is_last)""")]),
 'ec_nonce_count': (EC, [("""        self.value = value

    def advance(self):
        self.value += 2

    def __bytes__(self):
        return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])""", """        self.start = value
        self.used = 0

    @property
    def value(self):
        return self.start + 2 * self.used

    def advance(self):
        self.used += 1

    def __bytes__(self):
        return struct.pack('<Q', self.value) + self.session_nonce + b'\\x00' * 8"""), ("from enum import Enum\n", "import struct\nfrom enum import Enum\n")]),
 'ec_read_helper': (EC, [("""        if self.pushback_msg:
            raw = self.pushback_msg
            self.pushback_msg = None
        else:
            raw = await self.channel.read()

        clear = self.decrypt(self.unwrap(raw))
        self.read_nonce.advance()
        return clear""", """        raw = await self._next_frame()
        body = self.unwrap(raw)
        clear = self.decrypt(body)
        self.read_nonce.advance()
        return clear

    async def _next_frame(self):
        if not self.pushback_msg:
            return await self.channel.read()
        raw, self.pushback_msg = self.pushback_msg, None
        return raw""")]),
 'ec_decrypt_from': (EC, [("""        try:
            return self.saltlib.crypto_box_open_afternm(encrypted, bytes(self.read_nonce), self.key)
        except BadEncryptedDataException:
            raise BadPeer("invalid ciphertext, could not be decrypted")""", """        nonce = bytes(self.read_nonce)
        try:
            clear = self.saltlib.crypto_box_open_afternm(encrypted, nonce, self.key)
        except BadEncryptedDataException as err:
            raise BadPeer("invalid ciphertext, could not be decrypted") from err
        else:
            return clear""")]),
 'ec_roles': (EC, [("""        self.read_nonce = Nonce(NonceType.READ, session_nonce, value= 2 if role == Role.CLIENT else 1)
        self.write_nonce = Nonce(NonceType.WRITE, session_nonce, value= 1 if role == Role.CLIENT else 2)""", """        mine, theirs = (1, 2) if role == Role.CLIENT else (2, 1)
        self.write_nonce = Nonce(NonceType.WRITE, session_nonce, value=mine)
        self.read_nonce = Nonce(NonceType.READ, session_nonce, value=theirs)""")]),
 'ac_read_loop': (AC, [("""        if len(self.readQ):
            return self.readQ.popleft()

        raw_chunk = await self.channel.read()
        ap = AppPacket(src_buf=raw_chunk, validate=False)
        if ap.data.Header.PacketType == PacketType.TYPE_APP_PACKET.value:  # AppPacket detected
            ap.validate()
            self.time_checker.check_time(ap.data.Time)
            return ap.Data
        else:
            map = MultiAppPacket(src_buf=raw_chunk, validate=True)  # MultiAppPacket detected if no exception
            self.time_checker.check_time(map.data.Time)
            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)
            return map.opt.Message[0]""", """        if not self.readQ:
            self.readQ.extend(self._messages(await self.channel.read()))
        return self.readQ.popleft()

    def _messages(self, raw_chunk):
        packet = AppPacket(src_buf=raw_chunk, validate=False)
        if packet.data.Header.PacketType != PacketType.TYPE_APP_PACKET.value:
            multi = MultiAppPacket(src_buf=raw_chunk, validate=True)
            self.time_checker.check_time(multi.data.Time)
            return multi.opt.Message
        packet.validate()
        self.time_checker.check_time(packet.data.Time)
        return [packet.Data]""")]),
 'ac_read_unpack': (AC, [("""            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)
            return map.opt.Message[0]""", """            first, *rest = map.opt.Message
            for m in rest:
                self.readQ.append(m)
            return first""")]),
 'ac_write_helper': (AC, [("""        if MultiAppPacket.should_use(msgs):
            map = MultiAppPacket()
            map.data.Time = current_time
            map.data.Count = len(msgs)
            map.create_opt_fields(msgs=msgs)
            rawmsg_list.append(bytes(map))
        else:
            ap = AppPacket()
            for msg in msgs:
                ap.data.Time = current_time
                ap.Data = msg
                rawmsg_list.append(bytes(ap))

        await self.channel.write(rawmsg_list[0], *(rawmsg_list[1:]), is_last=is_last)""", """        rawmsg_list.extend(self._pack(msgs, current_time))
        await self.channel.write(*rawmsg_list, is_last=is_last)

    @staticmethod
    def _pack_single(msg, time):
        ap = AppPacket()
        ap.data.Time = time
        ap.Data = msg
        return bytes(ap)

    def _pack(self, msgs, time):
        if not MultiAppPacket.should_use(msgs):
            return [self._pack_single(m, time) for m in msgs]
        multi = MultiAppPacket()
        multi.data.Time = time
        multi.data.Count = len(msgs)
        multi.create_opt_fields(msgs=msgs)
        return [bytes(multi)]""")]),
 'ac_queue_list': (AC, [("self.readQ = deque()", "self.readQ = []"), ("return self.readQ.popleft()", "return self.readQ.pop(0)")]),
 'ac_m4_swap': (AC, [("""        if self.buffered_m4:
            self.buffered_m4.data.Time = current_time
            rawmsg_list.append(bytes(self.buffered_m4))
            self.buffered_m4 = None
""", """        m4, self.buffered_m4 = self.buffered_m4, None
        if m4 is not None:
            m4.data.Time = current_time
            rawmsg_list.append(bytes(m4))
""")]),
 'ac_should_use': (VP, [("        return False if not 2 <= len(msgs) <= MultiAppPacket.MAX_SIZE or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True", """        if len(msgs) < 2 or len(msgs) > MultiAppPacket.MAX_SIZE:
            return False
        return all(len(m) <= MultiAppPacket.MAX_SIZE for m in msgs)""")]),
 'vp_should_max': (VP, [("        return False if not 2 <= len(msgs) <= MultiAppPacket.MAX_SIZE or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True", """        limit = MultiAppPacket.MAX_SIZE
        for msg in msgs:
            if len(msg) > limit:
                return False
        return 2 <= len(msgs) <= limit""")]),
 'vp_multi_for': (VP, [("""                cnt = offset = 0
                while cnt < count:
                    if len(src) < offset + sizeof(c_uint16):
                        raise BadPeer("'Length' field is missing for message: ", cnt)
                    length_field = c_uint16.from_buffer_copy(src, offset)
                    offset += sizeof(c_uint16)
                    if len(src) < offset + length_field.value:
                        raise BadPeer("message is truncated: ", cnt)
                    self.Message.append(src[offset:offset+length_field.value])
                    offset += length_field.value
                    cnt += 1
""", """                offset = 0
                for index in range(count):
                    start = offset + sizeof(c_uint16)
                    if len(src) < start:
                        raise BadPeer("'Length' field is missing for message: ", index)
                    end = start + c_uint16.from_buffer_copy(src, offset).value
                    if end > len(src):
                        raise BadPeer("message is truncated: ", index)
                    self.Message.append(src[start:end])
                    offset = end
""")]),
 'vp_multi_consume': (VP, [("""                cnt = offset = 0
                while cnt < count:
                    if len(src) < offset + sizeof(c_uint16):
                        raise BadPeer("'Length' field is missing for message: ", cnt)
                    length_field = c_uint16.from_buffer_copy(src, offset)
                    offset += sizeof(c_uint16)
                    if len(src) < offset + length_field.value:
                        raise BadPeer("message is truncated: ", cnt)
                    self.Message.append(src[offset:offset+length_field.value])
                    offset += length_field.value
                    cnt += 1
""", """                rest = src
                while len(self.Message) < count:
                    if len(rest) < 2:
                        raise BadPeer("'Length' field is missing for message: ", len(self.Message))
                    size = int.from_bytes(rest[:2], 'little')
                    if len(rest) < 2 + size:
                        raise BadPeer("message is truncated: ", len(self.Message))
                    self.Message.append(rest[2:2 + size])
                    rest = rest[2 + size:]
""")]),
 'vp_multi_bytes': (VP, [("""                raw = bytearray()
                for msg in self.Message:
                    raw.extend(b''.join([c_uint16(len(msg)), bytes(msg)]))
                return bytes(raw)
""", """                parts = []
                for msg in self.Message:
                    parts.append(len(msg).to_bytes(2, 'little'))
                    parts.append(bytes(msg))
                return b''.join(parts)
""")]),
 'vp_multi_comp': (VP, [("""                raw = bytearray()
                for msg in self.Message:
                    raw.extend(b''.join([c_uint16(len(msg)), bytes(msg)]))
                return bytes(raw)
""", """                return b''.join([struct.pack('<H', len(msg)) + bytes(msg) for msg in self.Message])
""")]),
 'vp_m1_check': (VP, [("""        if self.data.ProtocolIndicator[:] != self.data._defaults_['ProtocolIndicator'][:]:
            raise BadPeer("unexpected ProtocolIndicator: ", bytes(self.data.ProtocolIndicator))""", """        indicator = bytes(self.data.ProtocolIndicator)
        if indicator != b'SCv2':
            raise BadPeer("unexpected ProtocolIndicator: ", indicator)""")]),
 'vp_m2_bytes': (VP, [("""        if self.data.Header.NoSuchServer:
            self.data.Header.LastFlag = 1  # LastFlag is implied
        return bytes(self.data)""", """        header = self.data.Header
        header.LastFlag = header.LastFlag or header.NoSuchServer
        return bytes(self.data)""")]),
 'vp_enc_init': (VP, [("""        if len(self.Body) < 16:
            raise BadPeer("'Body' field value is too small")""", """        minimum = 16  # size of the authenticator
        if not len(self.opt.Body) >= minimum:
            raise BadPeer("'Body' field value is too small")""")]),
 'up_from_bytes': (UP, [("""        if len(src) < sizeof(self):
            raise BadPeer("packet too short: ", len(src), sizeof(self))
        memmove(addressof(self), src, sizeof(self))""", """        needed = self.size
        if needed > len(src):
            raise BadPeer("packet too short: ", len(src), needed)
        memmove(addressof(self), src[:needed], needed)""")]),
 'up_join': (UP, [("        return b''.join([bytes(self.data), bytes(self.opt)])", "        return bytes(self.data) + bytes(self.opt)")]),
 'up_defaults': (UP, [("""        values = dict()
        try:
            values = type(self)._defaults_.copy()
            for (key, val) in kwargs.items():
                values[key] = val
        except AttributeError:
            pass  # do nothing if there are no _defaults_ defined
        super().__init__(**values)""", """        defaults = getattr(type(self), '_defaults_', None)
        values = {} if defaults is None else {**defaults, **kwargs}
        super().__init__(**values)""")]),
 'ap_regex': (AP, [("""                return True if (type(self).proto_re.fullmatch(bytes(self.P1)) and
                                type(self).proto_re.fullmatch(bytes(self.P2))) else False""", """                return all(type(self).proto_re.fullmatch(bytes(p)) is not None for p in (self.P1, self.P2))""")]),
 'ap_charset': (AP, [("""                return True if (type(self).proto_re.fullmatch(bytes(self.P1)) and
                                type(self).proto_re.fullmatch(bytes(self.P2))) else False""", """                allowed = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-./_'
                return all(c in allowed for c in bytes(self.P1) + bytes(self.P2))""")]),
 'ap_validate_any': (AP, [("""        for i, prot in enumerate(self.opt.Prot):
            if not prot.validate():
                raise BadPeer("Invalid P1, Proto: ", i)
""", """        if not all(prot.validate() for prot in self.opt.Prot):
            raise BadPeer("Invalid Proto")
""")]),
 'ap_from_bytes': (AP, [("""        if (len(src)-3) % (A2Packet.P_SIZE*2):
            raise BadPeer("bad A2 packet size: ", len(src))
        self.opt = self._opt_factory(body=src, prot_count=(len(src)-3)//(A2Packet.P_SIZE*2))""", """        entries, excess = divmod(len(src) - self.data.size, 2 * A2Packet.P_SIZE)
        if excess != 0:
            raise BadPeer("bad A2 packet size: ", len(src))
        self.opt = self._opt_factory(body=src, prot_count=entries)""")]),
 'ap_a1_table': (AP, [("""        if self.data.AddressType == type(self).ADDRESS_TYPE_ANY:
            if self.data.AddressSize:
                raise BadPeer("Address must be empty for ADDRESS_TYPE_ANY type: ", self.data.AddressSize)
        elif self.data.AddressType == type(self).ADDRESS_TYPE_PUBKEY:
            if self.data.AddressSize != 32: # 32-byte public signing keys are defined in SaltCahnnel v2 specs
                raise BadPeer("Wrong AddressSize for ADDRESS_TYPE_PUBKEY: ", self.data.AddressSize)
        else:
            raise BadPeer("AddressType is unknown: ", self.data.AddressType)""", """        sizes = {type(self).ADDRESS_TYPE_ANY: 0, type(self).ADDRESS_TYPE_PUBKEY: 32}
        expected = sizes.get(self.data.AddressType)
        if expected is None:
            raise BadPeer("AddressType is unknown: ", self.data.AddressType)
        if self.data.AddressSize != expected:
            raise BadPeer("Wrong AddressSize: ", self.data.AddressSize)""")]),
 'cs_m1_one_if': (CS, [("""        if self.wanted_server_sig_key:
            self.m1.data.Header.ServerSigKeyIncluded = 1
        self.m1.create_opt_fields()
        if self.wanted_server_sig_key:
            self.m1.ServerSigKey = self.wanted_server_sig_key
        self.m1.data.Time = self.time_keeper.get_first_time()
        self.m1.ClientEncKey = self.enc_keypair.pub
""", """        m1 = self.m1
        m1.data.Time = self.time_keeper.get_first_time()
        m1.ClientEncKey = self.enc_keypair.pub
        wanted = self.wanted_server_sig_key
        m1.data.Header.ServerSigKeyIncluded = 1 if wanted else 0
        m1.create_opt_fields()
        if wanted:
            m1.ServerSigKey = wanted
""")]),
 'cs_transcript': (CS, [("""        self.m4.Signature2 = self.saltlib.sign(b''.join([packets.M4Packet.SIG2_PREFIX,self.m1_hash, self.m2_hash]),
                                               self.sig_keypair.sec)[:SaltLibBase.crypto_sign_BYTES]
""", """        signed = self.saltlib.sign(packets.M4Packet.SIG2_PREFIX + self._transcript(), self.sig_keypair.sec)
        self.m4.Signature2 = signed[0:SaltLibBase.crypto_sign_BYTES]
"""), ("""            self.saltlib.sign_open(b''.join([self.m3.Signature1, packets.M3Packet.SIG1_PREFIX,
                                            self.m1_hash, self.m2_hash]), self.m3.ServerSigKey)""", """            self.saltlib.sign_open(self.m3.Signature1 + packets.M3Packet.SIG1_PREFIX + self._transcript(),
                                   self.m3.ServerSigKey)"""), ("    def validate_signature1(self):", """    def _transcript(self):
        return self.m1_hash + self.m2_hash

    def validate_signature1(self):""")]),
 'cs_m2_nosuch_first': (CS, [("""        (success, recv_chunk) = await self.do_m2()
        if not success:
            return

        self.create_encrypted_channel()
        await self.do_m3()
        self.validate_signature1()
        await self.do_m4()
""", """        success, _ = await self.do_m2()
        if success:
            self.create_encrypted_channel()
            await self.do_m3()
            self.validate_signature1()
            await self.do_m4()
""")]),
 'cs_m4_local': (CS, [("""        if self.buffer_M4:
            self.app_channel.buffered_m4 = self.m4
        else:
            await self.enc_channel.write(bytes(self.m4))""", """        if not self.buffer_M4:
            raw = bytes(self.m4)
            await self.enc_channel.write(raw)
            return
        self.app_channel.buffered_m4 = self.m4""")]),
 'ss_a2_choose': (SS, [("""        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
            a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
        elif self.a2:
            a2 = self.a2  # use injected a2
        else:
            a2 = A2Packet(case=A2Packet.Case.A2_DEFAUT)

        await self.clear_channel.write(bytes(a2), is_last=True)""", """        await self.clear_channel.write(bytes(self._answer(a1)), is_last=True)

    def _answer(self, a1):
        addressed = a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY
        if addressed and a1.Address != self.sig_keypair.pub:
            return A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
        return self.a2 or A2Packet(case=A2Packet.Case.A2_DEFAUT)""")]),
 'ss_m3_restructure': (SS, [("""        time = 0
        msg_list = []

        if self.buffer_m2:
            time = self.time_keeper.get_first_time()
            self.m2.data.Time = time
            self.m2_hash = self.saltlib.sha512(bytes(self.m2))
            msg_list.append(bytes(self.m2))
        else:
            time = self.time_keeper.get_time()
""", """        msg_list = []
        time = self.time_keeper.get_first_time() if self.buffer_m2 else self.time_keeper.get_time()
        if self.buffer_m2:
            self.m2.data.Time = time
            raw_m2 = bytes(self.m2)
            self.m2_hash = self.saltlib.sha512(raw_m2)
            msg_list.append(raw_m2)
"""), ("""        msg_list.append(self.enc_channel.wrap(self.enc_channel.encrypt(bytes(p)), is_last=False))
        self.enc_channel.write_nonce.advance()

        await self.clear_channel.write(msg_list[0], *(msg_list[1:]))""", """        sealed = self.enc_channel.encrypt(bytes(p))
        self.enc_channel.write_nonce.advance()
        msg_list += [self.enc_channel.wrap(sealed)]

        await self.clear_channel.write(*msg_list)""")]),
 'ss_m1_peek': (SS, [("""        if self.m1.data.Header.ServerSigKeyIncluded and self.sig_keypair.pub != self.m1.ServerSigKey:
            m2 = M2Packet()
            m2.data.Time = self.time_keeper.get_first_time()
            m2.data.Header.NoSuchServer = 1
            await self.clear_channel.write(bytes(m2), is_last=True)
            raise saltchannel.exceptions.NoSuchServerException()

        return (True,False, None)""", """        if not self._is_for_me(self.m1):
            await self._refuse()

        return (True, False, None)

    def _is_for_me(self, m1):
        return not m1.data.Header.ServerSigKeyIncluded or m1.ServerSigKey == self.sig_keypair.pub

    async def _refuse(self):
        m2 = M2Packet()
        m2.data.Header.NoSuchServer = 1
        m2.data.Time = self.time_keeper.get_first_time()
        await self.clear_channel.write(bytes(m2), is_last=True)
        raise saltchannel.exceptions.NoSuchServerException()""")]),
 'ss_m2_hash_first': (SS, [("""        if not self.buffer_m2:
            await self.clear_channel.write(bytes(self.m2))  # check for copy overhead here
            self.m2_hash = self.saltlib.sha512(bytes(self.m2)) # check for copy overhead here""", """        if self.buffer_m2:
            return
        raw = bytes(self.m2)
        self.m2_hash = self.saltlib.sha512(raw)
        await self.clear_channel.write(raw)""")]),
 'ss_m4_order': (SS, [("""        self.m4 = M4Packet(src_buf=await self.enc_channel.read())
        self.time_checker.check_time(self.m4.data.Time)
        self.client_sig_key = self.m4.ClientSigKey""", """        raw = await self.enc_channel.read()
        m4 = M4Packet(src_buf=raw)
        self.time_checker.check_time(m4.data.Time)
        self.m4, self.client_sig_key = m4, m4.ClientSigKey""")]),
 'ui_sync': (UI, [("""        new_dct = {}
        for name,val in dct.items():
            # Make a sync version of all coroutine functions
            if asyncio.iscoroutinefunction(val):
                meth = cls.sync_maker(name)
                syncname = '{}_sync'.format(name)
                meth.__name__ = syncname
                meth.__qualname__ = '{}.{}'.format(clsname, syncname)
                new_dct[syncname] = meth
        dct.update(new_dct)
        return super().__new__(cls, clsname, bases, dct)""", """        coroutines = [name for name, val in dct.items() if asyncio.iscoroutinefunction(val)]
        for name in coroutines:
            syncname = name + '_sync'
            meth = cls.sync_maker(name)
            meth.__name__, meth.__qualname__ = syncname, clsname + '.' + syncname
            dct[syncname] = meth
        return super().__new__(cls, clsname, bases, dct)""")]),
 'ui_cbytes': (UI, [("    return (ctypes.c_uint8 * len(bytes(src))).from_buffer_copy(src)", """    data = bytes(src)
    array_type = ctypes.c_uint8 * len(data)
    return array_type.from_buffer_copy(data)""")]),
 'ui_single': (UI, [("""class SingletonABCMeta(ABCMeta):
    _instances = {}
    def __call__(cls, *args, **kwargs):
        if cls not in cls._instances:
            cls._instances[cls] = super(SingletonABCMeta, cls).__call__(*args, **kwargs)
        return cls._instances[cls]""", """class SingletonABCMeta(ABCMeta):
    _instances = {}

    def __call__(cls, *args, **kwargs):
        try:
            return cls._instances[cls]
        except KeyError:
            pass
        instance = super().__call__(*args, **kwargs)
        cls._instances[cls] = instance
        return instance""")]),
 'ut_set': (UT, [("""        if time not in [0,1]:
            raise BadPeer("bad first time, " + str(time))""", """        if not 0 <= time <= 1:
            raise BadPeer("bad first time, {}".format(time))""")]),
 'ut_eq': (UT, [("""        if time not in [0,1]:
            raise BadPeer("bad first time, " + str(time))""", """        if time == 0 or time == 1:
            return
        raise BadPeer(f"bad first time, {time}")""")]),
 'a1_helper': (A1, [("""        self.channel.write_sync(bytes(self.a1))
        self.a2 = packets.A2Packet(src_buf=self.channel.read_sync())""", """        self.channel.write_sync(bytes(self.a1))
        self._parse(self.channel.read_sync())

    def _parse(self, raw):
        self.a2 = packets.A2Packet(src_buf=raw)"""), ("""        await self.channel.write(bytes(self.a1))
        self.a2 = packets.A2Packet(src_buf=await self.channel.read())""", """        request = bytes(self.a1)
        await self.channel.write(request)
        reply = await self.channel.read()
        self._parse(reply)""")]),
}
for _more in ('refactorings2', 'refactorings3', 'refactorings4', 'refactorings5'):
    R.update(__import__(_more).R)


def go(name):
    f, edits = R[name]
    tmp = '/tmp/ref_%d_%s' % (os.getpid(), name)
    repo = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    p = os.path.join(repo, f)
    text = open(p).read()
    for a, b in edits:
        if a not in text:
            print(name, 'EDIT DOES NOT APPLY:', a[:60]); shutil.rmtree(tmp); return
        text = text.replace(a, b)
    open(p, 'w').write(text)
    t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--ignore=tests/saltlib', 'tests'], cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if t.returncode:
        print(name, 'TESTS FAIL', t.stdout.decode()[-1500:])
    out = []
    jobs = [(q, n) for q in FILES[f] for n in contract_names(q)]

    def one(j):
        from mutate import one as o
        return o(j[0], j[1], repo, tmp)
    with ThreadPoolExecutor(max_workers=int(os.environ.get('W', '7'))) as ex:
        rs = list(ex.map(one, jobs))
    shutil.rmtree(tmp, ignore_errors=True)
    sam = [(r[0], r[1], r[2]) for r in rs if r[2] is not None]
    ref = [(r[0], r[1], r[3][1], 'EXACT' if r[3][2] else 'inexact') for r in rs if r[3][0] == 'refuted']
    und = [(r[0], r[1], (r[3][1] or '')[:150]) for r in rs if r[3][0] not in ('proved', 'refuted')]
    print('%-18s %s contracts=%d%s%s%s' % (name, 'ok' if not sam and not ref and not und else '', len(rs),
          ('\n    SAMPLER %s' % sam) if sam else '', ('\n    REFUTED %s' % ref) if ref else '', ''.join('\n    undecided %s' % (u,) for u in und)), flush=True)


if __name__ == '__main__':
    for n in sys.argv[1:] or R:
        go(n)

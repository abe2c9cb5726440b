"""a fifth set of behaviour-preserving edits: itertools, operator, class methods, named tuples, small state objects, gather, typing"""
V = 'saltchannel/v2/'
D = 'saltchannel/dev/'
EC, AC, VP, CS, SS = V + 'encrypted_channel_v2.py', V + 'app_channel_v2.py', V + 'packets.py', V + 'salt_client_session.py', V + 'salt_server_session.py'
CH, UI, UP, UT = 'saltchannel/channel.py', 'saltchannel/util/__init__.py', 'saltchannel/util/packets.py', 'saltchannel/util/time.py'
AP, AS, SL, PN = 'saltchannel/a1a2/packets.py', 'saltchannel/a1a2/a1_client_session.py', 'saltchannel/saltlib/saltlib.py', 'saltchannel/saltlib/saltlib_pynacl.py'
MC = D + 'mitm_channel.py'
R = {
 'v_itercount': (EC, [("        self.value = value\n\n    def advance(self):\n        self.value += 2\n", "        self._steps = itertools.count(value, 2)\n        self.value = next(self._steps)\n\n    def advance(self):\n        self.value = next(self._steps)\n"), ("from enum import Enum\n", "import itertools\nfrom enum import Enum\n")]),
 'v_nonceprop': (EC, [("        self.value = value\n\n    def advance(self):\n        self.value += 2\n", "        self.start = value\n        self.used = 0\n\n    @property\n    def value(self):\n        return self.start + 2 * self.used\n\n    def advance(self):\n        self.used += 1\n")]),
 'v_noncestruct': (EC, [("return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])", "return struct.pack('<Q8s8x', self.value, self.session_nonce)"), ("from enum import Enum\n", "import struct\nfrom enum import Enum\n")]),
 'v_encpack': (EC, [("""        msg_list = []
        for i, msg in enumerate(msgs):
            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
            self.write_nonce.advance()
        await""", """        flags = [False] * (len(msgs) - 1) + [is_last]
        msg_list = []
        for msg, flag in zip(msgs, flags):
            frame = self.wrap(self.encrypt(msg), is_last=flag)
            self.write_nonce.advance()
            msg_list.append(frame)
        await"""), ("from enum import Enum\n", "import itertools\nfrom enum import Enum\n")]),
 'v_encrec': (EC, [("""        msg_list = []
        for i, msg in enumerate(msgs):
            msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
            self.write_nonce.advance()
        await""", """        *head, tail = msgs
        msg_list = [self._seal(m, False) for m in head]
        msg_list.append(self._seal(tail, is_last))
        await"""), ("    def encrypt(self, clear):", "    def _seal(self, clear, last):\n        frame = self.wrap(self.encrypt(clear), is_last=last)\n        self.write_nonce.advance()\n        return frame\n\n    def encrypt(self, clear):")]),
 'v_role': (EC, [("        self.read_nonce = Nonce(NonceType.READ, session_nonce, value= 2 if role == Role.CLIENT else 1)\n        self.write_nonce = Nonce(NonceType.WRITE, session_nonce, value= 1 if role == Role.CLIENT else 2)", "        first = {Role.CLIENT: (2, 1), Role.SERVER: (1, 2)}[role]\n        self.read_nonce, self.write_nonce = (Nonce(t, session_nonce, value=v) for t, v in zip(NonceType, first))")]),
 'v_appgen': (AC, [("""            ap = AppPacket()
            for msg in msgs:
                ap.data.Time = current_time
                ap.Data = msg
                rawmsg_list.append(bytes(ap))
""", """            rawmsg_list += (self._app_packet(m, current_time) for m in msgs)
"""), ("    async def write(self, message", "    @staticmethod\n    def _app_packet(msg, now):\n        ap = AppPacket()\n        ap.data.Time, ap.Data = now, msg\n        return bytes(ap)\n\n    async def write(self, message")]),
 'v_appdispatch': (AC, [("""        ap = AppPacket(src_buf=raw_chunk, validate=False)
        if ap.data.Header.PacketType == PacketType.TYPE_APP_PACKET.value:  # AppPacket detected
            ap.validate()
            self.time_checker.check_time(ap.data.Time)
            return ap.Data
        else:
            map = MultiAppPacket(src_buf=raw_chunk, validate=True)  # MultiAppPacket detected if no exception
            self.time_checker.check_time(map.data.Time)
            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)
            return map.opt.Message[0]
""", """        probe = AppPacket(src_buf=raw_chunk, validate=False)
        single = probe.data.Header.PacketType == PacketType.TYPE_APP_PACKET.value
        packet = probe if single else MultiAppPacket(src_buf=raw_chunk)
        self.time_checker.check_time(packet.data.Time)
        first, *rest = [packet.Data] if single else packet.opt.Message
        self.readQ.extend(rest)
        return first
""")]),
 'v_appq': (AC, [("        if len(self.readQ):\n            return self.readQ.popleft()\n\n        raw_chunk = await self.channel.read()\n", "        if not self.readQ:\n            await self._fill()\n        return self.readQ.popleft()\n\n    async def _fill(self):\n        raw_chunk = await self.channel.read()\n"), ("            return ap.Data\n", "            self.readQ.append(ap.Data)\n"), ("            self.readQ.extend(map.opt.Message[1:])  # add all msgs but first to fifo (if more then one exists)\n            return map.opt.Message[0]", "            self.readQ.extend(map.opt.Message)")]),
 'v_should': (VP, [("        return False if not 2 <= len(msgs) <= MultiAppPacket.MAX_SIZE or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True", "        limit = MultiAppPacket.MAX_SIZE\n        return len(msgs) in range(2, limit + 1) and max(map(len, msgs)) <= limit")]),
 'v_should2': (VP, [("        return False if not 2 <= len(msgs) <= MultiAppPacket.MAX_SIZE or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True", "        if len(msgs) < 2 or len(msgs) > MultiAppPacket.MAX_SIZE:\n            return False\n        too_long = next((m for m in msgs if len(m) > MultiAppPacket.MAX_SIZE), None)\n        return too_long is None")]),
 'v_multibytes': (VP, [("                raw = bytearray()\n                for msg in self.Message:\n                    raw.extend(b''.join([c_uint16(len(msg)), bytes(msg)]))\n                return bytes(raw)", "                parts = []\n                for msg in self.Message:\n                    parts += [len(msg).to_bytes(2, 'little'), bytes(msg)]\n                return b''.join(parts)")]),
 'v_multichain': (VP, [("                raw = bytearray()\n                for msg in self.Message:\n                    raw.extend(b''.join([c_uint16(len(msg)), bytes(msg)]))\n                return bytes(raw)", "                return b''.join(struct.pack('<H', len(m)) + bytes(m) for m in self.Message)")]),
 'v_multiparse': (VP, [("""                cnt = offset = 0
                while cnt < count:
                    if len(src) < offset + sizeof(c_uint16):
                        raise BadPeer("'Length' field is missing for message: ", cnt)
                    length_field = c_uint16.from_buffer_copy(src, offset)
                    offset += sizeof(c_uint16)
                    if len(src) < offset + length_field.value:
                        raise BadPeer("message is truncated: ", cnt)
                    self.Message.append(src[offset:offset+length_field.value])
                    offset += length_field.value
                    cnt += 1
""", """                rest = src
                for cnt in range(count):
                    head, rest = rest[:2], rest[2:]
                    if len(head) != 2:
                        raise BadPeer("'Length' field is missing for message: ", cnt)
                    length, = struct.unpack('<H', head)
                    if length > len(rest):
                        raise BadPeer("message is truncated: ", cnt)
                    self.Message.append(rest[:length])
                    rest = rest[length:]
""")]),
 'v_optint': (VP, [("            _fields_ = [('ServerSigKey', c_uint8 * (32 * body.Header.ServerSigKeyIncluded))]", "            _fields_ = [('ServerSigKey', c_uint8 * 32 if body.Header.ServerSigKeyIncluded else c_uint8 * 0)]")]),
 'v_cmtranscript': (CS, [("    def validate_signature1(self):\n", "    @property\n    def _transcript(self):\n        return self.m1_hash + self.m2_hash\n\n    def validate_signature1(self):\n"), ("b''.join([self.m3.Signature1, packets.M3Packet.SIG1_PREFIX,\n                                            self.m1_hash, self.m2_hash])", "self.m3.Signature1 + packets.M3Packet.SIG1_PREFIX + self._transcript"), ("b''.join([packets.M4Packet.SIG2_PREFIX,self.m1_hash, self.m2_hash])", "packets.M4Packet.SIG2_PREFIX + self._transcript")]),
 'v_cmhash': (CS, [("        self.m1_hash = self.saltlib.sha512(m1_raw)\n\n        await self.clear_channel.write(m1_raw)\n", "        await self.clear_channel.write(m1_raw)\n        self.m1_hash = self.saltlib.sha512(m1_raw)\n")]),
 'v_ssplit': (SS, [("        await self.do_m2()\n        self.create_encrypted_channel()\n\n        await self.do_m3()\n        await self.do_m4()\n        self.validate_signature2()\n", "        for step in (self.do_m2, self._secure, self.do_m3, self.do_m4):\n            await step()\n        self.validate_signature2()\n\n    async def _secure(self):\n        self.create_encrypted_channel()\n")]),
 'v_ssm1': (SS, [("        if self.m1.data.Header.ServerSigKeyIncluded and self.sig_keypair.pub != self.m1.ServerSigKey:\n            m2 = M2Packet()\n            m2.data.Time = self.time_keeper.get_first_time()\n            m2.data.Header.NoSuchServer = 1\n            await self.clear_channel.write(bytes(m2), is_last=True)\n            raise saltchannel.exceptions.NoSuchServerException()\n", "        if not self._addressed_to_me():\n            await self._refuse()\n"), ("    async def do_m2(self):", "    def _addressed_to_me(self):\n        if not self.m1.data.Header.ServerSigKeyIncluded:\n            return True\n        return self.m1.ServerSigKey == self.sig_keypair.pub\n\n    async def _refuse(self):\n        m2 = M2Packet()\n        m2.data.Header.NoSuchServer = 1\n        m2.data.Time = self.time_keeper.get_first_time()\n        await self.clear_channel.write(bytes(m2), is_last=True)\n        raise saltchannel.exceptions.NoSuchServerException()\n\n    async def do_m2(self):")]),
 'v_ssa2': (SS, [("        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:\n            a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)\n        elif self.a2:\n            a2 = self.a2  # use injected a2\n        else:\n            a2 = A2Packet(case=A2Packet.Case.A2_DEFAUT)\n", "        mine = a1.data.AddressType != A1Packet.ADDRESS_TYPE_PUBKEY or a1.Address == self.sig_keypair.pub\n        a2 = (self.a2 or A2Packet(case=A2Packet.Case.A2_DEFAUT)) if mine else A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)\n")]),
 'v_sockview': (CH, [("        buf = bytearray()\n        while count:\n            newbuf = self.sock.recv(count)\n            if not newbuf: return (bytes(buf), False)\n            buf.extend(newbuf)\n            count -= len(newbuf)\n        return (bytes(buf), True)", "        chunks = []\n        missing = count\n        while missing:\n            chunk = self.sock.recv(missing)\n            if not chunk:\n                break\n            chunks.append(chunk)\n            missing -= len(chunk)\n        return (b''.join(chunks), not missing)")]),
 'v_sockfrom': (CH, [("           msg_len = struct.unpack('<i', len_buf)\n           msg, success = self.recvall(msg_len[0])\n", "           size = int.from_bytes(len_buf, 'little', signed=True)\n           msg, success = self.recvall(size)\n")]),
 'v_sockwrite': (CH, [("        raw = bytearray()\n        try:\n            for msg in (message,) + args:\n                raw.extend(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))\n            self.sock.sendall(bytes(raw))\n", "        try:\n            frames = [struct.pack('<i', len(m)) + bytes(m) for m in itertools.chain([message], args)]\n            self.sock.sendall(b''.join(frames))\n"), ("import struct\n", "import itertools\nimport struct\n")]),
 'v_syncpartial': (UI, [("        def sync_func(self, *args, **kwargs):\n            meth = getattr(self, func)\n            return self.loop.run_until_complete(meth(*args, **kwargs))\n        return sync_func", "        call = operator.attrgetter(func)\n\n        def sync_func(self, *args, **kwargs):\n            coro = call(self)(*args, **kwargs)\n            return self.loop.run_until_complete(coro)\n        return sync_func"), ("import ctypes\n", "import ctypes\nimport operator\n")]),
 'v_setattr': (UP, [("        if name in [\"data\", \"opt\"] or isinstance(getattr(type(self), name, None), property):\n            super().__setattr__(name, value)\n        else:\n            setattr(self.data, name, util.cbytes(value))", "        own = name in (\"data\", \"opt\") or self._is_property(name)\n        if not own:\n            setattr(self.data, name, util.cbytes(value))\n            return\n        super().__setattr__(name, value)\n\n    @classmethod\n    def _is_property(cls, name):\n        return isinstance(getattr(cls, name, None), property)")]),
 'v_time': (UT, [("        if time not in [0,1]:\n            raise BadPeer(\"bad first time, \" + str(time))", "        if 0 <= time <= 1:\n            return\n        raise BadPeer(\"bad first time, {}\".format(time))")]),
 'v_a2valid': (AP, [("        for i, prot in enumerate(self.opt.Prot):\n            if not prot.validate():\n                raise BadPeer(\"Invalid P1, Proto: \", i)", "        bad = [i for i, prot in enumerate(self.opt.Prot) if not prot.validate()]\n        if bad:\n            raise BadPeer(\"Invalid P1, Proto: \", bad[0])")]),
 'v_a2all': (AP, [("        for i, prot in enumerate(self.opt.Prot):\n            if not prot.validate():\n                raise BadPeer(\"Invalid P1, Proto: \", i)", "        if not all(prot.validate() for prot in self.opt.Prot):\n            raise BadPeer(\"Invalid protocol string\")")]),
 'v_a1table': (AP, [("        if self.data.AddressType == type(self).ADDRESS_TYPE_ANY:\n            if self.data.AddressSize:\n                raise BadPeer(\"Address must be empty for ADDRESS_TYPE_ANY type: \", self.data.AddressSize)\n        elif self.data.AddressType == type(self).ADDRESS_TYPE_PUBKEY:\n            if self.data.AddressSize != 32: # 32-byte public signing keys are defined in SaltCahnnel v2 specs\n                raise BadPeer(\"Wrong AddressSize for ADDRESS_TYPE_PUBKEY: \", self.data.AddressSize)\n        else:\n            raise BadPeer(\"AddressType is unknown: \", self.data.AddressType)", "        sizes = {self.ADDRESS_TYPE_ANY: 0, self.ADDRESS_TYPE_PUBKEY: 32}\n        try:\n            expected = sizes[self.data.AddressType]\n        except KeyError:\n            raise BadPeer(\"AddressType is unknown: \", self.data.AddressType) from None\n        if self.data.AddressSize != expected:\n            raise BadPeer(\"Wrong AddressSize: \", self.data.AddressSize)")]),
 'v_best': (SL, [("            for t, api in sorted(SaltLib.lib_map.items()):\n                if api.isAvailable():\n                    return api\n            raise NoSuchLibException\n        else:\n            return", "            api = next((SaltLib.lib_map[t] for t in sorted(SaltLib.lib_map) if SaltLib.lib_map[t].isAvailable()), None)\n            if api is None:\n                raise NoSuchLibException\n            return api\n        else:\n            return")]),
 'v_mitmsum': (MC, [("        for m in (msg,) + args:\n            self.counter_write += len(m)\n", "        self.counter_write += sum(map(len, (msg, *args)))\n")]),
 'v_mitmnote': (MC, [("        self.counter_read += len(data)\n        if self.log:\n            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.READ, data=data))\n        return data\n", "        return self._note_read(data)\n"), ("    async def read(self):", "    def _note_read(self, data):\n        self.counter_read += len(data)\n        if self.log:\n            self._log_event(self.LogRecord(time.perf_counter(), MitmEventType.READ, data))\n        return data\n\n    async def read(self):")]),
}

"""Variants of the file format code (C01, C02, C04, C05, C17, C20)."""
K = 'kdbx_parsing/'
ENC = """        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text is not None:
                elem.text = base64.b64encode(
                    cipher.encrypt(
                        elem.text.encode('utf-8')
                    )
                )
        return tree_copy
"""
C = K + "common.py"
V = [
 ('prot-iter', 'C17', True, [(C, 'for elem in tree_copy.xpath(self.protected_xpath):\n            if elem.text is not None:', "for elem in tree_copy.iter('Value'):\n            if elem.get('Protected') == 'True' and elem.text is not None:")]),
 ('prot-comp', 'C17', True, [(C, ENC, """        protected = [e for e in tree_copy.xpath(self.protected_xpath) if e.text is not None]
        for elem in protected:
            encrypted = cipher.encrypt(elem.text.encode())
            elem.text = base64.b64encode(encrypted).decode('ascii')
        return tree_copy
""")]),
 ('prot-helper', 'C17', True, [(C, ENC, """        for elem in tree_copy.xpath(self.protected_xpath):
            self._protect(elem, cipher)
        return tree_copy

    @staticmethod
    def _protect(elem, cipher):
        text = elem.text
        if not text:
            return
        data = text.encode('utf-8')
        elem.text = base64.b64encode(cipher.encrypt(data))
""")]),
 ('prot-continue', 'C17', True, [(C, "            if elem.text is not None:\n                try:\n                    result = cipher", "            if elem.text is None:\n                continue\n            if True:\n                try:\n                    result = cipher")]),
 ('prot-root', 'C17', True, [(C, 'for elem in tree_copy.xpath(self.protected_xpath)', "for elem in tree_copy.getroot().findall(\".//Value[@Protected='True']\")")]),
 ('prot-key', 'C17', True, [(C, """        key = key_hash[:32]
        nonce = key_hash[32:44]
        return ChaCha20.new(
            key=key,
            nonce=nonce
        )""", """        return ChaCha20.new(nonce=key_hash[32:32 + 12], key=key_hash[0:32])""")]),
 ('bad-prot-newcipher', 'C17', False, [(C, "                elem.text = base64.b64encode(\n", "                cipher = self.get_cipher(self.protected_stream_key(con))\n                elem.text = base64.b64encode(\n")]),
 ('bad-prot-inplace', 'C17', False, [(C, 'tree_copy = deepcopy(tree)', 'tree_copy = tree')]),
 ('bad-prot-strip', 'C17', False, [(C, "                        elem.text.encode('utf-8')", "                        elem.text.strip().encode('utf-8')")]),
 ('bad-prot-order', 'C17', False, [(C, 'in tree_copy.xpath(self.protected_xpath)', 'in reversed(tree_copy.xpath(self.protected_xpath))')]),
 ('bad-prot-string', 'C17', False, [(C, "'//Value[@Protected=", "'//String/Value[@Protected=")]),
 ('bad-prot-any', 'C17', False, [(C, "protected_xpath = '//Value[@Protected=\\'True\\']'", "protected_xpath = '//*[@Protected]'")]),
 ('bad-prot-sub', 'C17', False, [(C, "'[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+'", "'[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD]+'")]),
 ('bad-prot-nonce', 'C17', False, [(C, "key_hash[32:44]", "key_hash[-12:]")]),
 ('bad-prot-empty', 'C17', False, [(C, "            if elem.text is not None:\n                elem.text", "            if elem.text is not None and elem.text.strip():\n                elem.text")]),
]
K3, K4, PK = K + 'kdbx3.py', K + 'kdbx4.py', 'pykeepass.py'
SPLITW = """        blocks = []
        # split payload_data into 1 MB blocks (spec default)
        i = 0
        while i < len(payload_data):
            blocks.append(Container(block_data=payload_data[i:i + 2**20]))
            i += 2**20
        blocks.append(Container(block_data=b''))

        return blocks
"""
CACHE = """        compressobj = zlib.compressobj(
            6,
            zlib.DEFLATED,
            16 + 15,
            zlib.DEF_MEM_LEVEL,
            0
        )
        data = compressobj.compress(data)
        data += compressobj.flush()
        return data
"""
V += [
 ('blk-range', 'C01', True, [(C, SPLITW, """        blocks = []
        for start in range(0, len(payload_data), 2**20):
            blocks.append(Container(block_data=payload_data[start:start + 2**20]))
        blocks.append(Container(block_data=b''))
        return blocks
""")]),
 ('blk-comp', 'C01', True, [(C, SPLITW, """        size = 2**20
        blocks = [Container(block_data=payload_data[i:i + size]) for i in range(0, len(payload_data), size)]
        return blocks + [Container(block_data=b'')]
""")]),
 ('blk-helper', 'C01', True, [(C, SPLITW, """        blocks = list(self._split(payload_data))
        blocks.append(Container(block_data=b''))
        return blocks

    def _split(self, data, size=1024 * 1024):
        out = []
        pos = 0
        while pos < len(data):
            out.append(Container(block_data=data[pos:pos + size]))
            pos += size
        return out
""")]),
 ('blk-rest', 'C01', True, [(C, SPLITW, """        blocks = []
        rest = payload_data
        while rest:
            blocks.append(Container(block_data=rest[:2**20]))
            rest = rest[2**20:]
        blocks.append(Container(block_data=b''))
        return blocks
""")]),
 ('blk-dec-loop', 'C01', True, [(C, "        return b''.join([block.block_data for block in blocks])", "        data = b''\n        for block in blocks:\n            data += block.block_data\n        return data")]),
 ('blk-dec-gen', 'C01', True, [(C, "        return b''.join([block.block_data for block in blocks])", "        return b''.join(b['block_data'] for b in blocks if True)")]),
 ('dict-items', 'C01', True, [(C, """        l = []
        for key in obj:
            if key in self.lump:
                l += obj[key]
            else:
                l.append(obj[key])

        return ListContainer(l)""", """        items = ListContainer()
        for key, value in obj.items():
            if key in self.lump:
                items.extend(value)
            else:
                items.append(value)
        return items""")]),
 ('zlib-oneshot', 'C01', True, [(C, CACHE, "        compressobj = zlib.compressobj(wbits=31)\n        return compressobj.compress(data) + compressobj.flush()\n")]),
 ('pad-helper', 'C01', True, [(C, "class AES256Payload(DecryptedPayload):\n    def get_cipher(self, master_key, encryption_iv):\n        return AES.new(master_key, AES.MODE_CBC, encryption_iv)\n    def pad(self, data):\n        return CryptoPadding.pad(data, 16)\n    def unpad(self, data):\n        return CryptoPadding.unpad(data, 16)\n",
   "class BlockPayload(DecryptedPayload):\n    block_size = 16\n\n    def pad(self, data):\n        return CryptoPadding.pad(data, self.block_size)\n\n    def unpad(self, data):\n        return CryptoPadding.unpad(data, self.block_size)\n\n\nclass AES256Payload(BlockPayload):\n    def get_cipher(self, master_key, encryption_iv):\n        return AES.new(key=master_key, mode=AES.MODE_CBC, iv=encryption_iv)\n")]),
 ('read-kwargs', 'C01', True, [(PK, """            if hasattr(filename, "read"):
                self.kdbx = KDBX.parse_stream(
                    filename,
                    password=password,
                    keyfile=keyfile,
                    transformed_key=transformed_key,
                    decrypt=decrypt
                )
            else:
                self.kdbx = KDBX.parse_file(
                    filename,
                    password=password,
                    keyfile=keyfile,
                    transformed_key=transformed_key,
                    decrypt=decrypt
                )
""", """            parse = KDBX.parse_stream if hasattr(filename, "read") else KDBX.parse_file
            context = dict(password=password, keyfile=keyfile, transformed_key=transformed_key, decrypt=decrypt)
            self.kdbx = parse(filename, **context)
""")]),
 ('decode-notry', 'C01', True, [(C, "        payload_data = cipher.decrypt(payload_data)\n", "        decrypted = cipher.decrypt(payload_data)\n        payload_data = decrypted\n")]),
 ('bad-blk-lt', 'C01', False, [(C, "while i < len(payload_data):", "while i + 1 < len(payload_data):")]),
 ('bad-blk-size', 'C01', False, [(C, "            i += 2**20\n", "            i += 2**20 + 1\n")]),
 ('bad-blk-noempty', 'C01', False, [(C, "            i += 2**20\n        blocks.append(Container(block_data=b''))", "            i += 2**20\n        if not len(payload_data) % 2**20:\n            blocks.append(Container(block_data=b''))\n        else:\n            blocks[-1:] = [blocks[-1], Container(block_data=b'')]\n        if len(blocks) > 3:\n            blocks.pop()")]),
 ('bad-blk-limit', 'C01', False, [(C, "while i < len(payload_data):", "while i < len(payload_data) and len(blocks) < 4096:")]),
 ('bad-dup-bin', 'C01', False, [(C, "                l += obj[key]\n", "                l += [x for n, x in enumerate(obj[key]) if x not in obj[key][:n]]\n")]),
 ('bad-reverse-bin', 'C01', False, [(C, "                l += obj[key]\n", "                l += reversed(obj[key])\n")]),
 ('bad-chacha-iv', 'C02', False, [(C, "ChaCha20.new(key=master_key, nonce=encryption_iv)", "ChaCha20.new(key=master_key, nonce=encryption_iv[:8])")]),
 ('bad-unpad', 'C01', False, [(C, "class TwoFishPayload(DecryptedPayload):\n    def get_cipher(self, master_key, encryption_iv):\n        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)\n    def pad(self, data):\n        return CryptoPadding.pad(data, 16)", "class TwoFishPayload(DecryptedPayload):\n    def get_cipher(self, master_key, encryption_iv):\n        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)\n    def pad(self, data):\n        return CryptoPadding.pad(data, 16) if len(data) % 16 else data")]),
 ('bad-int-signed', 'C01', False, [(K4, "             0x05: Int64ul,", "             0x05: Int64sl,")]),
 ('bad-int-32', 'C01', False, [(K4, "             0x0D: Int64sl,", "             0x0D: Int32sl,")]),
 ('bad-minor', 'C01', False, [(K + 'kdbx.py', '"minor_version" / Int16ul', '"minor_version" / Byte'), (K + 'kdbx.py', 'import Bytes, ', 'import Byte, Padding, Bytes, '), (K + 'kdbx.py', '            "major_version" / Int16ul,', '            Padding(1),\n            "major_version" / Int16ul,')]),
 ('bad-text-strip', 'C01', False, [(C, "        return etree.tostring(tree)", "        for el in tree.iter('Value'):\n            if el.text is not None:\n                el.text = el.text.rstrip('\\r')\n        return etree.tostring(tree)")]),
 ('bad-decompress', 'C01', False, [(C, "        return zlib.decompress(data, 16 + 15)", "        return zlib.decompress(data, 16 + 15)[:2**27]")]),
]
P = 'pykeepass.py'
_TRY = """            try:
                KDBX.build_file(
                    self.kdbx,
                    filename_tmp,
                    password=self.password,
                    keyfile=self.keyfile,
                    transformed_key=transformed_key,
                    decrypt=True
                )
                shutil.move(filename_tmp, filename)
            except Exception as e:
                if filename_tmp.exists():
                    os.remove(filename_tmp)
                raise e
"""
_ARGS = "password=self.password, keyfile=self.keyfile, transformed_key=transformed_key, decrypt=True"
V += [
 ('save-replace', 'C05', True, [(P, "shutil.move(filename_tmp, filename)", "os.replace(filename_tmp, filename)")]),
 ('save-finally', 'C05', True, [(P, _TRY, """            try:
                with open(filename_tmp, 'w+b') as out:
                    KDBX.build_stream(self.kdbx, out, %s)
                filename_tmp.replace(filename)
            finally:
                filename_tmp.unlink(missing_ok=True)
""" % _ARGS)]),
 ('save-memory', 'C05', True, [(P, _TRY, """            data = KDBX.build(self.kdbx, %s)
            try:
                with open(filename_tmp, 'wb') as out:
                    out.write(data)
                os.rename(filename_tmp, filename)
            except BaseException:
                if os.path.exists(filename_tmp):
                    os.unlink(filename_tmp)
                raise
""" % _ARGS)]),
 ('save-helper', 'C05', True, [(P, _TRY, "            self._write(filename_tmp, filename, transformed_key)\n"), (P, "    def save(self,", """    def _write(self, tmp, target, transformed_key):
        kw = dict(%s)
        try:
            KDBX.build_file(self.kdbx, tmp, **kw)
            shutil.move(str(tmp), target)
        except Exception:
            if os.path.isfile(tmp):
                tmp.unlink()
            raise

    def save(self,""" % _ARGS)]),
 ('save-str', 'C05', True, [(P, "Path('{}.tmp'.format(filename))", "Path(str(filename) + '.tmp')")]),
 ('save-fstr', 'C05', True, [(P, "Path('{}.tmp'.format(filename))", "Path(f'{filename}.tmp')"), (P, "        if not filename:\n            filename = self.filename\n\n        if hasattr(filename, \"write\")", "        filename = filename or self.filename\n        to_stream = hasattr(filename, 'write')\n        if to_stream")]),
 ('bad-save-copy', 'C05', False, [(P, "                shutil.move(filename_tmp, filename)", "                shutil.copyfile(filename_tmp, filename)\n                os.remove(filename_tmp)")]),
 ('bad-save-suffix', 'C05', False, [(P, "Path('{}.tmp'.format(filename))", "Path(filename).with_suffix('.tmp')")]),
 ('bad-save-direct', 'C05', False, [(P, "filename_tmp = Path('{}.tmp'.format(filename))", "filename_tmp = Path('{}.tmp'.format(filename))\n            if not os.path.exists(filename):\n                filename_tmp = Path(filename)")]),
 ('bad-save-setname', 'C05', False, [(P, "                shutil.move(filename_tmp, filename)", "                shutil.move(filename_tmp, filename)\n                self.filename = filename")]),
 ('bad-save-swallow', 'C05', False, [(P, "                    os.remove(filename_tmp)\n                raise e", "                    os.remove(filename_tmp)\n                if not isinstance(e, FileNotFoundError) or True:\n                    return")]),
 ('bad-save-backup', 'C05', False, [(P, _TRY, """            if os.path.exists(filename):
                shutil.copy2(filename, filename_tmp)
            try:
                KDBX.build_file(self.kdbx, filename, %s)
            except Exception as e:
                if filename_tmp.exists():
                    shutil.move(filename_tmp, filename)
                raise e
            if filename_tmp.exists():
                os.remove(filename_tmp)
""" % _ARGS)]),
 ('bad-save-inplace', 'C05', False, [(C, "tree_copy = deepcopy(tree)", "tree_copy = tree")]),
 ('bad-save-keeptmp', 'C05', False, [(P, "                if filename_tmp.exists():\n", "                if filename_tmp.exists() and not os.path.exists(filename):\n")]),
 ('bad-save-late', 'C05', False, [(P, _TRY, """            with open(filename_tmp, 'wb') as out:
                try:
                    KDBX.build_stream(self.kdbx, out, %s)
                    shutil.move(filename_tmp, filename)
                except Exception:
                    os.remove(filename_tmp)
                    raise
""" % _ARGS)]),
]

_CR = """    keepass_instance.filename = filename
    keepass_instance.password = password
    keepass_instance.keyfile = keyfile

    keepass_instance.save(transformed_key=transformed_key)
"""
_RL = "        self.read(self.filename, self.password, self.keyfile)\n"
V += [
 ('create-order', 'C20', True, [(P, _CR, """    keepass_instance.keyfile = keyfile
    keepass_instance.password = password
    keepass_instance.filename = filename
    keepass_instance.save(filename, transformed_key)
""")]),
 ('create-with', 'C20', True, [(P, """    keepass_instance = PyKeePass(
        BLANK_DATABASE_LOCATION, BLANK_DATABASE_PASSWORD
    )
""", """    with open(BLANK_DATABASE_LOCATION, 'rb') as template:
        keepass_instance = PyKeePass(template, password=BLANK_DATABASE_PASSWORD)
""")]),
 ('reload-kw', 'C20', True, [(P, _RL, "        self.read(password=self._password, keyfile=self._keyfile)\n")]),
 ('reload-init', 'C20', True, [(P, _RL, "        fresh = type(self)(self.filename, self.password, self.keyfile)\n        self.kdbx = fresh.kdbx\n")]),
 ('read-args', 'C20', True, [(P, "        if filename:\n            self.filename = filename\n        else:\n            filename = self.filename\n", "        self.filename = filename = filename or self.filename\n")]),
 ('bad-create-key', 'C20', False, [(P, _CR, _CR.replace("    keepass_instance.keyfile = keyfile\n", "    if not password:\n        keepass_instance.keyfile = keyfile\n"))]),
 ('bad-create-pw', 'C20', False, [(P, _CR, _CR.replace("    keepass_instance.password = password\n", "    if password:\n        keepass_instance.password = password\n"))]),
 ('bad-create-after', 'C20', False, [(P, _CR, _CR.replace("    keepass_instance.keyfile = keyfile\n", "").replace("=transformed_key)\n", "=transformed_key)\n    keepass_instance.keyfile = keyfile\n"))]),
 ('bad-create-name', 'C20', False, [(P, _CR, "    keepass_instance.password = password\n    keepass_instance.keyfile = keyfile\n    keepass_instance.save(filename, transformed_key)\n")]),
 ('bad-create-tk', 'C20', False, [(P, _CR, _CR.replace("    keepass_instance.save(transformed_key=transformed_key)", "    if password is None and keyfile is None:\n        keepass_instance.save(transformed_key=transformed_key)\n    else:\n        keepass_instance.save()"))]),
 ('bad-reload-pw', 'C20', False, [(P, _RL, "        self.read(self.filename, self.password or None, self.keyfile)\n")]),
 ('bad-reload-skip', 'C20', False, [(P, _RL, "        old = self.kdbx\n        self.read(self.filename, self.password, self.keyfile)\n        if self.password == '' :\n            self.kdbx = old\n")]),
 ('bad-reload-cache', 'C20', False, [(P, "        return self.payload.xml\n", "        if not hasattr(self, '_tree'):\n            self._tree = self.payload.xml\n        return self._tree\n")]),
 ('bad-reload-saveas', 'C20', False, [(P, "                shutil.move(filename_tmp, filename)\n", "                shutil.move(filename_tmp, filename)\n                self._last = filename\n"), (P, _RL, "        self.read(getattr(self, '_last', self.filename), self.password, self.keyfile)\n")]),
]
K3 = K + 'kdbx3.py'
_BLK4 = """        Checksum(
            Bytes(32),
            compute_payload_block_hash,
            this,
            # exception=PayloadChecksumError
        )
"""
_CK3 = """            lambda block_data: hashlib.sha256(block_data).digest(),
                this.block_data,"""
_MAP = P_READ = """        except ChecksumError as e:
            if e.path in (
                    '(parsing) -> body -> cred_check', # KDBX4
                    '(parsing) -> cred_check' # KDBX3
                    ):
                raise CredentialsError("Invalid credentials")
            elif e.path == '(parsing) -> body -> sha256':
                raise HeaderChecksumError("Corrupted database")
            elif e.path in (
                    '(parsing) -> body -> payload -> hmac_hash', # KDBX4
                    '(parsing) -> xml -> block_hash' # KDBX3
                    ):
                raise PayloadChecksumError("Error reading database contents")
            else:
                raise
"""
_HASH4 = """    return hmac.new(
        hashlib.sha512(
            struct.pack('<Q', this._index) +
            hashlib.sha512(
                this._._.header.value.dynamic_header.master_seed.data +
                this._.transformed_key + b'\\x01'
            ).digest()
        ).digest(),
        struct.pack('<Q', this._index) +
        struct.pack('<I', len(this.block_data)) +
        this.block_data, hashlib.sha256
    ).digest()
"""
V += [
 ('any-read-dict', 'C02 C04', True, [(P, _MAP, """        except ChecksumError as e:
            error = {
                '(parsing) -> body -> cred_check': (CredentialsError, "Invalid credentials"),
                '(parsing) -> cred_check': (CredentialsError, "Invalid credentials"),
                '(parsing) -> body -> sha256': (HeaderChecksumError, "Corrupted database"),
                '(parsing) -> body -> payload -> hmac_hash': (PayloadChecksumError, "Error reading database contents"),
                '(parsing) -> xml -> block_hash': (PayloadChecksumError, "Error reading database contents"),
            }.get(e.path)
            if error is None:
                raise
            raise error[0](error[1])
""")]),
 ('any-read-last', 'C02 C04', True, [(P, _MAP, """        except ChecksumError as e:
            field = e.path.split(' -> ')[-1]
            if field == 'cred_check':
                raise CredentialsError("Invalid credentials") from e
            if field == 'sha256':
                raise HeaderChecksumError("Corrupted database") from e
            if field in ('hmac_hash', 'block_hash'):
                raise PayloadChecksumError("Error reading database contents") from e
            raise
""")]),
 ('any-hmac-helper', 'C02 C04', True, [(K4, _HASH4, """    index = struct.pack('<Q', this._index)
    seed = this._._.header.value.dynamic_header.master_seed.data
    key = _hmac_key(index, seed, this._.transformed_key)
    mac = hmac.new(key, digestmod=hashlib.sha256)
    mac.update(index)
    mac.update(struct.pack('<I', len(this.block_data)))
    mac.update(this.block_data)
    return mac.digest()


def _hmac_key(index, seed, transformed_key):
    inner = hashlib.sha512(b''.join((seed, transformed_key, b'\\x01')))
    return hashlib.sha512(index + inner.digest()).digest()
""")]),
 ('any-hash3', 'C02 C04', True, [(K3, """        IfThenElse(
            len_(this.block_data) == 0,
            Checksum(
                Bytes(32),
                lambda _: b'\\x00' * 32,
                this
            ),
            Checksum(
                Bytes(32),
                lambda block_data: hashlib.sha256(block_data).digest(),
                this.block_data,
                # exception=PayloadChecksumError
            )
        )
""", """        Checksum(
            Bytes(32),
            lambda block_data: hashlib.sha256(block_data).digest() if block_data else bytes(32),
            this.block_data,
        )
""")]),
 ('any-sig', 'C02 C04', True, [(K + 'kdbx.py', "    return ctx.sig1 == b'\\x03\\xd9\\xa2\\x9a' and ctx.sig2 == b'\\x67\\xFB\\x4B\\xB5'", "    return (ctx.sig1, ctx.sig2) == (b'\\x03\\xd9\\xa2\\x9a', b'\\x67\\xfb\\x4b\\xb5')")]),
 ('any-decode', 'C02 C04', True, [(C, """        payload_data = cipher.decrypt(payload_data)
""", """        decrypted = cipher.decrypt(payload_data)
        payload_data = decrypted
"""), (C, """        try:
            payload_data = self.unpad(payload_data)
        except ValueError:
            log.debug("Decryption unpadding failed")

        return payload_data
""", """        try:
            return self.unpad(decrypted)
        except ValueError:
            log.debug("Decryption unpadding failed")
            return decrypted
""")]),
 ('bad-any-last4', 'C02', False, [(K4, _BLK4, "        If(lambda this: len(this.block_data) > 0,\n" + _BLK4 + "        )\n")]),
 ('bad-any-index16', 'C02', False, [(K4, "struct.pack('<Q', this._index) +\n        struct.pack('<I'", "struct.pack('<Q', this._index % 2**16) +\n        struct.pack('<I'"), (K4, "            struct.pack('<Q', this._index) +\n            hashlib", "            struct.pack('<Q', this._index % 2**16) +\n            hashlib")]),
 ('bad-any-short', 'C02', False, [(K4, "    lambda item, a, b: len(item.block_data) == 0,", "    lambda item, a, b: len(item.block_data) < 2**20,")]),
 ('bad-any-noindex3', 'C02', False, [(K3, """    "block_index" / Checksum(
        Int32ul,
        lambda this: this._index,
        this
    ),
""", """    "block_index" / Rebuild(Int32ul, this._index),
"""), (K3, "    Prefixed,\n", "    Prefixed,\n    Rebuild,\n")]),
 ('bad-any-big3', 'C02', False, [(K3, "                lambda block_data: hashlib.sha256(block_data).digest(),\n                this.block_data,", "                lambda block_data: hashlib.sha256(block_data).digest(),\n                lambda this: this.block_data if len(this.block_data) < 2**20 else this.block_data[:2**20],")]),
 ('bad-any-last3', 'C02', False, [(K3, "lambda item, a, b: len(item.block_data) == 0,", "lambda item, a, b: len(item.block_data) == 0 or len(a) > 4095,")]),
 ('bad-any-hdrhmac', 'C02', False, [(K4, """    "cred_check" / If(this._._.decrypt,""", """    "cred_check" / If(lambda this: this._._.decrypt and (this._._.password is not None or this._._.keyfile is not None),""")]),
 ('bad-any-order', 'C04', False, [(P, "            elif e.path == '(parsing) -> body -> sha256':", "            elif e.path == '(parsing) -> body -> sha256' and password is None:")]),
 ('bad-any-pay3', 'C04', False, [(P, "                    '(parsing) -> xml -> block_hash' # KDBX3\n", "                    '(parsing) -> payload -> block_hash' # KDBX3\n")]),
 ('bad-any-else', 'C04', False, [(P, """                raise PayloadChecksumError("Error reading database contents")
            else:
                raise
""", """                raise PayloadChecksumError("Error reading database contents")
            else:
                raise PayloadChecksumError(str(e))
""")]),
 ('bad-any-superclass', 'C04', False, [(P, "        except CheckError as e:\n            if e.path == '(parsing) -> header -> sig_check':", "        except (CheckError, StreamError) as e:\n            if e.path and e.path.startswith('(parsing) -> header'):"), (P, "from construct import ", "from construct import StreamError, ")]),
 ('bad-any-valueerr', 'C04', False, [(P, "        # body integrity/verification\n        except ChecksumError as e:", "        except ValueError:\n            raise CredentialsError('Invalid credentials')\n\n        # body integrity/verification\n        except ChecksumError as e:")]),
 ('bad-any-sig2', 'C04', False, [(K + 'kdbx.py', "    return ctx.sig1 == b'\\x03\\xd9\\xa2\\x9a' and ctx.sig2 == b'\\x67\\xFB\\x4B\\xB5'", "    return ctx.sig1 == b'\\x03\\xd9\\xa2\\x9a' and ctx.sig2[1:] == b'\\xFB\\x4B\\xB5'")]),
 ('bad-any-chkorder', 'C04', False, [(K4, """            compute_header_hmac_hash,
            this,
            # exception=CredentialsError,
        )
    ),
""", """            compute_header_hmac_hash,
            this,
            # exception=CredentialsError,
        )
    ),
""".replace("compute_header_hmac_hash,", "lambda this: compute_header_hmac_hash(this) if this.sha256 != bytes(32) else bytes(32),"))]),
 ('bad-any-unpad', 'C04', False, [(C, "        except ValueError:\n            log.debug(\"Decryption unpadding failed\")\n", "        except ValueError:\n            log.debug(\"Decryption unpadding failed\")\n            payload_data = payload_data[:-16]\n            if len(payload_data) < 2**20:\n                payload_data = b''\n")]),
]

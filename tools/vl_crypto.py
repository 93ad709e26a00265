"""Rewrites of the key derivation and Twofish code."""
C, T, P = 'kdbx_parsing/common.py', 'kdbx_parsing/twofish.py', 'kdbx_parsing/pytwofish.py'
KDF = "    transformed_key = key_composite\n    for _ in range(0, rounds):\n        transformed_key = cipher.encrypt(transformed_key)\n\n    return hashlib.sha256(transformed_key).digest()\n"
ENC = """            encrypted_blocks = b''
            self.cache += data
            if len(self.cache) < self.blocksize:
                return b''
            for i in range(0, len(self.cache)-self.blocksize+1, self.blocksize):
                self.IV = self.codebook.encrypt(strxor(self.cache[i:i+self.blocksize],self.IV))
                encrypted_blocks += self.IV
            self.cache = self.cache[i+self.blocksize:]
            return encrypted_blocks
        else:
            decrypted_blocks = b''
            self.cache += data
            if len(self.cache) < self.blocksize:
                return b''
            for i in range(0, len(self.cache)-self.blocksize+1, self.blocksize):
                plaintext = strxor(self.IV,self.codebook.decrypt(self.cache[i:i + self.blocksize]))
                self.IV = self.cache[i:i + self.blocksize]
                decrypted_blocks+=plaintext
            self.cache = self.cache[i+self.blocksize:]
            return decrypted_blocks
"""
KEYL = """        i = 0
        while key:
            key_word32[i] = struct.unpack("<L", key[0:4])[0]
            key = key[4:]
            i += 1
"""
BLK = """        while block:
            a, b, c, d = struct.unpack("<4L", block[0:16])
            temp = [a, b, c, d]
            encrypt(self.context, temp)
            ciphertext += struct.pack("<4L", *temp)
            block = block[16:]
"""
V = [
 ('kdf-while-down', 'C03', True, [(C, KDF, "    transformed_key = key_composite\n    while rounds > 0:\n        transformed_key = cipher.encrypt(transformed_key)\n        rounds -= 1\n    return hashlib.sha256(transformed_key).digest()\n")]),
 ('kdf-while-up', 'C03', True, [(C, KDF, "    transformed_key = key_composite\n    done = 0\n    while done < rounds:\n        transformed_key = cipher.encrypt(transformed_key)\n        done += 1\n    return hashlib.sha256(transformed_key).digest()\n")]),
 ('kdf-while-ne', 'C03', True, [(C, KDF, "    transformed_key = key_composite\n    remaining = rounds\n    while remaining:\n        transformed_key = cipher.encrypt(transformed_key)\n        remaining -= 1\n    return hashlib.sha256(transformed_key).digest()\n")]),
 ('kdf-helper', 'C03', True, [(C, KDF, "    transformed_key = _transform(cipher.encrypt, key_composite, rounds)\n    return hashlib.sha256(transformed_key).digest()\n\n\ndef _transform(step, value, count):\n    for _ in range(count):\n        value = step(value)\n    return value\n")]),
 ('kdf-repeat', 'C03', True, [(C, KDF, "    import itertools\n    transformed_key = key_composite\n    for _ in itertools.repeat(None, rounds):\n        transformed_key = cipher.encrypt(transformed_key)\n    return hashlib.sha256(transformed_key).digest()\n")]),
 ('kdf-reduce', 'C03', True, [(C, KDF, "    import functools\n    transformed_key = functools.reduce(lambda k, _: cipher.encrypt(k), range(rounds), key_composite)\n    return hashlib.sha256(transformed_key).digest()\n")]),
 ('kdf-halves', 'C03', True, [(C, KDF, "    left, right = key_composite[:16], key_composite[16:]\n    for _ in range(0, rounds):\n        left = cipher.encrypt(left)\n        right = cipher.encrypt(right)\n    return hashlib.sha256(left + right).digest()\n")]),
 ('kdf-class', 'C03', True, [(C, KDF, "    state = {'key': key_composite}\n    for _ in range(0, rounds):\n        state['key'] = cipher.encrypt(state['key'])\n    return hashlib.sha256(state['key']).digest()\n")]),
 ('bad-kdf-one-less', 'C03', False, [(C, KDF, KDF.replace("range(0, rounds)", "range(1, rounds)"))]),
 ('bad-kdf-32bit', 'C03', False, [(C, KDF, KDF.replace("range(0, rounds)", "range(0, rounds & 0xffffffff)"))]),
 ('bad-kdf-cap', 'C03', False, [(C, KDF, KDF.replace("range(0, rounds)", "range(0, min(rounds, 10 ** 9))"))]),
 ('bad-kdf-zero', 'C03', False, [(C, KDF, KDF.replace("range(0, rounds)", "range(0, rounds or 6000)"))]),
 ('cbc-helper', 'C13', True, [(T, ENC, """            return self._run(data, self._encrypt_block)
        else:
            return self._run(data, self._decrypt_block)

    def _encrypt_block(self, block):
        self.IV = self.codebook.encrypt(strxor(block, self.IV))
        return self.IV

    def _decrypt_block(self, block):
        plaintext = strxor(self.IV, self.codebook.decrypt(block))
        self.IV = block
        return plaintext

    def _run(self, data, step):
        self.cache += data
        blocks = []
        end = len(self.cache) - len(self.cache) % self.blocksize
        for i in range(0, end, self.blocksize):
            blocks.append(step(self.cache[i:i + self.blocksize]))
        self.cache = self.cache[end:]
        return b''.join(blocks)
""")]),
 ('cbc-while', 'C13', True, [(T, ENC, ENC.replace("""            for i in range(0, len(self.cache)-self.blocksize+1, self.blocksize):
                self.IV = self.codebook.encrypt(strxor(self.cache[i:i+self.blocksize],self.IV))
                encrypted_blocks += self.IV
            self.cache = self.cache[i+self.blocksize:]
""", """            while len(self.cache) >= self.blocksize:
                self.IV = self.codebook.encrypt(strxor(self.cache[:self.blocksize],self.IV))
                encrypted_blocks += self.IV
                self.cache = self.cache[self.blocksize:]
"""))]),
 ('cbc-local-iv', 'C13', True, [(T, ENC, ENC.replace("""                self.IV = self.codebook.encrypt(strxor(self.cache[i:i+self.blocksize],self.IV))
                encrypted_blocks += self.IV
            self.cache = self.cache[i+self.blocksize:]
""", """                iv = self.codebook.encrypt(strxor(self.cache[i:i+self.blocksize], iv))
                encrypted_blocks += iv
            self.IV = iv
            self.cache = self.cache[i+self.blocksize:]
""").replace("            encrypted_blocks = b''\n", "            encrypted_blocks = b''\n            iv = self.IV\n"))]),
 ('cbc-generator', 'C13', True, [(T, ENC, """            return b''.join(self._blocks(data, True))
        else:
            return b''.join(self._blocks(data, False))

    def _blocks(self, data, encrypting):
        self.cache += data
        while len(self.cache) >= self.blocksize:
            block, self.cache = self.cache[:self.blocksize], self.cache[self.blocksize:]
            if encrypting:
                block = self.IV = self.codebook.encrypt(strxor(block, self.IV))
                yield block
            else:
                yield strxor(self.IV, self.codebook.decrypt(block))
                self.IV = block
""")]),
 ('key-words', 'C13', True, [(P, KEYL, "        words = struct.unpack('<%dL' % (key_len // 4), key)\n        key_word32[:len(words)] = words\n")]),
 ('key-for', 'C13', True, [(P, KEYL, "        for i in range(key_len // 4):\n            key_word32[i], = struct.unpack('<L', key[4 * i:4 * i + 4])\n")]),
 ('key-int', 'C13', True, [(P, KEYL, "        for i in range(0, key_len, 4):\n            key_word32[i // 4] = int.from_bytes(key[i:i + 4], 'little')\n")]),
 ('block-for', 'C13', True, [(P, BLK, "        for i in range(0, len(block), 16):\n            temp = list(struct.unpack('<4L', block[i:i + 16]))\n            encrypt(self.context, temp)\n            ciphertext += struct.pack('<4L', *temp)\n")]),
 ('bad-cbc-iv', 'C13', False, [(T, ENC, ENC.replace("                self.IV = self.cache[i:i + self.blocksize]\n                decrypted_blocks+=plaintext\n            self.cache", "                decrypted_blocks+=plaintext\n                if i % 64 != 48:\n                    self.IV = self.cache[i:i + self.blocksize]\n            self.cache"))]),
 ('bad-cbc-cache', 'C13', False, [(T, ENC, ENC.replace("            self.cache = self.cache[i+self.blocksize:]\n            return decrypted_blocks", "            self.cache = b''\n            return decrypted_blocks"))]),
]

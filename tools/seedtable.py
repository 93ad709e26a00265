C = 'pykeepass/kdbx_parsing/common.py'; K3 = 'pykeepass/kdbx_parsing/kdbx3.py'; K4 = 'pykeepass/kdbx_parsing/kdbx4.py'
P = 'pykeepass/pykeepass.py'; EN = 'pykeepass/entry.py'; B = 'pykeepass/baseelement.py'; G = 'pykeepass/group.py'; TF = 'pykeepass/kdbx_parsing/twofish.py'

seed('c01-last-byte-block', 'C01', C,
     '        while i < len(payload_data):\n', '        while i + 1 < len(payload_data):\n', '''
from pykeepass.kdbx_parsing.common import Concatenated
from construct import GreedyBytes
c = Concatenated(GreedyBytes)
for n in (0, 1, 5, 2**20 - 1, 2**20, 2**20 + 1, 2**21, 2**21 + 1):
    d = os.urandom(n)
    assert c._decode(c._encode(d, None, None), None, None) == d, n
''', 'a payload whose length is one more than a multiple of 2**20 bytes', 'the last byte of the payload is not written')

seed('c01-dedup-binaries', 'C01', C,
     '''            if item[self.key] in self.lump:
                d[item[self.key]].append(item)''',
     '''            if item[self.key] in self.lump:
                if item.data not in [x.data for x in d[item[self.key]]]:
                    d[item[self.key]].append(item)''', '''
kp = new()
for x in (b'one', b'two', b'one', b'three'): kp.add_binary(x)
e = kp.add_entry(kp.root_group, 'a', 'b', 'c'); e.add_attachment(3, 'f')
kp2 = reopened(kp)
assert kp2.binaries == kp.binaries, kp2.binaries
assert kp2.entries[0].attachments[0].data == b'three'
''', 'two binaries with the same data and flag in a KDBX 4 database that is saved and reopened', 'identical binaries are merged on load, so ids of later binaries shift')

seed('c02-v3-swap-blocks', 'C02', K3,
     '''    "block_index" / Checksum(
        Int32ul,
        lambda this: this._index,
        this
    ),''', '''    "block_index" / Rebuild(Int32ul, lambda this: this._index),''', '''
from pykeepass.kdbx_parsing.kdbx3 import PayloadBlocks
from pykeepass.kdbx_parsing.common import Concatenated
import struct, hashlib
def blk(i, d): return struct.pack('<I', i) + (hashlib.sha256(d).digest() if d else bytes(32)) + struct.pack('<I', len(d)) + d
good = blk(0, b'AAAA') + blk(1, b'BBBB') + blk(2, b'')
assert Concatenated(PayloadBlocks).parse(good) == b'AAAABBBB'
bad = blk(1, b'BBBB') + blk(0, b'AAAA') + blk(2, b'')
try: r = Concatenated(PayloadBlocks).parse(bad)
except Exception: sys.exit(0)
raise SystemExit('accepted swapped blocks: %r' % r)
''', 'a KDBX 3 file of several blocks that were swapped or dropped', 'block positions are no longer verified when a KDBX 3 payload is read',
     extra=[(K3, '    Prefixed,\n', '    Prefixed,\n    Rebuild,\n')])

seed('c02-v4-block-length', 'C02', K4,
     '    lambda item, a, b: len(item.block_data) == 0,\n    EncryptedPayloadBlock',
     '    lambda item, a, b: len(item.block_data) == 0 or item._io.read(1) == b\'\' or item._io.seek(-1, 1) < 0,\n    EncryptedPayloadBlock', '''
kp = new(); kp.add_binary(os.urandom(1 << 20)); b = io.BytesIO(); kp.save(b); d = b.getvalue()
assert PyKeePass(io.BytesIO(d), 'pw').binaries == kp.binaries
try: PyKeePass(io.BytesIO(d[:-36]), 'pw')
except Exception: sys.exit(0)
raise SystemExit('accepted a file without its final block')
''', 'a KDBX 4 file cut off exactly before the final empty block', 'a file that ends before its final block is accepted')

seed('c03-argon2-version', 'C03', K4,
     '''            parallelism=kdf_parameters['P'].value,
            version=kdf_parameters['V'].value
''', '''            parallelism=kdf_parameters['P'].value
''', '''
import argon2, hashlib
from pykeepass.kdbx_parsing import kdbx4
from construct import Container
def V(x): return Container(value=x)
def ctx(ver):
    d = {'$UUID': V(kdbx4.kdf_uuids['argon2']), 'S': V(b's' * 32), 'I': V(1), 'M': V(65536), 'P': V(1), 'V': V(ver)}
    hdr = Container(value=Container(dynamic_header=Container(kdf_parameters=Container(data=Container(dict=d)))))
    return Container(_=Container(header=hdr, _=Container(password='x', keyfile=None, transformed_key=None)))
for ver in (0x13, 0x10):
    want = argon2.low_level.hash_secret_raw(secret=hashlib.sha256(hashlib.sha256(b'x').digest()).digest(), salt=b's' * 32, hash_len=32,
        type=argon2.low_level.Type.D, time_cost=1, memory_cost=64, parallelism=1, version=ver)
    assert kdbx4.compute_transformed(ctx(ver)) == want, ver
''', 'a database whose header asks for Argon2 version 0x10', 'the Argon2 version stored in the header is ignored')

seed('c03-keyx-short-hash', 'C03', C,
     'assert hash == hash_computed, "Keyfile has invalid hash"', 'assert hash_computed.startswith(hash), "Keyfile has invalid hash"', '''
from pykeepass.kdbx_parsing.common import compute_key_composite
def kf(h): return io.BytesIO(('<KeyFile><Meta><Version>2.0</Version></Meta><Key><Data Hash="%s">%s</Data></Key></KeyFile>' % (h, '00' * 32)).encode())
import hashlib
h = hashlib.sha256(bytes(32)).digest()[:4].hex()
compute_key_composite(keyfile=kf(h))
for bad in ('', h[:2], h[:6]):
    try: compute_key_composite(keyfile=kf(bad))
    except AssertionError: continue
    raise SystemExit('accepted hash %r' % bad)
''', 'a version 2 XML key file whose Hash attribute is shorter than four bytes', 'the key file hash is not checked completely')

seed('c04-index-mismatch-is-credentials', 'C04', P,
     '''                raise PayloadChecksumError("Error reading database contents")
            else:
                raise
''', '''                raise PayloadChecksumError("Error reading database contents")
            else:
                raise CredentialsError("Invalid credentials")
''', '''
import struct, hashlib
from pykeepass.exceptions import CredentialsError
from pykeepass.kdbx_parsing import kdbx3
from construct import ChecksumError
import pykeepass.pykeepass as M
class Fake:
    @staticmethod
    def parse_stream(*a, **k): raise ChecksumError('wrong checksum', path='(parsing) -> xml -> block_index')
real, M.KDBX = M.KDBX, Fake
try: PyKeePass(io.BytesIO(b'x'), 'right')
except CredentialsError: raise SystemExit('a block out of sequence was reported as wrong credentials')
except ChecksumError: pass
''', 'a KDBX 3 file with right credentials whose blocks are out of sequence', 'an integrity error of another kind is reported as wrong credentials')

seed('c05-tmp-left-behind', 'C05', P,
     '            except Exception as e:\n                if filename_tmp', '            except OSError as e:\n                if filename_tmp', '''
kp = new(); before = open(kp.filename, 'rb').read()
kp.password = 123     # cannot be encoded: building fails with an AttributeError
try: kp.save()
except Exception: pass
else: raise SystemExit('no error')
assert open(kp.filename, 'rb').read() == before
assert os.listdir(TMP) == ['new.kdbx'], os.listdir(TMP)
''', 'building the content fails with an error other than OSError', 'the temporary file stays behind')

seed('c05-remove-then-move', 'C05', P,
     '                shutil.move(filename_tmp, filename)', '                if os.path.exists(filename):\n                    os.remove(filename)\n                shutil.move(filename_tmp, filename)', '''
kp = new(); before = open(kp.filename, 'rb').read()
real = shutil.move
def dies(*a, **k): raise SystemExit('killed')
shutil.move = dies
try: kp.save()
except SystemExit: pass
shutil.move = real
assert os.path.exists(kp.filename) and open(kp.filename, 'rb').read() == before
''', 'the process dies, or the move fails, between removing the old file and moving the new one', 'the database file is gone for a moment during each save')

seed('c06-notes-from-descendant', 'C06', B,
     '''        v = self._element.find(tag)
        if v is not None:
            return v.text
''', '''        v = self._element.find('.//' + tag)
        if v is not None:
            return v.text
''', '''
kp = new()
a = kp.add_group(kp.root_group, 'a'); b = kp.add_group(a, 'b', notes='of b')
assert a.notes is None, a.notes
e = kp.add_entry(kp.root_group, 't', 'u', 'p', icon='3'); e.save_history()
''', 'an element without the field but with a descendant that has one', 'a group without notes shows the notes of a subgroup')

seed('c06-protect-lost', 'C06', EN,
     '''            if protected_field is not None:
                protected_str = protected_field.attrib.get("Protected")
''', '''            if protected_field is not None and protected_field.text:
                protected_str = protected_field.attrib.get("Protected")
''', '''
kp = new()
e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e._set_string_field('UserName', 'x', protected=True)
e.username = ''
e.username = 'y'
assert e._is_property_protected('UserName')
''', 'a protected field other than the password that is emptied and then written again', 'the protection mark is lost')

seed('c07-move-same-group', 'C07', G,
     '''        else:
            self._element.append(entries._element)
''', '''        elif entries._element.getparent() is not self._element:
            self._element.append(entries._element)
''', '''
kp = new()
a, b = [kp.add_entry(kp.root_group, t, 'u', 'p') for t in 'ab']
kp.move_entry(a, kp.root_group)
assert [e.title for e in kp.root_group.entries] == ['b', 'a'], [e.title for e in kp.root_group.entries]
''', 'moving an entry to the group it is already in', 'the entry does not become the last of the group')

seed('c07-empty-group-history', 'C07', P,
     '''        while len(group.entries):
            self.delete_entry(group.entries[0])
''', '''        for entry in [e for e in self.find_entries(group=group, recursive=False) if e.title is not None]:
            self.delete_entry(entry)
''', '''
kp = new(); g = kp.add_group(kp.root_group, 'g')
e = kp.add_entry(g, 't', 'u', 'p'); f = kp.add_entry(g, 'x', 'u', 'p')
f._element.remove(f._element.find('String'))
kp.empty_group(g)
assert g.entries == [], g.entries
''', 'a group with an entry that has no title', 'emptying a group keeps untitled entries')

seed('c08-nested-bin', 'C08', P,
     'return self.find_groups(uuid=recyclebin_uuid, first=True)', 'return self.find_groups(uuid=recyclebin_uuid, first=True, group=self.root_group, recursive=False)', '''
kp = new(); a = kp.add_group(kp.root_group, 'a')
e, f = [kp.add_entry(kp.root_group, t, 'u', 'p') for t in 'ef']
kp.trash_entry(e); kp.move_group(kp.recyclebin_group, a); kp.trash_entry(f)
assert len(kp.find_groups(name='Recycle Bin')) == 1
''', 'a recycle bin that is not directly below the root group', 'a second recycle bin is created')

seed('c09-history-attachments', 'C09', P,
     "prefix += '[not(ancestor::History)]'", "prefix += '[not(parent::History)]'", '''
kp = new(); e = kp.add_entry(kp.root_group, 't', 'u', 'p'); kp.add_binary(b'x'); e.add_attachment(0, 'f'); e.save_history()
assert len(kp.find_attachments(filename='f')) == 1, kp.find_attachments(filename='f')
''', 'an entry with an attachment and history', 'attachments of history versions are found without being asked for')

seed('c09-tags-any', 'C09', P,
     "kwargs['tags'] = ' and '.join(", "kwargs['tags'] = ' or '.join(", '''
kp = new(); e = kp.add_entry(kp.root_group, 't', 'u', 'p', tags=['red'])
assert kp.find_entries(tags=['red', 'blue']) == []
''', 'a search for several tags where an entry has only some of them', 'an entry with one of the tags is returned')

seed('c10-history-refs', 'C10', P,
     """'//Binary/Value[@Ref > "{}"]/..'.format(id),""", """'//Binary[not(ancestor::History)]/Value[@Ref > "{}"]/..'.format(id),""", '''
kp = new(); e = kp.add_entry(kp.root_group, 't', 'u', 'p')
for x in (b'0', b'1'): kp.add_binary(x)
e.add_attachment(1, 'f'); e.save_history(); kp.delete_binary(0)
assert e.attachments[0].data == b'1'
assert kp.find_attachments(element=e.history[0], history=True)[0].data == b'1'
''', 'a history version with an attachment whose id is above the deleted one', 'attachments in history versions refer to another binary or to none')

seed('c11-empty-history', 'C11', EN,
     '''        hist = archive.find('History')
        if hist is not None:
            archive.remove(hist)''', '''        hist = archive.find('History')
        if hist is not None and len(hist):
            archive.remove(hist)''', '''
kp = new(); e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.save_history(); e.delete_history(e.history[0]); e.title = 'x'; e.save_history()
assert len(e.history) == 1 and e.history[0].title == 'x' and not e._element.findall('History/Entry/History')
''', 'saving to history after the last history item was deleted', 'a second history is created and the new item is not seen')

seed('c12-plain-time-v4', 'C12', P,
     "seconds=struct.unpack('<Q', base64.b64decode(text))[0]", "seconds=struct.unpack_from('<Q', base64.b64decode(text))[0]", '''
kp = new(); e = kp.add_entry(kp.root_group, 't', 'u', 'p')
for t in ('2020-01-02T03:04:05Z', '2020-01-02T05:04:05+02:00', '2020-01-02T03:04:05'):
    e._element.find('Times/CreationTime').text = t
    assert e.ctime == datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone.utc), (t, e.ctime)
''', 'a plaintext time with an offset or Z in a KDBX 4 database', 'the time is misread or raises')

seed('c12-naive-expiry', 'C12', B,
     '''            if prop is not None:
                prop.text = self._kp._encode_time(value)''', '''            if prop is not None:
                if value.utcoffset():
                    value = value.replace(tzinfo=timezone.utc) - timedelta(hours=value.utcoffset().total_seconds() // 3600)
                prop.text = self._kp._encode_time(value)''', '''
kp = new(); e = kp.add_entry(kp.root_group, 't', 'u', 'p')
t = datetime(2030, 1, 1, 12, 0, 0, tzinfo=timezone(timedelta(hours=5, minutes=30)))
e.expiry_time = t
assert e.expiry_time == t, e.expiry_time
''', 'a time with a UTC offset that is not a whole number of hours', 'the minutes of the offset are lost',
     extra=[(B, 'from datetime import datetime, timezone\n', 'from datetime import datetime, timedelta, timezone\n')])

seed('c14-spaces', 'C14', P,
     r"({REF:([TUPANI])@([TUPANI]):([^}]+)})", r"({REF:([TUPANI])@([TUPANI]):([^}\s]+)})", '''
kp = new(); e = kp.add_entry(kp.root_group, 'my mail', 'u', 'p')
assert kp.deref('{REF:P@T:my mail}') == 'p', kp.deref('{REF:P@T:my mail}')
''', 'a reference that searches for a value with a space in it', 'the reference is left unresolved')

seed('c14-order', 'C14', P,
     '''            if ref_entry is None:
                return None
''', '''            if ref_entry is None:
                value = value.replace(ref, '')
                continue
''', '''
kp = new(); e = kp.add_entry(kp.root_group, 'a', '{REF:P@T:missing}', 'p')
assert kp.deref('x{REF:P@T:missing}') is None
assert e.deref('username') is None
''', 'a reference to an entry that does not exist', 'the text is returned with the reference removed instead of None')

seed('c15-zone', 'C15', P,
     '        mk_time.text = self._encode_time(date)', '        mk_time.text = self._encode_time(date.replace(tzinfo=timezone.utc))', '''
kp = new(); kp.credchange_required_days = 3
for h in (0, 9, -7):
    t = datetime(2021, 5, 4, 3, 2, 1, tzinfo=timezone(timedelta(hours=h)))
    kp.credchange_date = t
    assert kp.credchange_date == t, (kp.credchange_date, t)
''', 'a credential-change date given in a time zone other than UTC', 'the recorded date is off by the UTC offset')

seed('c16-history-seconds', 'C16', EN,
     'return (self.uuid, self.mtime)', 'return (self.uuid, self.mtime.replace(microsecond=0))', '''
kp = v3(); e = kp.entries[0]
t = datetime(2020, 1, 1, 0, 0, 0, 100, tzinfo=timezone.utc)
e.delete_history(all=True)
e.mtime = t; e.save_history(); e.mtime = t + timedelta(milliseconds=5); e.save_history()
a, b = e.history
assert a.mtime != b.mtime and a != b
''', 'two history items of a KDBX 3 entry modified within the same second', 'different history items compare equal')

seed('c17-only-strings', 'C17', C,
     "protected_xpath = '//Value[@Protected=\\'True\\']'", "protected_xpath = '//String/Value[@Protected=\\'True\\']'", '''
from lxml.builder import E
from pykeepass.kdbx_parsing.common import ChaCha20Stream
from construct import GreedyBytes
from lxml import etree
t = etree.ElementTree(E.KeePassFile(E.Meta(E.CustomData(E.Item(E.Key('k'), E.Value('secret', Protected='True'))))))
s = ChaCha20Stream(lambda c: b'k' * 64, GreedyBytes)
assert b'secret' not in etree.tostring(s._encode(t, None, None))
''', 'a protected value that is not the value of an entry string', 'it is written as plain text')

seed('c18-path-anywhere', 'C18', 'pykeepass/xpath.py',
     """    False: {
        'group': '/Group/Name[text()="{}"]/..',""", """    False: {
        'group': '//Group/Name[text()="{}"]/..',""", '''
kp = new(); a = kp.add_group(kp.root_group, 'a'); b = kp.add_group(a, 'b')
assert kp.find_groups(path=['b']) is None
assert kp.find_groups(path=['a', 'b']) == b
''', 'a path that is the end of a longer one', 'a group deeper down is returned for a path that does not exist')

seed('c19-duplicate-below', 'C19', P,
     '''            group=destination_group,
            recursive=False
        )''', '''            group=destination_group
        )''', '''
kp = new(); a = kp.add_group(kp.root_group, 'a')
kp.add_entry(a, 't', 'u', 'p')
kp.add_entry(kp.root_group, 't', 'u', 'p')
''', 'an entry with the same title and user name in a subgroup', 'adding the entry is refused')

seed('c19-expires-past', 'C19', P,
     'expires=True if expiry_time else False,', 'expires=bool(expiry_time and expiry_time.timestamp() > 0),', '''
kp = new(); t = datetime(1965, 5, 5, tzinfo=timezone.utc)
e = kp.add_entry(kp.root_group, 't', 'u', 'p', expiry_time=t)
assert e.expires and e.expiry_time == t and e.expired
''', 'an expiry time before 1970', 'the entry does not expire')

seed('c20-reload-keyfile', 'C20', P,
     'self.read(self.filename, self.password, self.keyfile)', 'self.read(self.filename, self.password or None, self.keyfile)', '''
kp = new(password=''); kp.add_entry(kp.root_group, 't', 'u', 'p'); kp.save()
kp.add_entry(kp.root_group, 't2', 'u', 'p')
kp.reload()
assert [e.title for e in kp.entries] == ['t']
''', 'a database with an empty password', 'reloading it fails with CredentialsError')

seed('c13-cbc-split', 'C13', TF,
     """            self.cache = self.cache[i+self.blocksize:]
            return decrypted_blocks""", """            self.cache = b'' if len(self.cache) < 2*self.blocksize else self.cache[i+self.blocksize:]
            return decrypted_blocks""", '''
from pykeepass.kdbx_parsing.twofish import Twofish
k, iv, d = os.urandom(32), os.urandom(16), os.urandom(64)
c = Twofish.new(k, mode=Twofish.MODE_CBC, IV=iv).encrypt(d)
for cut in range(1, 64):
    t = Twofish.new(k, mode=Twofish.MODE_CBC, IV=iv)
    assert t.decrypt(c[:cut]) + t.decrypt(c[cut:]) == d, cut
''', 'ciphertext given in pieces that are not whole blocks, the first between one and two blocks long', 'the bytes after the first block are dropped')

seed('c16-urlsafe', 'C16', B,
     "b64_uuid = base64.b64encode(uuid.bytes).decode('utf-8')", "b64_uuid = base64.urlsafe_b64encode(uuid.bytes).decode('utf-8')", '''
import uuid
kp = new(); e = kp.add_entry(kp.root_group, 'a', 'b', 'c'); g = kp.add_group(kp.root_group, 'g')
for u in (uuid.UUID(int=0), uuid.UUID(bytes=b'abcdefghijklmnop'), uuid.UUID(bytes=bytes([0xfb] * 16)), uuid.UUID(bytes=bytes([0xff] * 16))):
    for x in (e, g):
        x.uuid = u
        assert x.uuid == u, u
        assert kp._xpath('//UUID[text()="%s"]' % __import__('base64').b64encode(u.bytes).decode()), u
''', 'a UUID whose base64 form contains + or /', 'the UUID is written in another alphabet and cannot be read back')

seed('c02-v4-final-block', 'C02', K4, """        Checksum(
            Bytes(32),
            compute_payload_block_hash,
            this,
            # exception=PayloadChecksumError
        )
""", """        IfThenElse(
            lambda this: len(this.block_data) > 0,
            Checksum(
                Bytes(32),
                compute_payload_block_hash,
                this,
                # exception=PayloadChecksumError
            ),
            Rebuild(Bytes(32), compute_payload_block_hash)
        )
""", '''
data = open(os.path.join(TESTS, 'test4.kdbx'), 'rb').read()
for i in range(1, 37):
    bad = bytearray(data); bad[-i] ^= 1
    try: PyKeePass(io.BytesIO(bytes(bad)), 'password', os.path.join(TESTS, 'test4.key'))
    except Exception: continue
    if i > 4: raise SystemExit('a changed HMAC of the final block was accepted')
''', 'a KDBX 4 file whose final empty block has a wrong HMAC', 'the end of the payload is not authenticated',
     extra=[(K4, '    If,\n', '    If,\n    IfThenElse,\n    Rebuild,\n')] if '    IfThenElse,\n' not in open('/repo/' + K4).read() else [(K4, '    If,\n', '    If,\n    Rebuild,\n')])

seed('c02-v4-short-block-ends', 'C02', K4, "    lambda item, a, b: len(item.block_data) == 0,\n    EncryptedPayloadBlock", "    lambda item, a, b: len(item.block_data) < 2**20,\n    EncryptedPayloadBlock", '''
from pykeepass.kdbx_parsing import kdbx4
import struct
data = open(os.path.join(TESTS, 'test4.kdbx'), 'rb').read()
PyKeePass(io.BytesIO(data), 'password', os.path.join(TESTS, 'test4.key'))
try: PyKeePass(io.BytesIO(data[:-36]), 'password', os.path.join(TESTS, 'test4.key'))
except Exception: pass
else: raise SystemExit('a file cut off before its final block was accepted')
''', 'a KDBX 4 file cut off after a block of less than 1 MiB', 'truncated files open')

seed('c04-v3-payload', 'C04', P, "                    '(parsing) -> xml -> block_hash' # KDBX3\n", "                    '(parsing) -> payload -> block_hash' # KDBX3\n", '''
from pykeepass.exceptions import PayloadChecksumError
from pykeepass.kdbx_parsing import kdbx3
from pykeepass.kdbx_parsing.common import Concatenated
from construct import ChecksumError
import pykeepass.pykeepass as M
import hashlib
# a KDBX 3 database whose first block has a wrong digest, written under its own credentials
kp = v3()
real = hashlib.sha256
class H(type(hashlib)): pass
f = H('hashlib'); f.__dict__.update(hashlib.__dict__)
def sha(d=b'', **k):
    r = real(d)
    if len(d) > 200:
        class R:
            def digest(self): return b'x' * 32
        return R()
    return r
b = io.BytesIO()
f.sha256 = sha
kdbx3.hashlib = f
try: kp.save(b)
finally: kdbx3.hashlib = hashlib
b.seek(0)
try: PyKeePass(b, kp.password, kp.keyfile)
except PayloadChecksumError: pass
''', 'a KDBX 3 file opened with the right credentials, a payload block of which was damaged', 'PayloadChecksumError is not raised; a raw ChecksumError escapes')

seed('c05-renames', 'C05', P, "        if not filename:\n            filename = self.filename\n", "        if not filename:\n            filename = self.filename\n        elif not hasattr(filename, 'write') and self.filename is not None:\n            self.filename = filename\n", '''
kp = new(); first = kp.filename; before = open(first, 'rb').read()
kp.add_entry(kp.root_group, 'a', 'b', 'c')
kp.save(os.path.join(TMP, 'backup.kdbx'))
backup = open(os.path.join(TMP, 'backup.kdbx'), 'rb').read()
assert kp.filename == first
kp.save()
assert open(os.path.join(TMP, 'backup.kdbx'), 'rb').read() == backup
assert open(first, 'rb').read() != before
''', 'a save under another name followed by a plain save', 'the plain save overwrites the backup instead of the database') if True else None

seed('c05-denied', 'C05', P, "                raise e\n", "                if not isinstance(e, PermissionError):\n                    raise e\n", '''
kp = new()
real = shutil.move
def denied(a, b): raise PermissionError(13, 'Permission denied', str(b))
shutil.move = denied
os.rename = os.replace = denied
try: kp.save()
except OSError: pass
else: raise SystemExit('nothing was saved and nobody was told')
''', 'the final replacement is refused (read-only or locked target)', 'the failure does not reach the caller')

seed('c20-empty-password', 'C20', P, "    keepass_instance.password = password\n    keepass_instance.keyfile = keyfile\n", "    if password:\n        keepass_instance.password = password\n    keepass_instance.keyfile = keyfile\n", '''
p = os.path.join(TMP, 'e.kdbx')
create_database(p, password='')
PyKeePass(p, password='')
''', 'a database created with the empty password', 'it is written under the password of the template')

seed('c20-reload-empty', 'C20', P, "        self.read(self.filename, self.password, self.keyfile)\n", "        self.read(self.filename, self.password or None, self.keyfile)\n", '''
p = os.path.join(TMP, 'e.kdbx')
kp = create_database(p, password='')
kp.add_entry(kp.root_group, 'a', 'b', 'c')
kp.reload()
assert kp.entries == []
''', 'reloading a database that has an empty password', 'reload raises CredentialsError')

seed('c09-empty-kwargs', 'C09', P, "            if tree is not None:\n                xp += '.'\n", "            if tree is not None and kwargs:\n                xp += '.'\n", '''
kp = v4()
g = kp.find_groups(name='foobar_group', first=True)
for e in kp.find_entries(group=g): assert g in [e.parentgroup] + (lambda p: [p.parentgroup] if p.parentgroup else [])(e.parentgroup), e
assert len(kp.find_entries(group=g)) < len(kp.find_entries())
''', 'a search below a group without any other criterion', 'the whole database is searched')

seed('c18-repeated-name', 'C18', EN, "            if p.name is not None:  # dont make the root group appear\n", "            if p.name is not None and p.name not in path[:-1]:  # dont make the root group appear\n", '''
kp = new()
g = kp.root_group
for n in ('a', 'b', 'a'): g = kp.add_group(g, n)
e = kp.add_entry(g, 't', 'u', 'p')
assert e.path == ['a', 'b', 'a', 't'], e.path
''', 'an entry below two groups of the same name', 'the path leaves out a group')

seed('c11-cap', 'C11', EN,
     "            self._element.find('History').append(archive)\n", '''            history = self._element.find('History')
            history.append(archive)
            if len(history) > 10:
                history.remove(history[0])
''', '''
kp = new(); e = kp.add_entry(kp.root_group, 't', 'u', 'p')
for n in range(14):
    e.title = 'title%d' % n
    e.save_history()
assert [h.title for h in e.history] == ['title%d' % n for n in range(14)]
''', 'an entry with more than ten saved states', 'saving a state silently drops the oldest one')

seed('c06-keys-iter', 'C06', EN,
     "[x.find('Key').text for x in self._element.findall('String')]", "[x.find('Key').text for x in self._element.iter('String')]", '''
kp = new(); e = kp.add_entry(kp.root_group, 't', 'u', 'p')
e.set_custom_property('one', '1'); e.save_history(); e.delete_custom_property('one'); e.set_custom_property('two', '2')
assert e.custom_properties == {'two': '2'}, e.custom_properties
''', 'a custom property that exists only in a saved state of the entry', 'the entry lists properties it does not have')

seed('c03-keyx-version', 'C03', C,
     "elif version.startswith('2.0'):", "elif version == '2.0':", '''
from pykeepass.kdbx_parsing.common import compute_key_composite
import hashlib
key = bytes(range(32)); h = hashlib.sha256(key).hexdigest()[:8].upper()
for v in ('2.0', '2.00'):
    x = '<?xml version="1.0"?><KeyFile><Meta><Version>%s</Version></Meta><Key><Data Hash="%s">%s</Data></Key></KeyFile>' % (v, h, key.hex())
    assert compute_key_composite('pw', io.BytesIO(x.encode())) == hashlib.sha256(hashlib.sha256(b'pw').digest() + key).digest(), v
''', 'a version 2 key file whose version number has a second digit after the point', 'the file is hashed as a whole, so the database cannot be opened')

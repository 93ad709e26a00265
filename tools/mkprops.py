"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['pykeepass/' + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'Saving and re-opening a database reproduces it exactly',
 "A database that is saved and opened again with the same credentials has the same XML content (every element in order, every attribute and every text, protected or not), the same attachment data in the same order, and the same header settings. This holds for KDBX 3.1 and 4.0, every cipher (AES, ChaCha20, Twofish), payload compressed or not, every key derivation function, either inner stream cipher or none, and every payload size including those that need several data blocks.",
 ['inputs', 'configurations'], "all database contents, header settings, credentials and payload sizes",
 "the tests re-open a dozen fixed small files; they never exceed one data block and use one content per configuration",
 ['kdbx_parsing/common.py', 'kdbx_parsing/kdbx.py', 'kdbx_parsing/kdbx3.py', 'kdbx_parsing/kdbx4.py', 'pykeepass.py'],
 [('format declarations built and parsed by the same grammar', 'kdbx3.py/kdbx4.py Body, DynamicHeader, PayloadBlocks'),
  ('block splitting and joining', 'common.py Concatenated'), ('cipher, compression and padding adapters', 'common.py DecryptedPayload, Decompressed'),
  ('protected value stream', 'common.py UnprotectedStream')],
 observe=['PyKeePass.save()', 'PyKeePass(...)', 'xml()', 'binaries'])

prop('C02', 'Altered files are never accepted as valid content',
 "A KDBX 4 file opens only if its header matches the stored SHA-256 and HMAC, and every payload block, up to and including the final empty one, matches the HMAC computed over its position, its length and its bytes under the key derived from the credentials. A KDBX 3 file opens only if the decrypted start bytes equal those in the header and every payload block, up to and including the final empty one, carries its position in sequence and the SHA-256 of its bytes (zeros in the final empty block). So changing, swapping, dropping, duplicating or truncating authenticated data makes opening raise an error instead of returning different content.",
 ['inputs', 'fault_sequences'], "all byte strings presented as a file, in particular every alteration of a valid file",
 "the tests corrupt at most a couple of fixed bytes of fixed files",
 ['kdbx_parsing/kdbx4.py', 'kdbx_parsing/kdbx3.py', 'kdbx_parsing/kdbx.py'],
 [('header digest and HMAC', 'kdbx4.py Body sha256/cred_check, compute_header_hmac_hash'), ('block HMAC', 'kdbx4.py EncryptedPayloadBlock, compute_payload_block_hash'),
  ('block hash and index', 'kdbx3.py PayloadBlock'), ('start bytes', 'kdbx3.py UnpackedPayload')],
 observe=['PyKeePass(...)'])

prop('C03', 'The database key is derived from the credentials as the KDBX format says',
 "The composite key is the SHA-256 of the SHA-256 of the UTF-8 password (if a password, even an empty one, is given) followed by the key-file key (if a key file is given); the key-file key is the base64 data of a version 1 XML key file, the hash-checked hex data of a version 2 one, the 32 raw bytes, the decoded 64 hex digits, or else the SHA-256 of the file. The transformed key is the one given explicitly, or else the result of the key derivation function and parameters stored in the header applied to the composite key; the master key is the SHA-256 of the master seed followed by the transformed key. A key file gives the same key whether it is passed as a path or as an open stream at any position.",
 ['inputs', 'configurations'], "all passwords, key files, KDF parameters, seeds and explicit transformed keys",
 "the tests open fixed databases with one password and one key file per format",
 ['kdbx_parsing/common.py', 'kdbx_parsing/kdbx3.py', 'kdbx_parsing/kdbx4.py'],
 [('composite key', 'common.py compute_key_composite'), ('AES KDF', 'common.py aes_kdf'), ('KDF selection', 'kdbx3.py/kdbx4.py compute_transformed'), ('master key', 'common.py compute_master')],
 observe=['PyKeePass(...)', 'transformed_key'])

prop('C04', 'Failed opens raise the error that names the cause',
 "Opening raises CredentialsError when the password, key file or transformed key is wrong (the file being intact); HeaderChecksumError when the file's first eight bytes are not the KeePass signature or a KDBX 4 header that can be read does not match its stored digest; and PayloadChecksumError when the credentials are right but the hash of a payload block does not match. No other error is turned into one of these, and an intact file with right credentials raises none of them.",
 ['inputs', 'configurations'], "all files, alterations and credentials",
 "the tests try a couple of wrong passwords and one altered header",
 ['pykeepass.py', 'kdbx_parsing/kdbx.py', 'kdbx_parsing/kdbx3.py', 'kdbx_parsing/kdbx4.py', 'exceptions.py'],
 [('mapping of check failures', 'pykeepass.py PyKeePass.read'), ('order of the checks', 'kdbx4.py Body'), ('tolerated unpadding failure', 'common.py DecryptedPayload._decode')],
 observe=['PyKeePass(...)', 'reload()'])

prop('C05', 'Saving to a path is all or nothing',
 "Whatever fails while a database is saved to a path (building the content, writing, or the process dying at any point before the end), the file at that path, and every other file but the save's own temporary one, holds its previous bytes; once the save has succeeded the path holds the complete new database. An exception leaves no temporary file behind and reaches the caller. Saving changes neither the in-memory content nor the name under which the database will be saved next.",
 ['crash_points', 'fault_sequences', 'inputs'], "all target paths, and every point at which building or writing can fail or the process can die",
 "the tests save to a handful of paths and inject one failure",
 ['pykeepass.py'], [('write to a temporary file, then rename', 'pykeepass.py PyKeePass.save')],
 observe=['directory contents around save()'])

prop('C06', 'An entry or group returns exactly what was written to it',
 "Reading a field of an entry (title, user name, password, URL, notes, OTP, tags, icon, auto-type settings or a custom property) or of a group (name, notes, icon) returns the value last written to it; writing or deleting one field leaves every other field, attachment, time and history item unchanged and in place, never creates a duplicate, and changes no other entry or group. A password or OTP written where there was none is marked protected, a custom property is marked as requested, and rewriting any other field keeps the mark it had. A write that is rejected with an exception changes nothing.",
 ['inputs', 'histories'], "all entries (any children in any order), field names, values and sequences of writes",
 "the tests set each field once on one entry of fixed shape",
 ['entry.py', 'baseelement.py'], [('string fields', 'entry.py _get_string_field/_set_string_field'), ('subelements', 'baseelement.py _get_subelement_text/_set_subelement_text'), ('custom properties', 'entry.py set/get/delete_custom_property')],
 observe=['Entry properties'])

prop('C07', 'Moving, adding and deleting touch only what they name',
 "Adding an entry or group puts it last in the destination group; moving one takes it, with everything below it, from its old place to the end of the destination; deleting one removes exactly it and what is below it; emptying a group removes all its entries and subgroups and nothing else. Re-indexing an entry puts it at the requested position among the consecutive entries of its group and keeps the order of the others. Everything else in the database is unchanged and keeps its order.",
 ['inputs', 'histories'], "all trees, elements, destinations and sequences of operations",
 "the tests perform each operation once on fixed trees and look only at the element moved",
 ['pykeepass.py', 'group.py', 'baseelement.py', 'entry.py'],
 [('append', 'group.py Group.append'), ('delete', 'baseelement.py BaseElement.delete'), ('empty', 'pykeepass.py empty_group'), ('reindex', 'entry.py Entry.reindex, group.py _first_entry')],
 observe=['groups', 'entries', 'subgroups', 'index'])

prop('C08', 'Trashing moves things into the one recycle bin',
 "Trashing an entry or group moves it, unchanged and with everything below it, into the group the database names as its recycle bin; if no such group exists, one is created under the root group and recorded as the recycle bin, and at no time is a second one created. Trashing the root group or the recycle bin itself raises UnableToSendToRecycleBin and changes nothing.",
 ['inputs', 'histories'], "all trees, recycle-bin states and sequences of operations; the element trashed does not contain the recycle bin",
 "the tests trash a few elements of fixed trees",
 ['pykeepass.py'], [('guard', 'pykeepass.py _can_be_moved_to_recyclebin'), ('creation', 'pykeepass.py _create_or_get_recyclebin_group'), ('lookup', 'pykeepass.py recyclebin_group')],
 observe=['recyclebin_group', 'trash_entry', 'trash_group'])

prop('C09', 'Searches return all and only the matching elements',
 "A search for entries, groups or attachments returns, in document order, every element below the given group or entry (directly below it when the search is not recursive; the whole database by default) that satisfies all given criteria, and nothing else; with `first` it returns the first of them or None. A string criterion matches the exact value of that field (or, on request, matches it as a regular expression), and tags match when the tag text contains each of them. History versions of entries are included exactly when asked for.",
 ['inputs', 'configurations'], "all databases, combinations of criteria and search values",
 "the tests run a few dozen searches on one fixed tree",
 ['pykeepass.py', 'xpath.py', 'deprecated.py'], [('query construction', 'pykeepass.py _find, xpath.py'), ('query evaluation and casting', 'pykeepass.py xpath')],
 observe=['find_entries', 'find_groups', 'find_attachments', 'entries', 'groups', 'attachments'])

prop('C10', 'Attachments always refer to the binary they were given',
 "Adding binary data returns an id under which exactly that data is found, and leaves the data under every other id unchanged. After deleting a binary, no attachment (in current or history entries) refers to it, every other attachment still yields the same data as before, and the remaining binaries keep their data and order; a non-existent id raises BinaryError and changes nothing. Removing or renaming one attachment affects no other attachment and no binary data.",
 ['inputs', 'histories'], "all binaries, attachments, formats, compression and protection flags, and sequences of operations",
 "the tests add and delete one or two binaries in fixed databases without history attachments",
 ['pykeepass.py', 'attachment.py', 'entry.py'], [('binary store', 'pykeepass.py binaries/add_binary/delete_binary'), ('reference', 'attachment.py Attachment.id/binary')],
 observe=['Attachment.binary', 'binaries'])

prop('C11', 'History is a faithful, append-only record until explicitly deleted',
 "Saving an entry to its history appends one history item with the entry's exact content at that moment, without nested history; the entry itself and all earlier history items are unchanged, and later edits of the entry do not alter its history items. Deleting one history item removes only that one, and deleting all removes only the history. History items never appear as entries of their group.",
 ['inputs', 'histories'], "all entries, existing histories and sequences of edits, history saves and deletions",
 "the tests save history twice on one entry",
 ['entry.py', 'pykeepass.py'], [('snapshot', 'entry.py save_history'), ('deletion', 'entry.py delete_history'), ('access', 'entry.py history')],
 observe=['Entry.history'])

prop('C12', 'Times denote the instant that was stored',
 "A time written to an entry, group or the database with any UTC offset reads back as a UTC time of the same instant (for KDBX 4 to whole seconds), in both formats; plaintext times written by other programs, with or without offset, are read as the instant they denote (UTC if none is given). An element is expired exactly when it is marked as expiring and its expiry instant has passed; touching it sets the access time (and, on request, the modification time) to now and no other time.",
 ['inputs'], "all instants from year 1 to 9999 and UTC offsets, both formats, any other content of the time fields",
 "the tests set a few fixed or current times in two time zones",
 ['pykeepass.py', 'baseelement.py'], [('conversion', 'pykeepass.py _encode_time/_decode_time'), ('time fields', 'baseelement.py _get_times_property/_set_times_property'), ('expiry', 'baseelement.py expired')],
 observe=['ctime', 'mtime', 'atime', 'expiry_time', 'expired', 'credchange_date'])

prop('C13', 'Twofish is the published cipher, and decryption inverts encryption',
 "For every 16-, 24- or 32-byte key and every block, encryption computes the Twofish function as published and decryption is its exact inverse. In CBC mode each ciphertext block is the encryption of the plaintext block combined with the previous ciphertext block (the initialisation vector at first), whatever the number of blocks and however the data is divided over calls, and decryption inverts it. Keys and initialisation vectors of other lengths are refused.",
 ['inputs'], "all keys, initialisation vectors, messages and divisions of them into calls",
 "the tests decrypt two fixed files; the module checks one key and block",
 ['kdbx_parsing/pytwofish.py', 'kdbx_parsing/twofish.py'], [('block cipher', 'pytwofish.py set_key/encrypt/decrypt'), ('chaining', 'twofish.py CBC.update, BlockCipher')],
 observe=['Twofish.new(...).encrypt/decrypt'])

prop('C14', 'Field references resolve to the referenced field',
 "A reference made from a field of an entry resolves to the current value of that field. Resolving a text replaces every reference in it, including references contained in the resolved values, by the wanted field of the first entry whose searched field equals the given value, leaves all other text unchanged, and yields None if a referenced entry does not exist. Text without references is returned as it is.",
 ['inputs', 'histories'], "all databases, texts and acyclic chains of references",
 "the tests resolve five fixed references",
 ['pykeepass.py', 'entry.py'], [('creation', 'entry.py Entry.ref'), ('resolution', 'pykeepass.py deref')], observe=['ref', 'deref'])

prop('C15', 'Database settings are stored, and credential ageing follows them',
 "Database name, description, default user name, credential-change date and the two credential-ageing periods read back as written, and writing one changes no other setting. Changing the password or key file records the current time as credential-change date, and the next save uses the new credentials. A credential change is required (recommended) exactly when the corresponding period is not disabled and more than that many whole days have passed since the recorded change.",
 ['inputs', 'histories'], "all setting values, dates and sequences of changes",
 "the tests set each value once and compare two or three dates",
 ['pykeepass.py'], [('settings', 'pykeepass.py database_name and others'), ('ageing', 'pykeepass.py credchange_required/credchange_recommended')], observe=['credchange_required', 'credchange_recommended', 'password', 'keyfile'])

prop('C16', 'Elements are equal exactly when they are the same element',
 "Entries and groups compare equal (and hash alike) exactly when they have the same UUID; history items additionally need the same modification time, and never equal a current entry. Every UUID that is written reads back unchanged, and setting it changes nothing else. Comparison with other kinds of objects is never an error and never equal.",
 ['inputs'], "all UUIDs, modification times and pairs of elements",
 "the tests compare a few elements of one database",
 ['baseelement.py', 'entry.py'], [('identity', 'baseelement.py __eq__/__hash__, entry.py HistoryEntry'), ('UUID encoding', 'baseelement.py uuid')], observe=['==', 'hash', 'uuid'])

prop('C17', 'Protected values are encrypted in files and plain in memory',
 "In every file that is written, each value marked protected is stored as the base64 of its UTF-8 text encrypted with one continuous inner key stream in document order, so that it is never readable in the stored XML, and no other value is altered. Opening recovers every protected value; saving leaves the values in memory as they were, so that repeated saves store the same content.",
 ['inputs', 'histories'], "all databases, numbers and positions of protected values (history included), texts and stream ciphers",
 "the tests look at a few protected entries of fixed files",
 ['kdbx_parsing/common.py', 'kdbx_parsing/kdbx3.py', 'kdbx_parsing/kdbx4.py'], [('stream', 'common.py UnprotectedStream and subclasses, Unprotect')], observe=['decrypted payload XML', 'xml()'])

prop('C18', 'Paths lead to the element they came from',
 "The path of an entry or group is the list of the names of all groups above it, below the root group, from the outermost to the innermost, followed by its own title or name; the root group's path is empty. Looking up a path returns the first element with that path, so looking up an element's own path returns an element with the same path, and None is returned exactly when no element has it.",
 ['inputs'], "all trees of named groups and titled entries, of any depth, and all lists of names",
 "the tests look up a few fixed paths at most three levels deep",
 ['entry.py', 'group.py', 'pykeepass.py', 'xpath.py'], [('path', 'entry.py/group.py path'), ('lookup', 'pykeepass.py _find, xpath.py path_xp')], observe=['path', 'find_entries(path=)', 'find_groups(path=)'])

prop('C19', 'A new entry or group holds exactly what was asked for',
 "A newly added entry or group has a fresh UUID, the given title or name, user name, password, URL, notes, OTP, tags and icon (and only those that were given), creation, modification and access times of now, and expires exactly at the given time, or not at all if none is given. Its password and OTP are marked protected. Adding an entry whose title and user name equal those of an entry directly in the destination group is refused, changing nothing, unless forced; otherwise it is accepted.",
 ['inputs', 'histories'], "all argument values and destination groups",
 "the tests create a few entries with fixed arguments",
 ['pykeepass.py', 'entry.py', 'group.py', 'baseelement.py'], [('creation', 'entry.py Entry.__init__, group.py Group.__init__, baseelement.py BaseElement.__init__'), ('duplicate check', 'pykeepass.py add_entry')], observe=['add_entry', 'add_group'])

prop('C20', 'A created database is empty and opens with exactly its credentials',
 "Creating a database writes a complete, empty KDBX 4 database to the given path or stream, which opens with the given password, key file or transformed key, and with no others; the returned object is that database, and saves to the same place under the same password and key file. Reloading a database opened from a path by password or key file restores the content last saved there and discards later changes.",
 ['inputs', 'configurations'], "all credentials (password, key file, transformed key and combinations) and targets",
 "the tests create one database with one password",
 ['pykeepass.py'], [('creation', 'pykeepass.py create_database'), ('reload', 'pykeepass.py PyKeePass.reload')], observe=['create_database', 'reload'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))

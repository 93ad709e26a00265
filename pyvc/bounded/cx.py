"""Shared parts of the bounded checks: generated databases, snapshots, and a mirror of the XML tree on which the
expected effect of an operation is computed without any code of /repo."""
import io, random, base64, struct, uuid as _uuid, zlib
from datetime import datetime, timezone, timedelta
from lxml import etree
from .. import ref_kdbx as R

# ---- texts -----------------------------------------------------------------------------------------------
ALPH = ['a', 'b', 'A', 'B', 'é', 'ß', '中', '😀', 'İ', '\u200d', ' ', '  ', '\t', '\n', '\r', '&', '<', '>', "'", ']]>', ';', ',', '/', '\\', '{', '}',
        '{}', '{0}', '%s', '%', '@', '[', ']', '(', ')', '*', '.', '.*', '+', '?', '^', '$', '|', '#', '0', '1', '-', '_', ':', '=', '!', '~', '`', 'True', 'None',
        '\x7f', '\x85', '\xa0', '\u2028', '\ufeff', '\ufffd', '\U0010fffd', '&amp;', '&#13;', '<b/>', '<!--', '-->', 'text()']
WORDS = ['foo', 'Foo', 'foo2', 'bar', 'foobar', 'Password', 'Title', 'title', 'x', 'group', 'entry', 'user', 'root', 'admin', 'https://a.b/c?d=e&f', 'Recycle Bin']
def text(rng, quote=False, empty=False, n=None):
    k = rng.random()
    if empty and k < .1: return ''
    if k < .45: return rng.choice(WORDS)
    r = ''.join(rng.choice(ALPH) for _ in range(n or rng.choice([1, 1, 2, 3, 5, 12])))
    if quote and rng.random() < .3: r += '"'
    return r or 'z'
def long_text(rng):
    return ''.join(rng.choice(ALPH) for _ in range(40)) * rng.choice([1, 10, 200])

def key_text(rng):
    """Key of a custom property."""
    from itertools import count
    while True:
        t = text(rng)
        if t not in RESERVED: return t
RESERVED = ['Title', 'UserName', 'Password', 'URL', 'Tags', 'IconID', 'Times', 'History', 'Notes', 'otp']

# ---- mirror tree -----------------------------------------------------------------------------------------
class N:
    __slots__ = ('tag', 'text', 'attrib', 'kids', 'up')
    def __init__(self, tag, text='', attrib=None, kids=()):
        self.tag, self.text, self.attrib, self.up = tag, text or '', dict(attrib or {}), None
        self.kids = []
        for k in kids: self.add(k)
    def add(self, k, i=None):
        k.up = self
        self.kids.insert(len(self.kids) if i is None else i, k)
        return k
    def rm(self):
        self.up.kids = [k for k in self.up.kids if k is not self]
        self.up = None
    def t(self):
        return (self.tag, self.text, tuple(sorted(self.attrib.items())), tuple(k.t() for k in self.kids))
    def find(self, tag):
        for k in self.kids:
            if k.tag == tag: return k
    def all(self, tag): return [k for k in self.kids if k.tag == tag]
    def iter(self):
        yield self
        for k in self.kids: yield from k.iter()
    def xml(self):
        e = etree.Element(self.tag, self.attrib)
        if self.text: e.text = self.text
        for k in self.kids: e.append(k.xml())
        return e
    def ups(self):
        p = self.up
        while p is not None:
            yield p
            p = p.up
    def copy(self):
        return N(self.tag, self.text, self.attrib, [k.copy() for k in self.kids])
    def field(self, key):
        for s in self.all('String'):
            if s.find('Key').text == key: return s.find('Value')
    def __repr__(self): return 'N<%s %r>' % (self.tag, self.text[:20])

def mirror(elem, table=None):
    """Mirror of an lxml element; `table` collects (element, N) pairs."""
    n = N(elem.tag, elem.text, elem.attrib)
    if table is not None: table.append((elem, n))
    for c in elem:
        if isinstance(c.tag, str): n.add(mirror(c, table))
    return n

class Mirror:
    def __init__(self, kp):
        self.table = []
        self.root = mirror(kp.tree.getroot(), self.table)
        self.by = {id(e): n for e, n in self.table}
    def of(self, obj):
        return self.by[id(obj._element if hasattr(obj, '_element') else obj)]
    def elem(self, n):
        for e, m in self.table:
            if m is n: return e
    def t(self): return self.root.t()

def snap(kp): return mirror(kp.tree.getroot()).t()

def diff(a, b, path=''):
    """First difference of two snapshots."""
    if a == b: return None
    if a[0] != b[0]: return '%s: tag %r vs %r' % (path, a[0], b[0])
    p = path + '/' + a[0]
    if a[1] != b[1]: return '%s: text %r vs %r' % (p, a[1][:80], b[1][:80])
    if a[2] != b[2]: return '%s: attributes %r vs %r' % (p, a[2], b[2])
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        d = diff(x, y, '%s[%d]' % (p, i))
        if d: return d
    return '%s: %d vs %d children (%s vs %s)' % (p, len(a[3]), len(b[3]), [k[0] for k in a[3]], [k[0] for k in b[3]])

# ---- generated databases ----------------------------------------------------------------------------------
EPOCH = datetime(1, 1, 1, tzinfo=timezone.utc)
def b64(b): return base64.b64encode(b).decode()
def enc_time(v, t):
    if v == 4: return b64(struct.pack('<Q', int((t - EPOCH).total_seconds())))
    return t.strftime('%Y-%m-%dT%H:%M:%SZ') if t.year >= 1000 else t.isoformat()
def rand_time(rng):
    return datetime(2000, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=rng.randrange(0, 60 * 365 * 86400))
def rand_uuid(rng): return bytes(rng.randrange(256) for _ in range(16))

def times(rng, v):
    ts = [N(t, enc_time(v, rand_time(rng))) for t in ('CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime')]
    ts += [N('Expires', rng.choice(['True', 'False'])), N('UsageCount', str(rng.randrange(9))), N('LocationChanged', enc_time(v, rand_time(rng)))]
    if rng.random() < .5: rng.shuffle(ts)
    return N('Times', kids=ts)

def string(key, value, prot=None):
    return N('String', kids=[N('Key', key), N('Value', value, {} if prot is None else {'Protected': prot})])

class Gen:
    def __init__(self, rng, v, nbin=0, small=False, quote=False, empties=True):
        self.rng, self.v, self.nbin, self.small, self.quote, self.empties = rng, v, nbin, small, quote, empties
        self.uuids = []
    def T(self, **k): return text(self.rng, quote=self.quote, empty=self.empties, **k)
    def entry(self, hist=True, uuid=None, full=False):
        rng = self.rng
        u = uuid or rand_uuid(rng)
        kids = [N('UUID', b64(u))]
        opt = lambda p: full or rng.random() < p
        if opt(.7): kids.append(N('IconID', str(rng.randrange(68))))
        if opt(.3): kids += [N('ForegroundColor'), N('BackgroundColor', '#FF0000')]
        if opt(.5): kids.append(N('Tags', rng.choice([';', ',']).join(text(rng).replace(';', '').replace(',', '') or 't' for _ in range(rng.randrange(0, 4)))))
        kids.append(times(rng, self.v))
        fs = []
        for k in ('Title', 'UserName', 'Password', 'URL', 'Notes'):
            if opt(.85): fs.append(string(k, self.T(), 'True' if (k == 'Password' and rng.random() < .9) else rng.choice([None, None, 'False', 'True'])))
        if opt(.3): fs.append(string('otp', self.T(), 'True'))
        seen = set()
        for _ in range(rng.randrange(0, 4)):
            k = key_text(rng)
            if k in seen: continue
            seen.add(k)
            fs.append(string(k, self.T(), rng.choice([None, 'False', 'True'])))
        if rng.random() < .5: rng.shuffle(fs)
        kids += fs
        if self.nbin:
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                kids.append(N('Binary', kids=[N('Key', text(rng)), N('Value', '', {'Ref': str(rng.randrange(self.nbin))})]))
        kids.append(N('AutoType', kids=[N('Enabled', rng.choice(['True', 'False'])), N('DataTransferObfuscation', '0'), N('DefaultSequence', rng.choice(['', self.T()])),
                 N('Association', kids=[N('Window', self.T()), N('KeystrokeSequence', rng.choice(['', '{USERNAME}']))])]))
        if hist and opt(.35):
            kids.append(N('History', kids=[self.entry(False, u) for _ in range(rng.choice([0, 1, 2, 3]))]))
        if rng.random() < .3:
            head = kids[:1]; rest = kids[1:]; rng.shuffle(rest); kids = head + rest
        self.uuids.append(u)
        return N('Entry', kids=kids)
    def group(self, depth, name=None):
        rng = self.rng
        u = rand_uuid(rng)
        kids = [N('UUID', b64(u)), N('Name', name if name is not None else text(rng, quote=self.quote))]
        if rng.random() < .5: kids.append(N('Notes', self.T()))
        if rng.random() < .7: kids.append(N('IconID', str(rng.randrange(68))))
        kids.append(times(rng, self.v))
        kids += [N('IsExpanded', 'True')]
        for _ in range(rng.randrange(0, 2 if self.small else 4)): kids.append(self.entry())
        if depth:
            for _ in range(rng.randrange(0, 2 if self.small else 3)): kids.append(self.group(depth - 1))
        return N('Group', kids=kids)
    def tree(self, bin=None, depth=3):
        """bin: None (no bin recorded), 'yes' (recorded and present), 'gone' (recorded uuid not present)."""
        rng, v = self.rng, self.v
        T = lambda: self.T()
        root = self.group(0, name=text(rng))
        for _ in range(rng.randrange(1, 4)): root.add(self.group(depth - 1))
        groups = [g for g in root.iter() if g.tag == 'Group' and g is not root]
        if bin is None: bin = rng.choice(['no', 'yes', 'gone'])
        bu = b'\0' * 16
        self.bin = None
        if bin == 'yes':
            g = rng.choice(groups); self.bin = g
            bu = base64.b64decode(g.find('UUID').text)
        elif bin == 'gone': bu = rand_uuid(rng)
        meta = [N('Generator', 'KeePass'), N('DatabaseName', T()), N('DatabaseNameChanged', enc_time(v, rand_time(rng))), N('DatabaseDescription', T()),
                N('DefaultUserName', T()), N('MaintenanceHistoryDays', '365'), N('Color'), N('MasterKeyChanged', enc_time(v, rand_time(rng))),
                N('MasterKeyChangeRec', str(rng.choice([-1, 30, 0]))), N('MasterKeyChangeForce', str(rng.choice([-1, 90, 0]))),
                N('MemoryProtection', kids=[N('ProtectTitle', 'False'), N('ProtectPassword', 'True')]),
                N('RecycleBinEnabled', 'True'), N('RecycleBinUUID', b64(bu)), N('RecycleBinChanged', enc_time(v, rand_time(rng))),
                N('HistoryMaxItems', '10'), N('CustomData', kids=[N('Item', kids=[N('Key', 'k'), N('Value', T() or 'v', {'Protected': 'True'} if rng.random() < .3 else None)])])]
        if v == 3:
            meta.append(N('Binaries'))
        do = N('DeletedObjects', kids=[N('DeletedObject', kids=[N('UUID', b64(rand_uuid(rng))), N('DeletionTime', enc_time(v, rand_time(rng)))])])
        return N('KeePassFile', kids=[N('Meta', kids=meta), N('Root', kids=[root, do])])

def rand_bytes(rng, n=None):
    if n is None: n = rng.choice([0, 1, 2, 15, 16, 17, 100, 1000])
    return bytes(rng.randrange(256) for _ in range(min(n, 64))) * (n // 64 + 1) if n > 64 else bytes(rng.randrange(256) for _ in range(n))

def gzip(b):
    c = zlib.compressobj(6, zlib.DEFLATED, 31)
    return c.compress(b) + c.flush()

def make(rng, v, nbin=None, bin=None, quote=False, small=False, empties=True, depth=3, **dbk):
    """A generated database: (DB for ref_kdbx, mirror tree, list of binary data)."""
    if nbin is None: nbin = rng.choice([0, 1, 2, 4])
    g = Gen(rng, v, nbin, small, quote, empties)
    tree = g.tree(bin, depth)
    blobs = [rand_bytes(rng) for _ in range(nbin)]
    if v == 3:
        bs = tree.find('Meta').find('Binaries')
        for i, b in enumerate(blobs):
            c = rng.random() < .5
            bs.add(N('Binary', b64(gzip(b) if c else b), {'ID': str(i), 'Compressed': str(c)} if c or rng.random() < .5 else {'ID': str(i)}))
    k = dict(version=v, root=tree.xml(), stream_id='chacha20' if v == 4 else 'salsa20', kdf_params={'S': b'S' * 32, 'R': 1})
    if v == 4: k['binaries'] = [(rng.randrange(2), b) for b in blobs]
    k.update(dbk)
    return R.DB(**k), tree, blobs, g

def open_db(rng, v, **k):
    """Open a generated database through /repo's public interface."""
    from pykeepass import PyKeePass
    db, tree, blobs, g = make(rng, v, **k)
    kp = PyKeePass(io.BytesIO(R.write(db)), password=db.password)
    return kp, tree, blobs, g

def reopen(kp):
    from pykeepass import PyKeePass
    f = io.BytesIO()
    kp.save(f)
    f.seek(0)
    return PyKeePass(f, password=kp.password, keyfile=kp.keyfile)

def saved_tree(kp):
    """What an independent reader finds in the file that a save writes."""
    f = io.BytesIO()
    kp.save(f)
    db = R.read(f.getvalue(), password=kp.password)
    return mirror(db.root).t(), db

def rng_of(case): return random.Random('%s' % case['seed'])
def simple_cases(rng, i, thorough): return {'seed': rng.getrandbits(48), 'v': 3 + (i // 8) % 2, 'i': i}

class Bad(Exception): pass
def must(c, msg, *a):
    if not c: raise Bad(msg % a if a else msg)
def same(a, b, msg):
    if a != b:
        raise Bad('%s: %s' % (msg, diff(a, b) if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str) and len(a) == 4 else '%.300r vs %.300r' % (a, b)))
def guarded(f):
    """check() from a function that raises Bad."""
    def check(case):
        try: f(case)
        except Bad as e: return str(e)
        return None
    return check

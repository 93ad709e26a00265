"""Assumed contracts of datetime and uuid.

A datetime is a wall-clock reading (microseconds since 0001-01-01T00:00) with a UTC offset (microseconds), or naive (no offset)."""
import z3, datetime as _dt, uuid as _uuid
from .core import eng, SymBool, mk_bool, Unsupported, axiom
from .values import SymStr, SymInt, SymBytes, zint, mk_int, int_var, ufi, ufp, zs, bvar, uf
from . import libs
from .libs import assumed, module

US = 10 ** 6
DAY = 86400 * US
EPOCH = 719162 * DAY            # 1970-01-01
MAXWALL = 3652059 * DAY        # 10000-01-01
A = 'datetime: aware values denote instants; comparison, difference, addition, astimezone and isoformat/fromisoformat follow the instants'

class SymTD:
    """timedelta of us microseconds."""
    def __init__(self, us): self.us = us
    @property
    def days(self): return mk_int(zint(self.us) / DAY)
    @property
    def seconds(self): return mk_int((zint(self.us) % DAY) / US)
    @property
    def microseconds(self): return mk_int(zint(self.us) % US)
    def total_seconds(self): return SymSec(self.us)
    def __add__(self, o):
        if isinstance(o, SymTD): return SymTD(self.us + o.us)
        return NotImplemented
    def __sub__(self, o):
        if isinstance(o, SymTD): return SymTD(self.us - o.us)
        return NotImplemented
    def __neg__(self): return SymTD(-self.us)
    def __mul__(self, k): return SymTD(self.us * k)
    __rmul__ = __mul__
    def __floordiv__(self, o):
        if isinstance(o, SymTD) and isinstance(o.us, int) and o.us > 0: return mk_int(zint(self.us) / o.us)
        raise Unsupported('timedelta division')
    def __truediv__(self, o): raise Unsupported('timedelta division')
    def __mod__(self, o):
        if isinstance(o, SymTD) and isinstance(o.us, int) and o.us > 0: return SymTD(mk_int(zint(self.us) % o.us))
        raise Unsupported('timedelta modulo')
    def _c(self, o, f):
        if not isinstance(o, SymTD): return NotImplemented
        return mk_bool(f(zint(self.us), zint(o.us)))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if not isinstance(o, SymTD): return False
        return mk_bool(zint(self.us) == zint(o.us))
    def __bool__(self): return bool(mk_bool(zint(self.us) != 0))
    __hash__ = None

class SymSec:
    """A number of seconds with fraction (total_seconds())."""
    def __init__(self, us): self.us = us
    def vc_int(self):
        assumed('float seconds of a datetime convert to the whole seconds exactly (rounding of .999999 apart)')
        u = zint(self.us)
        return mk_int(z3.If(u >= 0, u / US, -((-u) / US)))
    def __floordiv__(self, k):
        if isinstance(k, int) and k > 0: return SymSec(mk_int((zint(self.us) / (US * k)) * US))
        raise Unsupported('division')
    def __truediv__(self, k):
        if isinstance(k, int) and k > 0: return SymRat(self.us, US * k)
        raise Unsupported('division')
    def _c(self, k, f):
        if isinstance(k, (int, SymInt)): return mk_bool(f(zint(self.us), zint(k) * US))
        if isinstance(k, SymSec): return mk_bool(f(zint(self.us), zint(k.us)))
        return NotImplemented
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __round__(self, *a): raise Unsupported('round of seconds')
class SymRat:
    def __init__(self, n, d): self.n, self.d = n, d
    def vc_int(self):
        u = zint(self.n)
        return mk_int(z3.If(u >= 0, u / self.d, -((-u) / self.d)))
    def _c(self, k, f):
        if isinstance(k, (int, SymInt)): return mk_bool(f(zint(self.n), zint(k) * self.d))
        return NotImplemented
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    us = 0
    for x, unit in ((microseconds, 1), (milliseconds, 1000), (seconds, US), (minutes, 60 * US), (hours, 3600 * US), (days, DAY), (weeks, 7 * DAY)):
        if isinstance(x, SymSec):
            if unit % US: raise Unsupported('timedelta of a fraction')
            us = us + x.us * (unit // US); continue
        if isinstance(x, SymRat):
            if unit % x.d: raise Unsupported('timedelta of a fraction')
            us = us + x.n * (unit // x.d); continue
        if hasattr(x, 'vc_int') and not isinstance(x, (int, SymInt)): raise Unsupported('timedelta of a fraction')
        if isinstance(x, float):
            if x != int(x): raise Unsupported('timedelta of a fraction')
            x = int(x)
        us = us + x * unit
    if not bool(mk_bool(z3.And(zint(us) <= 999999999 * DAY, zint(us) >= -999999999 * DAY))): raise OverflowError('days out of range')
    return SymTD(us)

class TZ:
    def __init__(self, off, name='tz'): self.off, self.name = off, name
    def __eq__(self, o): return isinstance(o, TZ) and mk_bool(zint(self.off) == zint(o.off))
    def __bool__(self): return True
    __hash__ = None
    def utcoffset(self, d): return SymTD(self.off)
class timezone_cls:
    utc = TZ(0, 'UTC')
    def __call__(self, off, name=None): return TZ(off.us)
timezone = timezone_cls()
UTC = timezone_cls.utc

class SymDT:
    vc_dt = True
    def __init__(self, wall, tz, fields=None): self.wall, self.tzinfo = wall, tz
    @property
    def instant(self):
        if self.tzinfo is None: raise Unsupported('instant of a naive time')
        return self.wall - self.tzinfo.off
    def utcoffset(self): return None if self.tzinfo is None else SymTD(self.tzinfo.off)
    @property
    def microsecond(self): return mk_int(zint(self.wall) % US)
    @property
    def second(self): return mk_int((zint(self.wall) / US) % 60)
    def __sub__(self, o):
        assumed(A)
        if isinstance(o, SymDT):
            if (self.tzinfo is None) != (o.tzinfo is None): raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            if self.tzinfo is None: return SymTD(self.wall - o.wall)
            return SymTD(self.instant - o.instant)
        if isinstance(o, SymTD): return self + (-o)
        return NotImplemented
    def __add__(self, o):
        assumed(A)
        if not isinstance(o, SymTD): return NotImplemented
        wl = self.wall + o.us
        if not bool(mk_bool(z3.And(zint(wl) >= 0, zint(wl) < MAXWALL))): raise OverflowError('date value out of range')
        return SymDT(wl, self.tzinfo)
    __radd__ = __add__
    def _c(self, o, f):
        assumed(A)
        if not isinstance(o, SymDT): return NotImplemented
        if (self.tzinfo is None) != (o.tzinfo is None): raise TypeError("can't compare offset-naive and offset-aware datetimes")
        if self.tzinfo is None: return mk_bool(f(zint(self.wall), zint(o.wall)))
        return mk_bool(f(zint(self.instant), zint(o.instant)))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if not isinstance(o, SymDT): return False
        if (self.tzinfo is None) != (o.tzinfo is None): return False
        return self._c(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    def __hash__(self): raise Unsupported('hash of a symbolic time')
    def vc_hash(self):
        from .hooks import SymHash
        return SymHash((self,))
    def __bool__(self): return True
    def astimezone(self, tz=None):
        assumed(A)
        if tz is None: raise Unsupported('astimezone to the local zone')
        inst = self.instant if self.tzinfo is not None else self.wall - local_offset(self.wall)
        wl = inst + tz.off
        if not bool(mk_bool(z3.And(zint(wl) >= 0, zint(wl) < MAXWALL))): raise OverflowError('date value out of range')
        return SymDT(wl, tz)
    def replace(self, **k):
        tz = k.pop('tzinfo', self.tzinfo)
        wl = self.wall
        if 'microsecond' in k:
            u = k.pop('microsecond')
            wl = mk_int((zint(wl) / US) * US + zint(u))
        if k: raise Unsupported('datetime.replace')
        return SymDT(wl, tz)
    def isoformat(self, sep='T', timespec='auto'):
        assumed(A)
        if sep != 'T': raise Unsupported('isoformat separator')
        wl = self.wall
        if timespec == 'seconds': wl = mk_int((zint(wl) / US) * US)
        elif timespec not in ('auto', 'microseconds'): raise Unsupported('timespec')
        return iso_text(wl, '' if self.tzinfo is None else self.tzinfo.off)
    def strftime(self, f): raise Unsupported('strftime')
    def timestamp(self):
        assumed(A)
        inst = self.instant if self.tzinfo is not None else self.wall - local_offset(self.wall)
        return SymSec(inst - EPOCH)
    def date(self): raise Unsupported('date')
    time = date
    def __repr__(self): return 'SymDT(%r, %r)' % (self.wall, self.tzinfo and self.tzinfo.off)

_loc = z3.Function('local_utc_offset', z3.IntSort(), z3.IntSort())
_locat = z3.Function('local_offset_at', z3.IntSort(), z3.IntSort())
def local_offset(wall):
    t = _loc(zint(wall))
    axiom(z3.And(t > -DAY, t < DAY))
    return SymInt(t)

def local_offset_at(inst):
    # offset of local time at an instant; the fold attribute makes the way back exact
    t = _locat(zint(inst))
    axiom(z3.And(t > -DAY, t < DAY, _loc(zint(inst) + t) == t))
    return SymInt(t)

def iso_text(wall, suffix):
    """The ISO text of a wall-clock reading with a suffix: '' (none), 'Z', or a UTC offset in microseconds."""
    if suffix == '' or suffix == 'Z':
        s = z3.Function('iso_' + (suffix or 'naive'), z3.IntSort(), z3.StringSort())(zint(wall))
    else: s = z3.Function('iso_off', z3.IntSort(), z3.IntSort(), z3.StringSort())(zint(wall), zint(suffix))
    axiom(z3.Length(s) >= 10)
    return SymStr(s, origin=('isotext', wall, suffix))

def fromisoformat(s):
    assumed(A)
    if isinstance(s, str): return conv(_dt.datetime.fromisoformat(s))
    if not isinstance(s, SymStr): raise TypeError('fromisoformat: argument must be str')
    o = s.origin
    if o and o[0] == 'isotext':
        sfx = o[2]
        if sfx == '': return SymDT(o[1], None)
        return SymDT(o[1], UTC if sfx == 'Z' else TZ(sfx))
    if o and o[0] == 'replaced' and o[2] == 'Z': raise Unsupported('time text of unknown form')
    if not bool(ufp('iso_ok', [s])): raise ValueError('Invalid isoformat string')
    wl = ufi('iso_wall', [s]); axiom(z3.And(wl.e >= 0, wl.e < MAXWALL))
    if bool(ufp('iso_isnaive', [s])): return SymDT(wl, None)
    off = ufi('iso_offset', [s]); axiom(z3.And(off.e > -DAY, off.e < DAY))
    return SymDT(wl, TZ(off))

def conv(d):
    e = _dt.datetime(1, 1, 1)
    td = d.replace(tzinfo=None) - e
    us = (td.days * 86400 + td.seconds) * US + td.microseconds
    tz = None
    if d.tzinfo is not None:
        o = d.utcoffset(); tz = TZ((o.days * 86400 + o.seconds) * US + o.microseconds)
    return SymDT(us, tz)

class datetime_meta(type):
    def __instancecheck__(cls, x): return isinstance(x, SymDT)
    def __call__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
        r = conv(_dt.datetime(year, month, day, hour, minute, second, microsecond))
        r.tzinfo = tzinfo
        return r
class datetime(metaclass=datetime_meta):
    @staticmethod
    def now(tz=None):
        assumed('datetime.now(): the current instant (later calls are not earlier)')
        e = eng()
        w = clock()
        if tz is None: return SymDT(w + local_offset_at(w), None)
        return SymDT(w + tz.off, tz)
    @staticmethod
    def utcnow(): return SymDT(clock(), None)
    @staticmethod
    def fromisoformat(s): return fromisoformat(s)
    @staticmethod
    def strptime(s, f): raise Unsupported('strptime')
    @staticmethod
    def fromtimestamp(*a): raise Unsupported('fromtimestamp')
    min = max = None

def clock():
    """The current instant: later readings are not earlier."""
    e = eng()
    t = int_var('now', 500 * 365 * DAY, 9000 * 365 * DAY)
    cl = e.__dict__.setdefault('_clock', [])
    if cl and cl[-1][0] is not e.pc: cl.clear()
    if cl: axiom(t.e >= cl[-1][1].e)
    cl.append((e.pc, t))
    return t
def clocks():
    e = eng()
    return [t for p, t in e.__dict__.get('_clock', []) if p is e.pc]

datetime_mod = module('datetime', datetime=datetime, timedelta=timedelta, timezone=timezone, UTC=UTC)

def any_dt(name, naive=False, lo=DAY, hi=MAXWALL - DAY):
    """An arbitrary aware datetime with an arbitrary UTC offset."""
    inst = int_var(name, lo, hi - 1)
    if naive: return SymDT(inst, None)
    off = int_var(name + '_offset', -DAY + 1, DAY - 1)
    return SymDT(inst + off, TZ(off))

# ---- uuid ------------------------------------------------------------------------------------------------
class SymUUID:
    def __init__(self, b): self._b = b
    @property
    def bytes(self): return self._b
    @property
    def hex(self):
        return libs.bytes_hex(SymBytes.of(self._b))
    @property
    def int(self): raise Unsupported('uuid.int')
    def vc_text(self): raise Unsupported('str(uuid)')
    def __eq__(self, o):
        if not isinstance(o, SymUUID): return False
        return SymBytes.of(self._b) == o._b
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    def __bool__(self): return True
    def vc_hash(self):
        from .hooks import SymHash
        return SymHash((SymBytes.of(self._b),))
    def __hash__(self): raise Unsupported('hash of a symbolic uuid')
    def __repr__(self): return 'SymUUID(%r)' % (self._b,)

class UUID_meta(type):
    def __instancecheck__(cls, x): return isinstance(x, SymUUID)
    def __call__(cls, hex=None, bytes=None, **k):
        assumed('uuid.UUID: 16 bytes or 32 hex digits (any case), .bytes/.hex give them back; other lengths raise ValueError')
        if k: raise Unsupported('UUID arguments')
        if bytes is not None:
            b = SymBytes.of(bytes)
            if not bool(mk_bool(zint(b.vc_len()) == 16)): raise ValueError('bytes is not a 16-char string')
            return SymUUID(b)
        if isinstance(hex, SymStr):
            o = hex.origin
            if o and o[0] in ('hex', 'hexup'): return SymUUID(o[1])
            if not bool(ufp('uuidhex_ok', [hex])): raise ValueError('badly formed hexadecimal UUID string')
            return SymUUID(uf('uuidhex', [hex], 16))
        if hex is None: raise TypeError('one of the hex, bytes arguments must be given')
        return SymUUID(_uuid.UUID(hex).bytes)
class UUID(metaclass=UUID_meta): pass

def fresh_uuid():
    assumed('uuid.uuid1/uuid4: a value different from every UUID present in the database and from earlier ones')
    b = bvar('fresh_uuid', 16)
    e = eng()
    l = e.__dict__.setdefault('_uuids', [])
    if l and l[-1][0] is not e.pc: l.clear()
    for p, x in l: axiom(x.parts[0].z != b.parts[0].z)
    axiom(z3.Function('is_fresh_uuid', b.parts[0].z.sort(), z3.BoolSort())(b.parts[0].z))
    l.append((e.pc, b))
    return SymUUID(b)
uuid_mod = module('uuid', UUID=UUID, uuid1=lambda *a: fresh_uuid(), uuid4=fresh_uuid, NAMESPACE_DNS=None)

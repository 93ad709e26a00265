"""C16 on the unmodified code."""
import uuid, copy
from . import cx
from .cx import must, same
BUDGET = (12, 150)
RULE = 'elements with equal, different, colliding (same hash) and rewritten UUIDs compared pairwise with each other and with other objects'
cases = cx.simple_cases

def clash(rng, u):
    """A different UUID with the same integer hash."""
    n = u.int + (2 ** 61 - 1) * rng.randrange(1, 1000)
    return uuid.UUID(int=n % 2 ** 128 if n < 2 ** 128 else u.int % (2 ** 61 - 1))

@cx.guarded
def check(case):
    from pykeepass.entry import Entry
    from pykeepass.group import Group
    rng = cx.rng_of(case)
    kp, tree, blobs, g = cx.open_db(rng, case['v'], small=rng.random() < .6)
    while len(kp.entries) < 2: kp.add_entry(kp.root_group, 'a', 'b', 'c', force_creation=True)
    for _ in range(4):
        o = rng.choice(kp.entries + kp.groups)
        before = cx.Mirror(kp)
        n = before.of(o)
        u = rng.choice([uuid.UUID(int=rng.getrandbits(128)), uuid.UUID(int=0), uuid.UUID(int=2 ** 128 - 1), rng.choice(kp.entries).uuid, clash(rng, rng.choice(kp.entries).uuid)])
        o.uuid = u
        must(o.uuid == u, 'uuid reads %s after writing %s', o.uuid, u)
        m = cx.Mirror(kp)
        m.of(o).kids = [k for k in m.of(o).kids if k.tag != 'UUID'] + [k for k in m.of(o).kids if k.tag == 'UUID']
        n.kids = [k for k in n.kids if k.tag != 'UUID'] + [k for k in n.kids if k.tag == 'UUID']
        n.find('UUID').text = cx.b64(u.bytes)
        same(m.t(), before.t(), 'setting uuid: rest of the database')
    ents = kp.entries[:6]
    if ents and rng.random() < .8:
        e = ents[0]
        e.save_history()
        if rng.random() < .5: e.save_history()
        if rng.random() < .5: e.mtime = cx.rand_time(rng); e.save_history()
    hs = [h for e in ents for h in e.history][:6]
    objs = ents + [Entry(element=e._element, kp=kp) for e in ents[:3]]
    for xs in (objs, kp.groups[:6] + [Group(element=x._element, kp=kp) for x in kp.groups[:2]]):
        for a in xs:
            for b in xs:
                eq = a.uuid == b.uuid
                must((a == b) is eq and (a != b) is (not eq), 'elements with uuids %s and %s: equality is %r', a.uuid, b.uuid, a == b)
                if eq: must(hash(a) == hash(b), 'equal elements with different hashes')
    for a in hs:
        for b in hs:
            eq = a.uuid == b.uuid and a.mtime == b.mtime
            must((a == b) is eq, 'history items: equality is %r, expected %r', a == b, eq)
            if eq: must(hash(a) == hash(b), 'equal history items with different hashes')
        for b in ents:
            must(not (a == b) and not (b == a) and a != b, 'a history item equals a current entry')
    for a in (ents + hs + kp.groups)[:8]:
        for x in (None, 0, 'x', a.uuid, a._element, object(), (a.uuid,), [], hash(a)):
            must((a == x) is False and (x == a) is False and (a != x) is True, 'comparison with %s', type(x).__name__)
    must(len({*ents}) == len({e.uuid for e in ents}), 'set of entries')

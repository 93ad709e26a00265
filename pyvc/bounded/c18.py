"""C18 on the unmodified code."""
from . import cx
from .cx import must
BUDGET = (15, 200)
RULE = 'a generated database with repeated names; paths of all elements compared with their position, look-ups of existing and altered paths compared with a direct search'
cases = cx.simple_cases

def gpath(n):
    p = []
    while n.up.tag != 'Root':
        p.insert(0, n.find('Name').text)
        n = n.up
    return p

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    kp, tree, blobs, g = cx.open_db(rng, case['v'], small=rng.random() < .3, empties=False, depth=rng.choice([2, 3, 4]))
    if rng.random() < .6:      # few different names
        for x in kp.groups: x.name = rng.choice(['a', 'b', 'a ', 'A', '/'])
        for e in kp.entries: e.title = rng.choice(['t', 'u', 'T', 'a'])
    for e in kp.entries:
        if not e.title: e.title = 't'
    if rng.random() < .1:      # deep nesting
        x = rng.choice(kp.groups)
        for i in range(rng.choice([12, 25, 45])): x = kp.add_group(x, rng.choice(['a', 'b', 'd%d' % i]))
        kp.add_entry(x, 'deep', 'u', 'p')
    if rng.random() < .5 and kp.entries:
        x = rng.choice(kp.groups); e = rng.choice(kp.entries)
        kp.move_entry(e, x)
    m = cx.Mirror(kp)
    gs = [n for n in m.root.find('Root').iter() if n.tag == 'Group']
    es = [n for n in m.root.find('Root').iter() if n.tag == 'Entry' and n.up.tag == 'Group']
    ep = [(gpath(n.up) + [n.field('Title').text], n) for n in es]
    gp = [(gpath(n), n) for n in gs]
    for x in kp.groups: must(x.path == gpath(m.of(x)), 'path of a group is %r, expected %r', x.path, gpath(m.of(x)))
    for x in kp.entries:
        n = m.of(x)
        must(x.path == gpath(n.up) + [n.field('Title').text], 'path of an entry is %r', x.path)
        for h in x.history[:1]:
            t = m.of(h).field('Title')
            must(h.path == gpath(n.up) + [t.text if t is not None else None], 'path of a history item is %r', h.path)
    must(kp.root_group.path == [] and kp.root_group._element is m.elem(gs[0]), 'root group')
    def first(lst, p):
        for q, n in lst:
            if q == p: return m.elem(n)
    def look(f, lst, p):
        r = f(path=p)
        exp = first(lst, p)
        must((r is None) == (exp is None), '%s(path=%r) gives %r although %s element has this path', f.__name__, p, r, 'no' if exp is None else 'an')
        must(r is None or r._element is exp, '%s(path=%r) is not the first element with this path', f.__name__, p)
    for lst, f in ((ep, kp.find_entries), (gp, kp.find_groups)):
        ps = [q for q, _ in lst]
        for p in rng.sample(ps, min(len(ps), 8)):
            look(f, lst, p)
        names = [x for q in ps for x in q] + ['zz']
        for _ in range(8):
            p = list(rng.choice(ps)) if ps else ['x']
            k = rng.randrange(5)
            if k == 0 and p: p[rng.randrange(len(p))] = rng.choice(names)
            elif k == 1: p.append(rng.choice(names))
            elif k == 2: p = p[1:]
            elif k == 3: p = p[:-1]
            else: p.insert(0, rng.choice(names))
            if not p and f is kp.find_entries: continue
            if '' in p: continue
            look(f, lst, p)
    for x in rng.sample(kp.entries, min(3, len(kp.entries))): must(kp.find_entries(path=x.path).path == x.path, 'own path')
def _q():
    import random
    kp, *_ = cx.open_db(random.Random(1), 4)
    e = kp.entries[0]; e.title = 'a"b'
    try: kp.find_entries(path=e.path)
    except Exception as x: return type(x).__name__
KNOWN = [('looking up a path that contains a double quote raises XPathEvalError', _q)]

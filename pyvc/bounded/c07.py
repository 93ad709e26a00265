"""C07 on the unmodified code: random tree edits compared with the expected tree."""
from . import cx
from .cx import must, same
BUDGET = (20, 240)
RULE = 'a generated database and a sequence of additions, moves, deletions, emptyings and re-indexings, each compared with the expected tree'
cases = cx.simple_cases

def consecutive(g):
    idx = [i for i, k in enumerate(g.kids) if k.tag == 'Entry']
    return idx and idx == list(range(idx[0], idx[0] + len(idx)))

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    kp, tree, blobs, g = cx.open_db(rng, case['v'], small=rng.random() < .5)
    for step in range(rng.choice([4, 8, 14])):
        ents, groups = kp.entries, kp.groups
        m = cx.Mirror(kp)
        op = rng.choice(['adde', 'addg', 'movee', 'movee', 'moveg', 'moveg', 'dele', 'delg', 'empty', 'reindex', 'reindex', 'appendlist', 'index'])
        dest = rng.choice(groups)
        d = m.of(dest)
        if op == 'adde':
            e = kp.add_entry(dest, cx.text(rng), cx.text(rng), cx.text(rng), force_creation=True)
            m2 = cx.Mirror(kp)
            n = m2.of(e)
            must(n.up is m2.of(dest) and n.up.kids[-1] is n, 'a new entry is not last in its group')
            n.rm()
            same(m2.t(), m.t(), 'add_entry: rest of the database')
            continue
        if op == 'addg':
            x = kp.add_group(dest, cx.text(rng), rng.choice([None, '3']), rng.choice([None, cx.text(rng)]))
            m2 = cx.Mirror(kp)
            n = m2.of(x)
            must(n.up is m2.of(dest) and n.up.kids[-1] is n, 'a new group is not last in its group')
            n.rm()
            same(m2.t(), m.t(), 'add_group: rest of the database')
            continue
        if op == 'movee' and ents:
            e = rng.choice(ents)
            if rng.random() < .5: kp.move_entry(e, dest)
            else: dest.append(e)
            n = m.of(e); n.rm(); d.add(n)
            what = 'move_entry'
            must(e.group._element is dest._element, 'the moved entry is not in the destination')
        elif op == 'moveg':
            x = rng.choice(groups)
            n = m.of(x)
            if x.is_root_group: continue
            bad = n is d or n in list(d.ups())
            try: kp.move_group(x, dest) if rng.random() < .5 else dest.append(x)
            except ValueError:
                must(bad, 'move_group refused')
            else:
                if bad: continue
                n.rm(); d.add(n)
            what = 'move_group'
        elif op == 'appendlist':
            es = rng.sample(ents, min(len(ents), rng.randrange(0, 4)))
            dest.append(es)
            for e in es:
                n = m.of(e); n.rm(); d.add(n)
            what = 'append(list)'
        elif op == 'dele' and ents:
            e = rng.choice(ents)
            kp.delete_entry(e) if rng.random() < .5 else e.delete()
            m.of(e).rm()
            what = 'delete_entry'
        elif op == 'delg':
            cand = [x for x in groups if not x.is_root_group]
            if not cand: continue
            x = rng.choice(cand)
            kp.delete_group(x) if rng.random() < .5 else x.delete()
            m.of(x).rm()
            what = 'delete_group'
        elif op == 'empty':
            kp.empty_group(dest)
            d.kids = [k for k in d.kids if k.tag not in ('Entry', 'Group')]
            what = 'empty_group'
        elif op == 'reindex' and ents:
            e = rng.choice(ents)
            n = m.of(e)
            p = n.up
            if not consecutive(p): continue
            es = p.all('Entry')
            first = p.kids.index(es[0])
            i = rng.randrange(len(es))
            e.reindex(i)
            n.rm(); p.add(n, first + i)
            what = 'reindex(%d) of %d' % (i, len(es))
            must(e.index == i, 'index is %r after reindex(%r)', e.index, i)
        elif op == 'index' and ents:
            e = rng.choice(ents)
            n = m.of(e)
            if consecutive(n.up):
                must(e.index == [k for k in n.up.kids if k.tag == 'Entry'].index(n), 'index')
            must([x._element for x in dest.entries] == [m.elem(k) for k in d.all('Entry')], 'entries of a group')
            must([x._element for x in dest.subgroups] == [m.elem(k) for k in d.all('Group')], 'subgroups of a group')
            what = 'reading'
        else: continue
        same(cx.snap(kp), m.t(), what)

"""C11 on the unmodified code."""
from . import cx
from .cx import must, same
BUDGET = (20, 240)
RULE = 'a generated database and a sequence of history saves, edits and history deletions, each compared with the expected tree'
cases = cx.simple_cases

def body(n): return tuple(k.t() for k in n.kids if k.tag != 'History')
def hist(n):
    hs = n.all('History')
    must(len(hs) <= 1, 'two History elements in one entry')
    return [k.t() for k in hs[0].kids] if hs else []

@cx.guarded
def check(case):
    rng = cx.rng_of(case)
    kp, tree, blobs, g = cx.open_db(rng, case['v'], small=rng.random() < .6)
    if not kp.entries: kp.add_entry(kp.root_group, 'a', 'b', 'c')
    focus = rng.sample(kp.entries, min(3, len(kp.entries)))
    long = rng.random() < .1
    if long:                                     # an entry with a long history
        for _ in range(rng.choice([9, 19, 30, 60, 110])):
            if rng.random() < .2: focus[0].title = cx.text(rng)
            focus[0].save_history()
    for step in range(rng.choice([4, 8, 16])):
        e = focus[0] if long and step < 3 else rng.choice(focus)
        before = cx.Mirror(kp)
        n = before.of(e)
        op = 'save' if long and not step else rng.choice(['save', 'save', 'save', 'edit', 'edit', 'delone', 'delone', 'delall', 'list'])
        h0 = hist(n)
        hh = n.find('History')
        if op == 'save':
            e.save_history()
            exp = h0 + [('Entry', n.text, tuple(sorted(n.attrib.items())), body(n))]
        elif op == 'edit':
            f = rng.choice(['title', 'password', 'notes', 'custom', 'tags', 'atime', 'attach'])
            if f == 'custom': e.set_custom_property(cx.key_text(rng), cx.text(rng), rng.random() < .5)
            elif f == 'tags': e.tags = ['x', 'y']
            elif f == 'atime': e.touch(modify=True)
            elif f == 'attach': e.add_attachment(0, 'f')
            else: setattr(e, f, cx.text(rng))
            exp = h0
        elif op == 'delone':
            hs = e.history
            if not hs: continue
            i = rng.randrange(len(hs))
            e.delete_history(hs[i])
            exp = h0[:i] + h0[i + 1:]
        elif op == 'delall':
            e.delete_history(all=True)
            exp = []
        else:
            hs = e.history
            must([cx.mirror(h._element).t() for h in hs] == h0, 'history does not list the history items')
            must(all(h.is_a_history_entry for h in hs) and not e.is_a_history_entry, 'is_a_history_entry')
            g2 = e.group
            must(all(x._element.getparent().tag == 'Group' for x in g2.entries + kp.entries), 'a history item appears as an entry of its group')
            continue
        after = cx.Mirror(kp)
        n2 = after.of(e)
        same(hist(n2), exp, '%s: history items' % op)
        if op != 'edit': same(body(n2), body(n), '%s: the entry itself' % op)
        if op == 'delall': must(not n2.all('History') or not n2.find('History').kids, 'history left')
        n2.kids, n.kids = [], []
        same(after.t(), before.t(), '%s: rest of the database' % op)
        must([h._element for h in e.history] == list(e._element.findall('History/Entry')), 'history list')
        must(all(x._element.getparent().tag == 'Group' for x in kp.entries), 'a history item appears as an entry')

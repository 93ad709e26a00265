"""C08 on the unmodified code."""
import base64
from . import cx
from .cx import must, same
BUDGET = (20, 240)
RULE = 'a generated database with, without or with a dangling recycle bin and a sequence of trash operations mixed with deletions of the bin, compared with the expected tree'
cases = cx.simple_cases

def bin_of(m):
    u = m.root.find('Meta').find('RecycleBinUUID').text
    if base64.b64decode(u) == b'\0' * 16 and False: return None
    for n in m.root.find('Root').iter():
        if n.tag == 'Group' and n.find('UUID').text == u: return n

@cx.guarded
def check(case):
    from pykeepass.exceptions import UnableToSendToRecycleBin
    rng = cx.rng_of(case)
    kp, tree, blobs, g = cx.open_db(rng, case['v'], small=rng.random() < .7)
    for step in range(rng.choice([3, 6, 10])):
        ents, groups = kp.entries, kp.groups
        m = cx.Mirror(kp)
        b = bin_of(m)
        must((kp.recyclebin_group is None) == (b is None) and (b is None or kp.recyclebin_group._element is m.elem(b)), 'recyclebin_group is not the group recorded as recycle bin')
        op = rng.choice(['e', 'e', 'e', 'g', 'g', 'root', 'bin', 'delbin', 'fromhist'])
        root = m.root.find('Root').find('Group')
        if op in ('root', 'bin'):
            if op == 'root': x = kp.root_group
            else:
                x = kp.recyclebin_group
                if x is None: continue
            try: kp.trash_group(x)
            except UnableToSendToRecycleBin: pass
            else: must(False, 'trashing the %s was accepted', op)
            same(cx.snap(kp), m.t(), 'refused trash_group(%s)' % op)
            continue
        if op == 'delbin':
            if b is None or rng.random() < .5: continue
            kp.delete_group(kp.recyclebin_group)
            b.rm()
            same(cx.snap(kp), m.t(), 'delete bin')
            continue
        if op == 'fromhist':
            continue
        pool = ents if op == 'e' else [x for x in groups if not x.is_root_group and (b is None or m.of(x) is not b)]
        if not pool: continue
        x = rng.choice(pool)
        n = m.of(x)
        if b is not None and n in list(b.ups()):
            try: kp.trash_group(x)
            except Exception: pass
            else: must(False, 'a group containing the recycle bin was moved into it')
            same(cx.snap(kp), m.t(), 'refused trash_group of a parent of the bin')
            continue
        (kp.trash_entry if op == 'e' else kp.trash_group)(x)
        m2 = cx.Mirror(kp)
        if b is None:
            nb = bin_of(m2)
            must(nb is not None, 'no recycle bin was recorded')
            must(nb.up is m2.root.find('Root').find('Group'), 'the new recycle bin is not under the root group')
            must(all(nb is not k for _, k in [(0, z) for z in ()]), '')
            must(id(m2.elem(nb)) not in m.by, 'an existing group was recorded as recycle bin')
            must(m2.of(x).up is nb and [k for k in nb.kids if k.tag in ('Entry', 'Group')] == [m2.of(x)], 'the trashed element is not alone in the new bin')
            must(m2.of(x).t() == n.t(), 'the trashed element changed')
            # remove the new bin and the recorded id; the rest must be the old tree without the element
            pos = nb.up.kids.index(nb)
            must(all(k.tag != 'Entry' or True for k in nb.up.kids), '')
            nb.rm()
            m2.root.find('Meta').find('RecycleBinUUID').text = m.root.find('Meta').find('RecycleBinUUID').text
            n.rm()
            same(m2.t(), m.t(), 'trash (bin created): rest of the database')
        else:
            n.rm(); b.add(n)
            same(m2.t(), m.t(), 'trash')
        must(len([z for z in m2.root.iter() if z.tag == 'Group' and z.find('UUID').text == m2.root.find('Meta').find('RecycleBinUUID').text]) <= 1, 'two recycle bins')

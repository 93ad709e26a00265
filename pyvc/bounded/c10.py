"""C10 on the unmodified code."""
from . import cx
from .cx import must, same
BUDGET = (20, 240)
RULE = 'a generated database with binaries and attachments (also in history) and a sequence of additions, deletions, renamings; data of every binary and attachment compared with a model, also after saving and an independent read'
cases = cx.simple_cases

def attach(m):
    """All attachments of the tree: (element of entry, filename, ref)."""
    return [(n.up, n, n.find('Key').text, int(n.find('Value').attrib['Ref'])) for n in m.root.iter() if n.tag == 'Binary' and n.up.tag == 'Entry']

def strip(m):
    """The tree without binaries and attachment references."""
    for n in list(m.root.iter()):
        if n.tag == 'Binary' and n.up is not None and n.up.tag in ('Entry', 'Binaries'): n.rm()
    return m.t()

@cx.guarded
def check(case):
    from pykeepass.exceptions import BinaryError
    rng = cx.rng_of(case)
    v = case['v']
    kp, tree, blobs, g = cx.open_db(rng, v, nbin=rng.choice([0, 1, 2, 3, 5, 12]), small=rng.random() < .5)
    blobs = list(blobs)
    must(kp.binaries == blobs, 'binaries of the opened database')
    for step in range(rng.choice([3, 6, 10])):
        op = rng.choice(['add', 'del', 'del', 'delbad', 'att', 'att', 'delatt', 'rename', 'setid', 'read'])
        m = cx.Mirror(kp)
        at = attach(m)
        model = [[m.elem(a[1]), m.elem(a[0]), a[2], blobs[a[3]] if a[3] < len(blobs) else None, a[3]] for a in at]   # element, entry, filename, data
        rest = strip(m)
        if op == 'add':
            data = cx.rand_bytes(rng) if rng.random() < .8 or not blobs else rng.choice(blobs)
            kw = rng.choice([{}, dict(compressed=False), dict(protected=False), dict(compressed=True, protected=True)])
            i = kp.add_binary(data, **kw)
            blobs.append(data)
            must(isinstance(i, int) and 0 <= i < len(blobs) and kp.binaries[i] == data, 'add_binary returned id %r, under which other data is found', i)
            must(i == len(blobs) - 1, 'add_binary returned id %r of %d', i, len(blobs))
        elif op == 'del' and blobs:
            i = rng.randrange(len(blobs))
            kp.delete_binary(i)
            blobs.pop(i)
            model = [x for x in model if x[4] != i]
        elif op == 'delbad':
            i = rng.choice([len(blobs), len(blobs) + 5, -1, -len(blobs) - 1, 10 ** 6])
            try: kp.delete_binary(i)
            except BinaryError: pass
            else: must(False, 'delete_binary(%r) with %d binaries was accepted', i, len(blobs))
        elif op == 'att' and kp.entries and blobs:
            e = rng.choice(kp.entries)
            if rng.random() < .2 and e.history: e = rng.choice(e.history)
            i = rng.randrange(len(blobs)); fn = cx.text(rng, quote=True)
            a = e.add_attachment(i, fn)
            must(a.id == i and a.filename == fn and a.data == blobs[i] and a.entry._element is e._element, 'new attachment')
            model.append([a._element, e._element, fn, blobs[i], i])
        elif op in ('delatt', 'rename', 'setid') and model:
            pool = kp.find_attachments(history=True)
            must({id(a._element) for a in pool} == {id(x[0]) for x in model}, 'attachments found')
            a = rng.choice(pool)
            x = next(x for x in model if x[0] is a._element)
            if op == 'delatt':
                if rng.random() < .5: a.delete()
                else: a.entry.delete_attachment(a)
                model.remove(x)
            elif op == 'rename':
                x[2] = cx.text(rng, quote=True); a.filename = x[2]
            else:
                i = rng.randrange(len(blobs)); a.id = i; x[3] = blobs[i]
        must(kp.binaries == blobs, '%s: binaries are not those expected (%d vs %d)', op, len(kp.binaries), len(blobs))
        m2 = cx.Mirror(kp)
        now = attach(m2)
        got = sorted((id(m2.elem(a[1])), id(m2.elem(a[0])), a[2], a[3]) for a in now)
        must(len(got) == len(model), '%s: %d attachments, expected %d', op, len(got), len(model))
        for (ae, ee, fn, ref), x in zip(got, sorted(model, key=lambda x: id(x[0]))):
            must(ae == id(x[0]) and ee == id(x[1]) and fn == x[2], '%s: an attachment changed owner or name', op)
            if x[3] is None: continue
            must(0 <= ref < len(blobs) and blobs[ref] == x[3], '%s: attachment %r now refers to other data', op, fn)
        same(strip(m2), rest, '%s: rest of the database' % op)
        for e in kp.entries[:4]:
            must([id(a._element) for a in e.attachments] == [id(x) for x in e._element.findall('Binary')], 'attachments of an entry')
            for a in e.attachments:
                if a.id < len(blobs): must(a.data == blobs[a.id] and a.binary == blobs[a.id], 'data of an attachment')
                else:
                    try: a.data
                    except BinaryError: pass
                    else: must(False, 'data of an attachment to a missing binary')
    if rng.random() < .5:
        kp2 = cx.reopen(kp)
        must(kp2.binaries == blobs, 'binaries after saving and re-opening')
        t, db = cx.saved_tree(kp)
        if v == 4: must([d for _, d in db.binaries] == blobs, 'binaries in the file')
        else: must([b.attrib['ID'] for b in cx.mirror(db.root).find('Meta').find('Binaries').kids] == [str(i) for i in range(len(blobs))], 'binary IDs in the file')

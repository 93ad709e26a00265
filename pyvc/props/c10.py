"""C10: contracts of binaries and attachments."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, as_z3, axiom, PathEnd
from ..values import *
from .. import dom, libs, dtmod
from ..dom import SNode, Run, SegRef, LAZY, F_tval, F_tnone, F_parent, F_hist, F_ahas, F_aval, runs_equal
from ..seqs import Seq, LazyList
from ..kpmod import Env, run, Holder
from ..verify import Task
from ..bounded.c10 import *
from .c06 import element
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of add_binary, delete_binary, binaries, add_attachment, Attachment.id/filename/data/delete discharged for a database with any number of binaries and attachments (one arbitrary binary and one arbitrary '
              'attachment, current or in history, are followed; the loops over references and binaries are cut by checking an arbitrary iteration), KDBX 3 and 4. lxml, its XPath evaluation, base64 and zlib are assumed contracts. '
              'The same contracts are evaluated on the unmodified code.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py): Ref attributes are decimal numbers; the ID of a KDBX 3 binary is its position (files with IDs out of order are outside the property)',
               'the text of a KDBX 3 binary is valid base64, of gzip data where it is marked compressed']

def world(version):
    """A database with n binaries."""
    e = eng()
    env = Env(version); w = env.w
    n = int_var('binaries', 0)
    if version == 4:
        def item(k):
            f = z3.Function('stored_binary', z3.IntSort(), B)
            z = f(zint(k))
            axiom(blen(z) >= 1)
            flag = SymBytes([BTerm('uf', ('flag', k), z3.Function('flag_of', z3.IntSort(), B)(zint(k)), 1)])
            axiom(blen(flag.parts[0].z) == 1)
            d = z3.Function('binary', z3.IntSort(), B)(zint(k))
            axiom(blen(d) >= 0)
            data = SymBytes([BTerm('uf', ('binary', k), d, mk_int(blen(d)))])
            return Holder(type='binary', data=flag + data, length=None)
        env.inner.binary = env.seq = Seq(n, item)
    else:
        b = w.meta.slot('Binaries')[1]
        def facts(x, k):
            t = libs.int_to_text(k)
            axiom(F_ahas('ID')(x.z)); axiom(F_aval('ID')(x.z) == zs(t))
            axiom(z3.Or(F_tnone(x.z), libs.b64valid(F_tval(x.z))))
            z = libs.unb64text(F_tval(x.z))
            for bits in (15, 31, 47): axiom(z3.Function('inflate_ok_%d' % bits, B, z3.BoolSort())(z))
        b.kids = [Run(w, 'binaries', 'Binary', 0, n, b, facts=facts)]
        b.runs0 = list(b.kids); b.seg = None
        env.binel = b
    env.n = n
    return env

def at(env, k):
    """The data found under id k (as the library reports it)."""
    if env.version == 3:
        for it in env.binel.kids:           # make sure the element is a known one
            pass
    return env.kp.binaries[k]

def ref(att, k):
    """The attachment element refers to k."""
    v = att.kids0[1]
    axiom(F_ahas('Ref')(v.z))
    t = libs.int_to_text(k)
    axiom(F_aval('Ref')(v.z) == zs(t))

def any_attachment(env, k, name='att'):
    n = env.w.any('Binary', name)
    ref(n, k)
    return n

def know(env, k):
    """Element k is one of the known ones."""
    if env.version == 3: env.binel.kids[0].node(k)
    else: env.seq.initial(k)

def frame_bin(env, label, allow):
    env.w.frame(label, allow)
    if env.version == 4: pass

def untouched(env, label):
    if env.version == 4: eng().decided(env.payload.inner_header.binary is env.seq and env.seq.untouched(), label)
    else: eng().decided(runs_equal(env.binel.kids, env.binel.runs0), label)

def add_binary(version):
    def f():
        e = eng()
        env = world(version); w = env.w
        j = int_var('j', 0); e.assume(j.e < env.n.e)
        know(env, j)
        old = at(env, j)
        data = bytes_var('data')
        kw = [{}, {'compressed': False}, {'protected': False}, {'compressed': True, 'protected': True}][e.choose(4, 'options')]
        i, exc = run(env.kp.add_binary, data, **kw)
        if not e.decided(exc is None, 'add_binary succeeds', repr(exc)): return
        if not e.decided(isinstance(i, (int, SymInt)) and not isinstance(i, bool), 'add_binary returns a number', repr(i)): return
        bs = env.kp.binaries
        got, exc = run(lambda: bs[i])
        if not e.decided(exc is None, 'the id returned is one of the database', repr(exc)): return
        e.check(got == data, 'under the id returned exactly the data added is found')
        e.check(zint(i) == env.n.e, 'the id returned is a new one')
        got, exc = run(lambda: bs[j])
        if e.decided(exc is None, 'every earlier binary is still there', repr(exc)): e.check(got == old, 'the data under every other id is unchanged')
        e.check(zint(bs.vc_len() if hasattr(bs, 'vc_len') else len(bs)) == env.n.e + 1, 'exactly one binary is added')
        w.frame('add_binary changes nothing else', [env.binel] if version == 3 else [])
    return f

def delete_data(version):
    """delete_binary and the binaries: element j, arbitrary."""
    def f():
        e = eng()
        env = world(version); w = env.w
        i, j = int_var('id'), int_var('j', 0)
        e.assume(j.e < env.n.e)
        know(env, j)
        old = at(env, j)
        _, exc = run(env.kp.delete_binary, i)
        if refused(env, i, exc): return
        if version == 3 and not bool(mk_bool(j.e == i.e)):
            x = env.binel.runs0[0].node(j)
            if x._p is env.binel:
                t = x.attrib.get('ID')
                if e.decided(isinstance(t, (str, SymStr)), 'every remaining binary has an ID'): e.check(zint(libs.to_int(t)) == z3.If(j.e > i.e, j.e - 1, j.e), 'the ID of every remaining binary is its position')
        bs = env.kp.binaries
        e.check(zint(bs.vc_len() if hasattr(bs, 'vc_len') else len(bs)) == env.n.e - 1, 'exactly one binary is removed')
        nj = mk_int(z3.If(j.e > i.e, j.e - 1, j.e))
        if not bool(mk_bool(j.e == i.e)):
            got, exc = run(lambda: bs[nj])
            if e.decided(exc is None, 'every other binary is still there', repr(exc)): e.check(got == old, 'the remaining binaries keep their data and order')
        w.frame('delete_binary changes no other element', [env.binel] + [x for _, x in env.binel.runs0[0].table] if version == 3 else [])
    return f

def refused(env, i, exc):
    e = eng()
    valid = z3.And(i.e >= 0, i.e < env.n.e)
    if exc is not None:
        e.check(z3.Not(valid), 'an existing binary can be deleted', repr(exc))
        e.decided(isinstance(exc, env.m.BinaryError), 'a non-existent id raises BinaryError', repr(exc))
        env.w.frame('a refused delete_binary changes nothing')
        untouched(env, 'a refused delete_binary changes no binary')
        return True
    e.check(valid, 'a non-existent id raises BinaryError')
    return False

def delete_refs(version):
    """delete_binary and the attachments: an arbitrary one, referring to binary k."""
    def f():
        e = eng()
        env = world(version); w = env.w
        i, k = int_var('id'), int_var('k', 0)
        a = any_attachment(env, k)
        w.witnesses = [a]
        own = a.getparent()
        _, exc = run(env.kp.delete_binary, i)
        if refused(env, i, exc): return
        gone = a._p is None
        there = a._p is own and a in [x for x in own.kids if isinstance(x, SNode)] or any(isinstance(x, SegRef) and x.has(a) for x in own.kids)
        e.decided(gone != bool(there), 'an attachment stays in its entry or is removed')
        e.check((k.e == i.e) == z3.BoolVal(gone), 'exactly the attachments that refer to the deleted binary are removed')
        if gone: ok = all(not isinstance(x, SNode) and not x.repl and not x.some and not x.all and x.out == [a] for x in own.kids)
        else: ok = own.same_state()[1] == ''
        e.decided(ok, 'the entry of the attachment is unchanged otherwise', repr(own.kids))
        if not gone:
            v = [x for x in a.kids if x.tag == 'Value']
            if not e.decided(len(a.kids) == 2 and a.kids[0] is a.kids0[0] and v and v[0] is a.kids0[1], 'the attachment keeps its structure'): return
            h, r = v[0].aform('Ref')
            want = mk_int(z3.If(k.e > i.e, k.e - 1, k.e))
            e.check(z3.And(h, r == zs(libs.int_to_text(want))), 'every other attachment refers to the same data as before')
            e.check(z3.And(v[0].tform()[0] == F_tnone(v[0].z), z3.BoolVal(set(v[0]._a) <= {'Ref'})), 'only the reference number changes')
            e.check(a.kids[0].same_state()[0], 'the file name is unchanged')
        allow = [own, a, a.kids0[1]]
        if version == 3: allow += [env.binel] + [x for _, x in env.binel.runs0[0].table]
        w.frame('delete_binary changes nothing else', allow)
    return f

def attachment(version):
    def f():
        e = eng()
        env = world(version); w = env.w
        kind = ('entry', 'history')[e.choose(2, 'kind')]
        n, obj = element(env, kind)
        i = int_var('id', 0)
        know(env, i) if bool(mk_bool(i.e < env.n.e)) else None
        name = str_var('filename')
        a, exc = run(obj.add_attachment, i, name)
        if exc is not None:
            e.check(z3.Not(dom.F_xmlok(name.e)), 'a valid file name is accepted', repr(exc))
            w.frame('a refused add_attachment changes nothing')
            return
        x = getattr(a, '_element', None)
        if not e.decided(type(a) is env.ma.Attachment and isinstance(x, SNode) and x.tag == 'Binary' and x._p is n, 'add_attachment returns the new attachment of the entry', repr(a.__class__)): return
        e.decided(len(n.kids) == 2 and isinstance(n.kids[0], SegRef) and n.kids[0].pristine() and n.kids[1] is x, 'one attachment is added, everything else of the entry is kept', repr(n.kids))
        got, exc = run(lambda: a.id)
        e.decided(exc is None, 'the id can be read', repr(exc))
        if exc is None: e.check(got == i, 'the attachment refers to the id given')
        got, exc = run(lambda: a.filename)
        if e.decided(exc is None and isinstance(got, (str, SymStr)), 'the file name can be read', repr(exc)): e.check(got == name, 'the attachment has the file name given')
        own, exc = run(lambda: a.entry)
        e.decided(exc is None and getattr(own, '_element', None) is n, 'the attachment belongs to the entry', repr(exc))
        data, exc = run(lambda: a.data)
        if exc is not None:
            e.check(i.e >= env.n.e, 'the data of an existing binary can be read', repr(exc))
            e.decided(isinstance(exc, env.m.BinaryError), 'a missing binary raises BinaryError', repr(exc))
        else:
            e.check(i.e < env.n.e, 'data of a missing binary raises BinaryError')
            e.check(data == at(env, i), 'the attachment yields the data of its binary')
        w.frame('adding an attachment changes nothing else', [n])
        untouched(env, 'adding an attachment changes no binary')
    return f

def edit(version):
    def f():
        e = eng()
        env = world(version); w = env.w
        k = int_var('k', 0)
        n = any_attachment(env, k)
        own = n.getparent()
        a = env.Attachment(n)
        key, val = n.kids0
        op = e.choose(4, 'rename, change id, delete, delete_attachment')
        if op == 0:
            name = str_var('name')
            _, exc = run(setattr, a, 'filename', name)
            if exc is not None:
                e.check(z3.Not(dom.F_xmlok(name.e)), 'a valid file name is accepted', repr(exc))
                w.frame('a refused renaming affects no other attachment', [key])
            else:
                got = a.filename
                e.check(got == name, 'the file name reads back')
                w.frame('renaming changes nothing but the file name', [key])
            got, exc = run(lambda: a.id)
            e.decided(exc is None, 'the id can still be read')
            if exc is None: e.check(got == k, 'renaming keeps the reference')
        elif op == 1:
            i = int_var('newid', 0)
            _, exc = run(setattr, a, 'id', i)
            e.decided(exc is None, 'the id can be set', repr(exc))
            if exc is None: e.check(a.id == i, 'the id reads back')
            w.frame('setting the id changes nothing but the reference', [val])
            e.check(val.tform()[0] == F_tnone(val.z), 'setting the id changes only the reference')
        else:
            if op == 2: _, exc = run(a.delete)
            else: _, exc = run(env.Entry(own).delete_attachment, a)
            e.decided(exc is None, 'an attachment can be deleted', repr(exc))
            ok = len(own.kids) == 1 and own.kids[0].out == [n] and not own.kids[0].repl and not own.kids[0].some and not own.kids[0].all
            e.decided(ok, 'exactly the attachment is removed from its entry', repr(own.kids))
            w.frame('deleting an attachment changes nothing else', [own])
        untouched(env, 'no binary data is affected')
    return f

def tasks(thorough):
    out = []
    for v in (4, 3):
        t = ' (KDBX %d)' % v
        out += [Task('add_binary' + t, add_binary(v)), Task('delete_binary: binaries' + t, delete_data(v)), Task('delete_binary: references' + t, delete_refs(v)), Task('add_attachment' + t, attachment(v)), Task('Attachment' + t, edit(v))]
    return out

"""Behaviour-preserving rewritings of the whole package, applied mechanically to a scratch copy; every check has to stay quiet on each.
   usage: refactor.py <rewriting|all> [property ...]      (VJOBS: parallel checks)"""
import ast, copy, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['pykeepass.py', 'entry.py', 'group.py', 'baseelement.py', 'attachment.py', 'kdbx_parsing/common.py', 'kdbx_parsing/kdbx3.py', 'kdbx_parsing/kdbx4.py', 'kdbx_parsing/kdbx.py', 'kdbx_parsing/twofish.py', 'kdbx_parsing/pytwofish.py']

class Negate(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If): return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse or [ast.Pass()], n.body)
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

class ReturnTemp(ast.NodeTransformer):
    """return e -> r = e; return r, and conditions in variables"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)): return n
        return [ast.Assign([ast.Name('result_', ast.Store())], n.value), ast.Return(ast.Name('result_', ast.Load()))]
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Name): return n
        return [ast.Assign([ast.Name('condition_', ast.Store())], n.test), ast.If(ast.Name('condition_', ast.Load()), n.body, n.orelse)]
    def visit_Lambda(self, n): return n

class CompLoop(ast.NodeTransformer):
    """x = [e for a in b if c] -> a loop that appends"""
    k = 0
    def loop(self, comp):
        self.k += 1
        nm = 'items_%d' % self.k
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [comp.elt], []))]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs): body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load()))] + body, ast.Name(nm, ast.Load())
    def visit_Return(self, n):
        if isinstance(n.value, ast.ListComp):
            a, b = self.loop(n.value); return a + [ast.Return(b)]
        return n
    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp):
            a, b = self.loop(n.value); n.value = b; return a + [n]
        return n

class Extract(ast.NodeTransformer):
    """the body of every plain method and function moved to a helper"""
    def visit_ClassDef(self, n):
        body = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and self.ok(s):
                h, s2 = self.split(s, True, n.name); body += [h, s2]
            else: body.append(s)
        n.body = body; return n
    def visit_Module(self, n):
        self.generic_visit(n)
        body = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and self.ok(s):
                h, s2 = self.split(s, False); body += [h, s2]
            else: body.append(s)
        n.body = body; return n
    def visit_FunctionDef(self, n): return n
    def ok(self, f):
        a = f.args
        if a.posonlyargs or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for x in ast.walk(f)): return False
        if any(isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals') for x in ast.walk(f)): return False
        if f.name.startswith('__') and f.name != '__init__': return False
        if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list): return False
        return len(f.body) > (1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0)
    def split(self, f, method, cls=''):
        a = f.args
        if method and (not a.args or a.args[0].arg != 'self'): return ast.Pass(), f
        doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        suf = '_setter' if any(isinstance(d, ast.Attribute) for d in f.decorator_list) else ''
        name = ('_do_' + cls.lower() + '_' + f.name.strip('_') + suf)
        if not method: name = '_impl_' + f.name
        ha = copy.deepcopy(a); ha.defaults = []; ha.kw_defaults = [None] * len(ha.kwonlyargs)
        h = ast.FunctionDef(name, ha, f.body[len(doc):], [], None, None, lineno=f.lineno)
        args = [ast.Name(x.arg, ast.Load()) for x in a.args[1 if method else 0:]]
        if a.vararg: args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        kws = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
        if a.kwarg: kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
        callee = ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()) if method else ast.Name(name, ast.Load())
        h.type_params = []
        f.body = doc + [ast.Return(ast.Call(callee, args, kws))]
        return h, f

class FString(ast.NodeTransformer):
    """'..{}..'.format(a) -> f-string"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords:
            parts = re.split(r'(\{\})', n.func.value.value)
            if parts.count('{}') == len(n.args) and '{' not in ''.join(p for p in parts if p != '{}'):
                args = iter(n.args)
                return ast.JoinedStr([ast.FormattedValue(next(args), -1, None) if p == '{}' else ast.Constant(p) for p in parts if p])
        return n

class IndexLoop(ast.NodeTransformer):
    """for x in it -> xs = list(it); for i in range(len(xs)): x = xs[i]"""
    k = 0
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('range', 'enumerate'): return n
        self.k += 1
        a, b = 'seq_%d' % self.k, 'pos_%d' % self.k
        return [ast.Assign([ast.Name(a, ast.Store())], ast.Call(ast.Name('list', ast.Load()), [n.iter], [])),
                ast.For(ast.Name(b, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(a, ast.Load())], [])], []),
                        [ast.Assign([n.target], ast.Subscript(ast.Name(a, ast.Load()), ast.Name(b, ast.Load()), ast.Load()))] + n.body, n.orelse)]

class ForEnum(ast.NodeTransformer):
    """for x in it -> for i, x in enumerate(it)"""
    k = 0
    def visit_For(self, n):
        self.generic_visit(n)
        self.k += 1
        return ast.For(ast.Tuple([ast.Name('n_%d' % self.k, ast.Store()), n.target], ast.Store()), ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], []), n.body, n.orelse)

class Rename(ast.NodeTransformer):
    """local variables (not parameters) get other names"""
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for s in f.body for x in ast.walk(s)): return f
        args = {x.arg for x in f.args.args + f.args.kwonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
        names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in names: x.id += '_local'
            if isinstance(x, ast.ExceptHandler) and x.name: 
                old = x.name
                if old not in names:
                    x.name = old + '_local'
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and y.id == old: y.id += '_local'
        return f

class EarlyReturn(ast.NodeTransformer):
    """trailing `if c: A else: B` with A ending in return: the else is flattened; and `if c: return a` + rest becomes if/else"""
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and body[i + 1:]:
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.block(f.body)
        return f

class Walrus(ast.NodeTransformer):
    """arguments of calls in assignments are computed first"""
    k = 0
    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.Attribute, ast.BinOp)) and (isinstance(v.func, ast.Name) or isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name)):
            self.k += 1
            t = 'arg_%d' % self.k
            a = v.args[0]; v.args[0] = ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], a), n]
        return n
    def visit_Return(self, n):
        v = n.value
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.Attribute, ast.BinOp)) and (isinstance(v.func, ast.Name) or isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name)):
            self.k += 1
            t = 'arg_%d' % self.k
            a = v.args[0]; v.args[0] = ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], a), n]
        return n
    def visit_Lambda(self, n): return n

class InFunc:
    """Applies a transformer only inside functions."""
    def __init__(self, t): self.t = t
    def visit(self, tree):
        for x in ast.walk(tree):
            if isinstance(x, ast.FunctionDef) and not getattr(x, 'done', False):
                for y in ast.walk(x): y.done = True
                x.body = [z for s in x.body for z in (lambda r: r if isinstance(r, list) else [r])(self.t.visit(s))]
        return tree

ALL = dict(negate=lambda: Negate(), returntemp=lambda: InFunc(ReturnTemp()), comploop=lambda: InFunc(CompLoop()), extract=lambda: Extract(), fstring=lambda: FString(),
           indexloop=lambda: InFunc(IndexLoop()), forenum=lambda: InFunc(ForEnum()), rename=lambda: Rename(), earlyreturn=lambda: EarlyReturn(), argfirst=lambda: InFunc(Walrus()))

def make(name, root):
    for f in FILES:
        p = os.path.join(root, 'pykeepass', f)
        t = ast.parse(open(p).read())
        t = ALL[name]().visit(t)
        ast.fix_missing_locations(t)
        open(p, 'w').write(ast.unparse(t) + '\n')

def main():
    names = list(ALL) if sys.argv[1] == 'all' else sys.argv[1].split(',')
    props = sys.argv[2:] or ['C%02d' % i for i in range(1, 21)]
    for name in names:
        d = tempfile.mkdtemp(prefix='refac')
        try:
            wt = d + '/repo'; shutil.copytree('/repo', wt, symlinks=True)
            make(name, wt)
            if 'TEST' in os.environ:
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=wt)
                r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'python_files=test*.py', 'tests'], cwd=wt, env=env, capture_output=True, text=True)
                print(name, 'tests', r.returncode, r.stdout.strip().splitlines()[-1], flush=True)
                if r.returncode: print(r.stdout[-1500:])
                subprocess.run(['git', 'checkout', '--', 'tests'], cwd=wt)
            def one(p):
                o = tempfile.mkdtemp(dir=d)
                r = subprocess.run([PY, '-m', 'pyvc.run', p, '--quick', '--proof-only'], cwd=HERE, env=dict(os.environ, PYVC_REPO=wt, PYVC_OUT=o), capture_output=True, text=True)
                l = r.stdout.splitlines()
                bad = r.returncode != 0 or any(x.startswith(('  bounded', '  undecided')) for x in l)
                print('%-12s %s %s %s' % (name, p, 'ok' if not bad else 'ALARM' if r.returncode else 'undecided', l[0] if l else r.stderr[-300:]), flush=True)
                if bad:
                    for x in l[1:7]: print('      ' + x[:260], flush=True)
            if props != ['-']:
                with ThreadPoolExecutor(int(os.environ.get('VJOBS', '1'))) as ex: list(ex.map(one, props))
        finally: shutil.rmtree(d, True)
if __name__ == '__main__': main()

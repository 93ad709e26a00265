"""Mechanical instrumentation of the real source.

What is rewritten (and nothing else):
  * method calls `x.m(a...)`        -> _vc_callm(x, 'm', a...)   (str/bytes receivers with symbolic arguments)
  * `x in y`, `x not in y`          -> _vc_in / not _vc_in
  * f-strings, `%` formatting       -> _vc_fstring / _vc_mod
  * subscript loads                 -> _vc_getitem
  * simple `if` over words          -> conditional assignment (_vc_ite) when the test is a symbolic word (Twofish; also `not`, ==, != and conditional expressions)
  * bare `except:` handlers         -> never swallow the engine's control exceptions
  * `for`/`while`                   -> loop rule when the iterable/test is symbolic (see loops.py)
  * list comprehensions, generator expressions -> _vc_comp(iterable, body) (same evaluation order; symbolic node sets)
  * every function entry            -> _vc_enter('qualname')
Dropped: nothing; docstrings and assertions are kept (assert raises AssertionError as in CPython)."""
import ast

class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.qual = []
        self.n = 0
        self.fn_locals = [None]

    def _name(self, s): return ast.Name(s, ast.Load())
    def _call(self, f, args, keywords=()): return ast.Call(self._name(f), list(args), list(keywords))

    # ---- scopes
    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        saved, self.fn_locals = self.fn_locals, self.fn_locals + [None]
        cls, self.cls = self.cls, node.name
        node.body = self._block(node.body)
        self.cls = cls
        self.fn_locals = saved
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        self.qual.pop()
        return node

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        saved, self.fn_locals = self.fn_locals, self.fn_locals + [node]
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self._block(node.body)
        q = '.'.join(self.qual)
        enter = ast.Expr(self._call('_vc_enter', [ast.Constant(self.mod + ':' + q)]))
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(i, enter)
        self.fn_locals = saved
        self.qual.pop()
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list): out += r
            elif r is not None: out.append(r)
        return out

    # ---- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
            recv = self.visit(f.value)
            args = [self.visit(a) for a in node.args]
            kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
            return self._call('_vc_callm', [recv, ast.Constant(self._mangled(f.attr))] + args, kws)
        self.generic_visit(node)
        return node

    cls = None
    def _mangled(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'): return '_%s%s' % (self.cls.lstrip('_'), n)
        return n

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._call('_vc_in', [node.left, node.comparators[0]])
            return c if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), c)
        if self.mod.endswith('twofish') and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            c = self._call('_vc_weq', [node.left, node.comparators[0]])
            return c if isinstance(node.ops[0], ast.Eq) else self._call('_vc_wnot', [c])
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.mod.endswith('twofish') and isinstance(node.op, ast.Not): return self._call('_vc_wnot', [node.operand])
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.mod.endswith('twofish'):
            f = lambda x: ast.Lambda(ast.arguments([], [], None, [], [], None, []), x)
            return self._call('_vc_wifexp', [node.test, f(node.body), f(node.orelse)])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return self._call('_vc_fstring', parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('_vc_mod', [node.left, node.right])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            key = node.slice
            if isinstance(key, ast.Slice):
                none = ast.Constant(None)
                key = self._call('_vc_slice', [key.lower or none, key.upper or none, key.step or none])
            elif isinstance(key, ast.Tuple) and any(isinstance(k, ast.Slice) for k in key.elts):
                return node
            return self._call('_vc_getitem', [node.value, key])
        return node

    def _comp(self, node, kind, lets=()):
        """[elt for t in it if c] -> _vc_comp(it, lambda x: [elt for t in (x,) if c], kind)"""
        if self.fn_locals[-1] is None or len(node.generators) != 1 or node.generators[0].is_async:
            self.generic_visit(node); return node
        for n in ast.walk(node):
            if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
                self.generic_visit(node); return node
        g = node.generators[0]
        it = self.visit(g.iter)
        x = '_vc_x%d' % len(self.qual)
        self.qual.append('comp')
        gens = [ast.comprehension(g.target, ast.Tuple([self._name(x)], ast.Load()), [self.visit(c) for c in g.ifs], 0)]
        for c in lets:
            if isinstance(c, tuple): gens.append(ast.comprehension(ast.Name(c[0], ast.Store()), ast.Tuple([self.visit(c[1])], ast.Load()), [], 0))
            else: gens[-1].ifs.append(self.visit(c))
        inner = ast.ListComp(self.visit(node.elt), gens)
        self.qual.pop()
        lam = ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []), inner)
        return self._call('_vc_comp', [it, lam, ast.Constant(kind)])
    def visit_ListComp(self, node): return self._comp(node, 'list')
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen')
    def visit_DictComp(self, node):
        if self.fn_locals[-1] is None or len(node.generators) != 1: self.generic_visit(node); return node
        return self._comp(ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators), 'dict')

    # ---- statements
    def visit_Assign(self, node):
        """a, *b, c = x  ->  a, b, c = _vc_star(x, 1, 1)"""
        self.generic_visit(node)
        t = node.targets[0] if len(node.targets) == 1 else None
        if self.fn_locals[-1] is not None and isinstance(t, (ast.Tuple, ast.List)) and sum(isinstance(x, ast.Starred) for x in t.elts) == 1:
            k = [isinstance(x, ast.Starred) for x in t.elts].index(True)
            t.elts[k] = t.elts[k].value
            node.value = self._call('_vc_star', [node.value, ast.Constant(k), ast.Constant(len(t.elts) - k - 1)])
        return node
    def visit_Try(self, node):
        self.generic_visit(node)
        for i, h in enumerate(node.handlers):
            t = h.type
            if t is None or (isinstance(t, ast.Name) and t.id == 'BaseException'):
                node.handlers.insert(i, ast.ExceptHandler(self._name('_vc_abort'), None, [ast.Raise()]))
                break
        return node

    @staticmethod
    def _simple(stmts):
        for s in stmts:
            if isinstance(s, ast.Pass): continue
            if isinstance(s, ast.AugAssign):
                t, v = s.target, s.value
            elif isinstance(s, ast.Assign) and len(s.targets) == 1:
                t, v = s.targets[0], s.value
            else:
                return False
            if not isinstance(t, ast.Name): return False
            for n in ast.walk(v):
                if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.Await, ast.Yield, ast.NamedExpr, ast.Lambda)): return False
        return bool(stmts)

    def visit_If(self, node):
        simple = self.fn_locals[-1] is not None and self._simple(node.body) and (not node.orelse or self._simple(node.orelse))
        if simple and self.mod.endswith('twofish'):
            names = sorted({(s.target if isinstance(s, ast.AugAssign) else s.targets[0]).id for s in node.body + node.orelse if not isinstance(s, ast.Pass)})
            import copy
            self.n += 1
            c = '_vc_c%d' % self.n
            body, orelse = copy.deepcopy(node.body), copy.deepcopy(node.orelse)
            test = self.visit(node.test)
            plain = ast.If(self._name(c), self._block(node.body), self._block(node.orelse))
            def save(sfx): return [ast.Assign([ast.Name(x + sfx, ast.Store())], self._name(x)) for x in names]
            def load(sfx): return [ast.Assign([ast.Name(x, ast.Store())], self._name(x + sfx)) for x in names]
            u = '_o%d_' % self.n
            t = '_t%d_' % self.n
            merged = save(u) + self._block(body) + save(t) + load(u) + (self._block(orelse) or []) + [
                ast.Assign([ast.Name(x, ast.Store())], self._call('_vc_ite', [self._name(c), self._name(x + t), self._name(x)])) for x in names]
            return [ast.Assign([ast.Name(c, ast.Store())], test),
                    ast.If(self._call('_vc_isword', [self._name(c)]), merged, [plain])]
        node.test = self.visit(node.test)
        node.body = self._block(node.body)
        node.orelse = self._block(node.orelse)
        return node

    # loops
    @staticmethod
    def _assigned(stmts):
        """Names and self-like attributes assigned in the loop body (not in nested functions)."""
        names, attrs, mut = set(), set(), set()
        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): attrs.add((n.value.id, n.attr))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
               n.func.attr in ('append', 'insert', 'extend', 'pop', 'remove', 'update', 'add', 'setdefault', 'clear', 'appendleft', 'write'): mut.add(n.func.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): mut.add(n.value.id)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)): return
            for c in ast.iter_child_nodes(n): walk(c)
        for s in stmts: walk(s)
        return names, attrs, mut

    def _loop(self, node, is_for):
        import copy
        if self.fn_locals[-1] is None:      # module level: only concrete data
            node.body = self._block(node.body); node.orelse = self._block(node.orelse)
            if is_for: node.iter = self.visit(node.iter)
            else: node.test = self.visit(node.test)
            return node
        self.n += 1
        k = self.n
        L = '_vc_L%d' % k
        names, attrs, mut = self._assigned(node.body)
        if is_for:
            tnames = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        else:
            tnames = set()
        hav = sorted((names | mut) - tnames)
        attrs = sorted(attrs)
        fn = '.'.join(self.qual)
        from . import loops
        loops.FRESH[(self.mod + ':' + fn, k)] = frozenset(v for v in names if set_first(node.body, v))
        body = self._block(copy.deepcopy(node.body))
        body2 = self._block(node.body)
        orelse = self._block(node.orelse)
        info = [ast.Constant(self.mod + ':' + fn), ast.Constant(k), ast.Constant(tuple(hav)), ast.Constant(tuple(attrs))]
        getl = self._call('locals', [])
        out = []
        if is_for:
            out.append(ast.Assign([ast.Name(L, ast.Store())], self._call('_vc_loop_for', info + [self.visit(node.iter), getl])))
        else:
            test = ast.Lambda(ast.arguments([], [], None, [], [], None, []), self.visit(copy.deepcopy(node.test)))
            out.append(ast.Assign([ast.Name(L, ast.Store())], self._call('_vc_loop_while', info + [test, getl])))
        def m(meth, *a):
            return ast.Call(ast.Attribute(self._name(L), meth, ast.Load()), list(a), [])
        sym = []
        sym.append(ast.Expr(m('havoc')))
        for v in hav:
            sym.append(ast.If(m('has', ast.Constant(v)), [ast.Assign([ast.Name(v, ast.Store())], m('get', ast.Constant(v)))], []))
        for (o, a) in attrs:
            sym.append(ast.If(m('hasattr', ast.Constant(o), ast.Constant(a)), [ast.Assign([ast.Attribute(self._name(o), a, ast.Store())], m('getattr', ast.Constant(o), ast.Constant(a)))], []))
        pres = ast.Expr(m('preserve', getl))
        if is_for:
            one = ast.For(node.target, m('one'), body, [pres])
            ex = [ast.Expr(m('exit', getl))]
            if isinstance(node.target, ast.Name) or isinstance(node.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in node.target.elts):
                ex.append(ast.If(m('has_last'), [ast.Assign([copy.deepcopy(node.target)], m('last'))], []))
            sym.append(ast.If(m('body'), [one], ex))
            conc = ast.For(copy.deepcopy(node.target), m('iter'), body2, orelse)
        else:
            test2 = copy.deepcopy(node.test)
            one = ast.For(ast.Name('_vc_dummy', ast.Store()), m('one'), body, [pres])
            sym.append(ast.Expr(m('assume_inv')))
            sym.append(ast.If(self.visit(test2), [one], [ast.Expr(m('exit', getl))]))
            flat = [x for st in node.orelse for x in ast.walk(st)]
            if any(isinstance(x, (ast.Break, ast.Continue)) for x in flat): conc = ast.While(ast.BoolOp(ast.And(), [m('tick', getl), self.visit(node.test)]), body2, orelse)
            else:
                head = [ast.Expr(m('tick', copy.deepcopy(getl)))]
                for v in hav: head.append(ast.If(m('cut', ast.Constant(v)), [ast.Assign([ast.Name(v, ast.Store())], m('cutval', ast.Constant(v)))], []))
                head.append(ast.If(ast.UnaryOp(ast.Not(), self.visit(node.test)), orelse + [ast.Break()], []))
                conc = ast.While(ast.Constant(True), head + body2, [])
        if is_for:
            def binds(has, get): return [ast.If(m(has, ast.Constant(v)), [ast.Assign([ast.Name(v, ast.Store())], m(get, ast.Constant(v)))], []) for v in hav]
            nodes = binds('has', 'get') + [ast.For(copy.deepcopy(node.target), m('node_iter'), copy.deepcopy(body), copy.deepcopy(orelse))] + \
                    [ast.Expr(m('node_done', copy.deepcopy(getl)))] + binds('hasf', 'final')
            out.append(ast.If(m('nodes'), nodes, [ast.If(m('symbolic'), sym, [conc])]))
        else: out.append(ast.If(m('symbolic'), sym, [conc]))
        return out

    @staticmethod
    def _collects(node):
        """`for x in it: if c: l.append(e)` or `... d[k] = e` (any number of conditions): (l, conditions, e, kind)."""
        if node.orelse: return None
        body, conds = node.body, []
        while True:
            body = [s for s in body if not isinstance(s, ast.Pass)]
            if len(body) > 1 and isinstance(body[0], ast.Assign) and len(body[0].targets) == 1 and isinstance(body[0].targets[0], ast.Name):
                conds.append((body[0].targets[0].id, body[0].value)); body = body[1:]; continue
            if len(body) > 1 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
                conds.append(ast.UnaryOp(ast.Not(), body[0].test)); body = body[1:]; continue
            if len(body) != 1: return None
            s = body[0]
            if isinstance(s, ast.If) and not s.orelse: conds.append(s.test); body = s.body; continue
            break
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and not isinstance(s.targets[0].slice, ast.Slice):
            l, e, kind = s.targets[0].value.id, ast.Tuple([s.targets[0].slice, s.value], ast.Load()), 'dict'
        elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name) and
                len(s.value.args) == 1 and not s.value.keywords and not isinstance(s.value.args[0], ast.Starred)): return None
        else: l, e, kind = s.value.func.value.id, s.value.args[0], 'list'
        cs = [c[1] if isinstance(c, tuple) else c for c in conds]
        if any(isinstance(n, ast.Name) and n.id == l for x in cs + [e, node.target, node.iter] for n in ast.walk(x)): return None
        if any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda)) for x in cs + [e] for n in ast.walk(x)): return None
        if any(isinstance(c, tuple) and c[0] == l for c in conds): return None
        for i, c in enumerate(conds):      # a name must not be read before it is assigned
            if isinstance(c, tuple) and any(isinstance(n, ast.Name) and n.id == c[0] for x in cs[:i + 1] for n in ast.walk(x)): return None
        return l, conds, e, kind

    def visit_For(self, node):
        c = self._collects(node) if self.fn_locals[-1] is not None else None
        if c is None: return self._loop(node, True)
        import copy
        l, conds, e, kind = c
        self.n += 1
        it = '_vc_i%d' % self.n
        comp = ast.ListComp(copy.deepcopy(e), [ast.comprehension(copy.deepcopy(node.target), ast.Name(it, ast.Load()), [], 0)])
        head = ast.Assign([ast.Name(it, ast.Store())], self.visit(node.iter))
        node.iter = ast.Name(it, ast.Load())
        plain = self._loop(node, True)
        names = sorted({n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)} | {c[0] for c in conds if isinstance(c, tuple)})
        lets = [(c[0], copy.deepcopy(c[1])) if isinstance(c, tuple) else copy.deepcopy(c) for c in conds]
        then = [ast.Assign([ast.Name(l, ast.Store())], self._comp(comp, kind, lets))] + [ast.Assign([ast.Name(x, ast.Store())], self._call('_vc_poison', [ast.Constant(x)])) for x in names]
        return [head, ast.If(self._call('_vc_collects', [self._name(it), ast.Constant(l), self._call('locals', []), ast.Constant(kind)]), then, plain)]
    def visit_While(self, node): return self._loop(node, False)


def set_first(stmts, v):
    """Whether every path through the statements assigns v before it reads it (conservative)."""
    def reads(n): return any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n))
    def walk(ss):           # True: assigned on every path, False: not mentioned or assigned on some; raises KeyError on a read that may come first
        done = False
        for s in ss:
            if done: return True
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v:
                if reads(s.value): raise KeyError(v)
                done = True
            elif isinstance(s, ast.If):
                if reads(s.test):
                    w = s.test.left if isinstance(s.test, ast.Compare) else s.test.operand if isinstance(s.test, ast.UnaryOp) else s.test
                    if not (isinstance(w, ast.NamedExpr) and w.target.id == v and not reads(w.value)): raise KeyError(v)
                    return True
                a, b = walk(s.body), walk(s.orelse)
                done = a and b
            elif isinstance(s, ast.With) and not any(reads(i) for i in s.items): done = walk(s.body)
            elif reads(s): raise KeyError(v)
        return done
    try: walk(stmts)
    except KeyError: return False
    return True

_cache = {}
def instrument(src, filename, modname):
    k = (src, filename, modname)
    if k not in _cache: _cache[k] = _instrument(src, filename, modname)
    return _cache[k]

def _instrument(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')

"""Mechanical instrumentation of the real source (run on the current /repo text on every run).

What it changes, and nothing else:
  * for/while loops get a cut-point protocol beside their native form (see loops.py);
  * list/dict/set displays, comprehensions and bytes constants build engine containers;
  * subscript loads/stores/deletes with engine indices, `in`, `%` on strings, methods of constant strings, *args of
    engine sequences go through helpers with the same meaning;
  * `if` statements whose branches are one simple assignment each may be merged into one conditional value;
  * exception handlers first let engine control exceptions through and reject exceptions caused by the engine itself;
  * `__del__` is renamed (finalisers do not run at unpredictable moments).
"""
import ast, copy

V = '__vc__'


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def vcall(fn, *args):
    return ast.Call(func=ast.Attribute(value=name(V), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


class StoreNames(ast.NodeVisitor):
    """local names assigned in a statement list (not inside nested scopes)"""
    def __init__(self):
        self.names = []
        self.skip = set()

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators[:1]:
            self.visit(g.iter)
    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, n):
        # handler names are deleted at the end of the handler; treated as handler-local
        for s in n.body:
            self.visit(s)
        if n.name and n.name in self.names:
            pass
        if n.name:
            self.skip.add(n.name)

    def visit_Global(self, n):
        self.skip.update(n.names)
    visit_Nonlocal = visit_Global


def store_names(stmts):
    v = StoreNames()
    for s in stmts:
        v.visit(s)
    return [n for n in v.names if n not in v.skip and not n.startswith('__vc')]


# methods of strings whose result depends on the characters of a formatted number
TEXT_METHODS = {'isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isspace', 'isidentifier', 'isascii', 'isprintable', 'islower', 'isupper', 'istitle',
                'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'translate', 'removeprefix', 'removesuffix', 'rindex'}
PURE_CALLS = {'pow', 'abs', 'min', 'max', 'int', 'bool'}


def pure(e):
    """expression without side effects, control flow or possible exceptions beyond arithmetic on numbers"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.Attribute):
        return pure(e.value)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, (ast.USub, ast.Invert, ast.UAdd)) and pure(e.operand)
    if isinstance(e, ast.BinOp):
        return (isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift, ast.Pow))
                or (isinstance(e.op, (ast.Mod, ast.FloorDiv)) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int)
                    and e.right.value != 0)) and pure(e.left) and pure(e.right)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in PURE_CALLS and not e.keywords and all(pure(a) for a in e.args)
    if isinstance(e, ast.IfExp):
        return pure(e.test) and pure(e.body) and pure(e.orelse)
    return False


def one_assign(body):
    """(target source, target node, value expr) when body is a single simple assignment, else None"""
    body = [s for s in body if not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) == 0:
        return ('', None, None)
    if len(body) != 1:
        return None
    s = body[0]
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        t, v = s.targets[0], s.value
    elif isinstance(s, ast.AugAssign):
        t = s.target
        load = copy.deepcopy(t)
        for x in ast.walk(load):
            if hasattr(x, 'ctx'):
                x.ctx = ast.Load()
        load.ctx = ast.Load()
        v = ast.BinOp(left=load, op=s.op, right=s.value)
    else:
        return None
    if isinstance(t, ast.Name):
        pass
    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and pure(t.slice):
        pass
    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
        return None
    else:
        return None
    if not pure(v):
        return None
    return (ast.dump(t), t, v)


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = ['<module>']
        self.nloop = {}
        self.tmp = 0

    def loop_id(self):
        f = '.'.join(self.fn)
        n = self.nloop.get(f, 0) + 1
        self.nloop[f] = n
        return '%s:%s:loop%d' % (self.mod, f, n)

    def fresh(self):
        self.tmp += 1
        return '__vc%d__' % self.tmp

    # ---- scopes
    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        # decorators/defaults are evaluated outside
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit_args(n.args)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        n.body = self.block(n.body)
        n.returns = None
        self.fn.pop()
        if n.name == '__del__':
            n.name = '__vc_del__'
        return n

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for x in a.args + a.kwonlyargs + a.posonlyargs:
            x.annotation = None
        return a

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        n.body = self.block(n.body)
        n.bases = [self.visit(b) for b in n.bases]
        n.keywords = [self.visit(b) for b in n.keywords]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.fn.pop()
        return n

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        return n

    def block(self, stmts):
        out = []
        for k, s in enumerate(stmts):
            if (k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)):
                out.append(s)
                continue
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out or [ast.Pass()]

    def visit_Module(self, n):
        n.body = self.block(n.body)
        return n

    # ---- loops
    def visit_For(self, n):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for s in n.body for x in ast.walk(s)):
            return self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'iter' and len(c.args) == 2 and not c.keywords and not n.orelse \
                and not any(isinstance(a, ast.Starred) for a in c.args) and 'iter' not in self.bound:
            # for T in iter(F, S): body   is   while True: x = F(); if S == x: break; T = x; body
            f, s, x = self.fresh(), self.fresh(), 'vc_iter%s' % self.fresh().strip('_')
            pre = [ast.Assign(targets=[name(f, ast.Store())], value=self.visit(c.args[0])), ast.Assign(targets=[name(s, ast.Store())], value=self.visit(c.args[1]))]
            w = ast.While(test=const(True), body=[
                ast.Assign(targets=[name(x, ast.Store())], value=ast.Call(func=name(f), args=[], keywords=[])),
                ast.If(test=ast.Compare(left=name(s), ops=[ast.Eq()], comparators=[name(x)]), body=[ast.Break()], orelse=[]),
                ast.Assign(targets=[n.target], value=name(x))] + n.body, orelse=[])
            for y in pre + [w]:
                ast.fix_missing_locations(ast.copy_location(y, n))
            return pre + self.visit_While(w)
        lid = self.loop_id()
        names = store_names(n.body + [ast.Assign(targets=[n.target], value=const(0))])
        L = self.fresh()
        it = self.visit(n.iter)
        target = self.visit(copy.deepcopy(n.target))
        body_native = self.block(copy.deepcopy(n.body))
        save = dict(self.nloop)
        self.nloop = save
        body_cut = self.block(copy.deepcopy(n.body))
        orelse1 = self.block(copy.deepcopy(n.orelse)) if n.orelse else []
        orelse2 = self.block(copy.deepcopy(n.orelse)) if n.orelse else []
        st = [ast.Assign(targets=[name(L, ast.Store())], value=vcall('for_', const(lid), it, ast.Tuple(elts=[const(x) for x in names], ctx=ast.Load())))]
        native = ast.For(target=target, iter=ast.Attribute(value=name(L), attr='it', ctx=ast.Load()), body=body_native, orelse=orelse1, type_comment=None)
        setv = self._setvals(L, names)
        cut = ast.While(test=ast.Call(func=ast.Attribute(value=name(L), attr='head', ctx=ast.Load()), args=[ast.Call(func=name('locals'), args=[], keywords=[])], keywords=[]),
                        body=setv + [ast.If(test=ast.Call(func=ast.Attribute(value=name(L), attr='skip', ctx=ast.Load()), args=[], keywords=[]),
                                            body=[ast.Continue()], orelse=[]),
                                     ast.Assign(targets=[copy.deepcopy(target)], value=ast.Attribute(value=name(L), attr='item', ctx=ast.Load()))] + body_cut,
                        orelse=self._setvals(L, names) + orelse2)
        cut = ast.Try(body=[cut], handlers=[], orelse=[], finalbody=[ast.Expr(ast.Call(func=ast.Attribute(value=name(L), attr='leave', ctx=ast.Load()), args=[], keywords=[]))])
        st.append(ast.If(test=ast.Attribute(value=name(L), attr='native', ctx=ast.Load()), body=[native], orelse=[cut]))
        return [ast.copy_location(ast.fix_missing_locations(ast.copy_location(x, n)), n) for x in st]

    def _setvals(self, L, names):
        out = []
        for k, nm in enumerate(names):
            out.append(ast.If(test=ast.Compare(left=const(nm), ops=[ast.In()], comparators=[ast.Attribute(value=name(L), attr='vals', ctx=ast.Load())]),
                              body=[ast.Assign(targets=[name(nm, ast.Store())], value=ast.Subscript(
                                  value=ast.Attribute(value=name(L), attr='vals', ctx=ast.Load()), slice=const(nm), ctx=ast.Load()))], orelse=[]))
        return out

    def visit_While(self, n):
        if n.orelse or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for s in n.body for x in ast.walk(s)):
            return self.generic_visit(n)
        lid = self.loop_id()
        names = store_names(n.body)
        L = self.fresh()
        test = self.visit(n.test)
        body = self.block(n.body)
        st = [ast.Assign(targets=[name(L, ast.Store())], value=vcall('while_', const(lid), ast.Tuple(elts=[const(x) for x in names], ctx=ast.Load()))),
              ast.While(test=const(True), body=[
                  ast.If(test=ast.Call(func=ast.Attribute(value=name(L), attr='head', ctx=ast.Load()), args=[ast.Call(func=name('locals'), args=[], keywords=[])], keywords=[]),
                         body=self._setvals(L, names) or [ast.Pass()], orelse=[]),
                  ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Break()], orelse=[])] + body, orelse=[])]
        return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in st]

    # ---- conditionals
    def visit_If(self, n):
        a, b = one_assign(n.body), one_assign(n.orelse)
        r = None
        if a is not None and b is not None and (a[1] is not None or b[1] is not None) and (a[1] is None or b[1] is None or a[0] == b[0]):
            t = a[1] if a[1] is not None else b[1]
            c = self.fresh()
            load = copy.deepcopy(t)
            for x in ast.walk(load):
                if isinstance(x, (ast.Name, ast.Subscript, ast.Attribute)):
                    x.ctx = ast.Load()
            va = self.visit(copy.deepcopy(a[2])) if a[1] is not None else self.visit(copy.deepcopy(load))
            vb = self.visit(copy.deepcopy(b[2])) if b[1] is not None else self.visit(copy.deepcopy(load))
            merged = self.visit(ast.Assign(targets=[copy.deepcopy(t)], value=const(0)))
            lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
            val = vcall('merge', name(c), lam(va), lam(vb))
            if isinstance(merged, ast.Assign):
                merged.value = val
                mstm = [merged]
            else:   # setitem helper call: Expr(Call(setitem, o, i, v))
                merged.value.args[2] = val
                mstm = [merged]
            test = self.visit(n.test)
            st = [ast.Assign(targets=[name(c, ast.Store())], value=test),
                  ast.If(test=vcall('undecided', name(c)), body=mstm,
                         orelse=[ast.If(test=name(c), body=self.block(copy.deepcopy(n.body)), orelse=self.block(copy.deepcopy(n.orelse)) if n.orelse else [])])]
            # class bodies cannot be closed over by lambdas; module level is fine
            return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in st]
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        return n

    def visit_IfExp(self, n):
        if pure(n.body) and pure(n.orelse):
            lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
            return ast.copy_location(vcall('ifexp', self.visit(n.test), lam(self.visit(n.body)), lam(self.visit(n.orelse))), n)
        return self.generic_visit(n)

    # ---- exceptions
    def visit_Try(self, n):
        n.body = self.block(n.body)
        for h in n.handlers:
            nm = h.name
            bare = h.type is None
            if nm is None:
                nm = self.fresh()
                if bare:
                    h.type = name('BaseException')
                h.name = nm
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = [ast.copy_location(ast.Expr(value=vcall('caught', name(nm))), h)] + self.block(h.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        if n.finalbody:
            # the end of an explored path is not an exit of the code
            guard = ast.If(test=vcall('live'), body=self.block(n.finalbody), orelse=[])
            n.finalbody = [ast.fix_missing_locations(ast.copy_location(guard, n.finalbody[0]))]
        return n

    # ---- containers and constants
    def visit_Constant(self, n):
        if isinstance(n.value, bytes):
            return ast.copy_location(vcall('bytes_', n), n)
        return n

    def visit_JoinedStr(self, n):
        n.values = [self.visit(v) if isinstance(v, ast.FormattedValue) else v for v in n.values]
        return n

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_List(self, n):
        if not isinstance(n.ctx, ast.Load):
            return self.generic_visit(n)
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return ast.copy_location(vcall('list_', *[self._star(e) for e in n.elts]), n)
        return ast.copy_location(vcall('list_', *[self.visit(e) for e in n.elts]), n)

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return ast.copy_location(vcall('tuple_', *[self._star(e) for e in n.elts]), n)
        return self.generic_visit(n)

    def _star(self, e):
        if isinstance(e, ast.Starred):
            return vcall('star', self.visit(e.value))
        return self.visit(e)

    def visit_Dict(self, n):
        if any(k is None for k in n.keys):
            return self.generic_visit(n)
        return ast.copy_location(vcall('dict_', *[ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()) for k, v in zip(n.keys, n.values)]), n)

    def visit_Set(self, n):
        return ast.copy_location(vcall('set_', *[self.visit(e) for e in n.elts]), n)

    def _comp(self, n, kind):
        # a name bound by := inside belongs to the function around it, and a yield or await is none of a lambda's
        native = any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))
        if len(n.generators) == 1 and not n.generators[0].is_async and not native:
            g = n.generators[0]

            def lam(e):
                # lambda p: [e for tgt in (p,)][0]   keeps target unpacking native
                p = self.fresh()
                inner = ast.Subscript(value=ast.ListComp(elt=self.visit(e), generators=[ast.comprehension(
                    target=self.visit(copy.deepcopy(g.target)), iter=ast.Tuple(elts=[name(p)], ctx=ast.Load()), ifs=[], is_async=0)]), slice=const(0), ctx=ast.Load())
                return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=inner)
            a = [self.visit(g.iter), lam(n.elt)]
            if g.ifs:
                a.append(lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)))
            return ast.copy_location(ast.fix_missing_locations(ast.copy_location(vcall(kind, *a), n)), n)
        if len(n.generators) == 2 and not native and kind in ('listcomp', 'genexp') and not any(g.ifs or g.is_async for g in n.generators):
            a, b = n.generators
            p, q = self.fresh(), self.fresh()

            def lam2(e, *gens):
                inner = ast.Subscript(value=ast.ListComp(elt=self.visit(copy.deepcopy(e)), generators=[ast.comprehension(
                    target=self.visit(copy.deepcopy(g.target)), iter=ast.Tuple(elts=[name(v)], ctx=ast.Load()), ifs=[], is_async=0)
                    for g, v in zip(gens, (p, q))]), slice=const(0), ctx=ast.Load())
                return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for g, v in zip(gens, (p, q))], kwonlyargs=[], kw_defaults=[], defaults=[]), body=inner)
            x = vcall('comp2', const(kind), self.visit(a.iter), lam2(b.iter, a), lam2(n.elt, a, b))
            return ast.copy_location(ast.fix_missing_locations(ast.copy_location(x, n)), n)
        r = self.generic_visit(n)
        if kind == 'listcomp':
            return ast.copy_location(vcall('wraplist', r), n)
        return r

    def visit_ListComp(self, n):
        return self._comp(n, 'listcomp')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'genexp')

    def visit_DictComp(self, n):
        if len(n.generators) == 1 and not n.generators[0].is_async:
            g = ast.GeneratorExp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
            return ast.copy_location(ast.fix_missing_locations(ast.copy_location(vcall('dictcomp', self.generic_visit(g)), n)), n)
        return self.generic_visit(n)

    def visit_comprehension(self, n):
        n.iter = self.visit(n.iter)
        n.ifs = [self.visit(i) for i in n.ifs]
        n.target = self.visit(n.target)
        return n

    # ---- subscripts
    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(vcall('getitem', self.visit(n.value), self._slice(n.slice)), n)
        n.value = self.visit(n.value)
        n.slice = self.visit(n.slice) if not isinstance(n.slice, ast.Slice) else self.visit_Slice(n.slice)
        return n

    def visit_Slice(self, n):
        n.lower = self.visit(n.lower) if n.lower else None
        n.upper = self.visit(n.upper) if n.upper else None
        n.step = self.visit(n.step) if n.step else None
        return n

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            g = lambda e: self.visit(e) if e is not None else const(None)
            return vcall('slice_', g(s.lower), g(s.upper), g(s.step))
        return self.visit(s)

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(value=vcall('setitem', self.visit(t.value), self._slice(t.slice), n.value)), n)
        n.targets = [self.visit(t) for t in n.targets]
        return n

    def visit_AugAssign(self, n):
        v = self.visit(n.value)
        t = n.target
        if isinstance(t, ast.Subscript):
            o, i = self.fresh(), self.fresh()
            op = self._binop(n.op, vcall('getitem', name(o), name(i)), v)
            st = [ast.Assign(targets=[name(o, ast.Store())], value=self.visit(t.value)),
                  ast.Assign(targets=[name(i, ast.Store())], value=self._slice(t.slice)),
                  ast.Expr(value=vcall('setitem', name(o), name(i), op))]
            return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in st]
        if isinstance(n.op, ast.Mod):
            load = copy.deepcopy(t)
            load.ctx = ast.Load()
            return ast.fix_missing_locations(ast.copy_location(ast.Assign(targets=[t], value=vcall('mod', self.visit(load), v)), n))
        if isinstance(n.op, ast.Add) and isinstance(t, ast.Name):
            # str += engine string is native; keep native in-place semantics for everything else
            pass
        n.value = v
        n.target = self.visit(t)
        return n

    def _binop(self, op, a, b):
        if isinstance(op, ast.Mod):
            return vcall('mod', a, b)
        return ast.BinOp(left=a, op=op, right=b)

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(value=vcall('delitem', self.visit(t.value), self._slice(t.slice))), n))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[self.visit(t)]), n))
        return out

    # ---- operators
    def visit_BinOp(self, n):
        n.left = self.visit(n.left)
        n.right = self.visit(n.right)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(vcall('mod', n.left, n.right), n)
        return n

    def visit_Compare(self, n):
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = vcall('contains', self.visit(n.comparators[0]), self.visit(n.left))
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, n)
        n.left = self.visit(n.left)
        n.comparators = [self.visit(c) for c in n.comparators]
        if len(n.ops) == 1:
            op, b = n.ops[0], n.comparators[0]
            what = ('eq' if isinstance(op, ast.Eq) else 'ne' if isinstance(op, ast.NotEq) else
                    'is_' if isinstance(op, (ast.Is, ast.IsNot)) and any(isinstance(x, ast.Constant) and isinstance(x.value, bool) for x in (n.left, b)) else None)
            if what is not None:
                r = vcall(what, n.left, b)
                if isinstance(op, ast.IsNot):
                    r = ast.UnaryOp(op=ast.Not(), operand=r)
                return ast.copy_location(r, n)
        return n

    # ---- calls
    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, (str, bytes)) \
                and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            return ast.copy_location(vcall('strmeth', n.func.value, const(n.func.attr), *[self.visit(a) for a in n.args]), n)
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals') and not n.args:
            return n
        if isinstance(n.func, ast.Attribute) and n.func.attr in TEXT_METHODS:
            n.func = vcall('textmeth', self.visit(n.func.value), const(n.func.attr))
        else:
            n.func = self.visit(n.func)
        if any(isinstance(a, ast.Starred) for a in n.args):
            n.args = [self._star(a) for a in n.args]
            kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords]
            return ast.copy_location(ast.Call(func=ast.Attribute(value=name(V), attr='starcall', ctx=ast.Load()), args=[n.func] + n.args, keywords=kws), n)
        n.args = [self.visit(a) for a in n.args]
        n.keywords = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords]
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    def visit_Assert(self, n):
        n.test = self.visit(n.test)
        if n.msg is not None:
            n.msg = self.visit(n.msg)
        return n


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    t = Tr(modname)
    t.bound = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} | {x.arg for x in ast.walk(tree) if isinstance(x, ast.arg)}
    t.bound |= {x.name for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    t.bound |= {a.asname or a.name for x in ast.walk(tree) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')

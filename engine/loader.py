"""Mechanical extraction of /repo/src/mfpml on every run.

The text that is verified is the repository's own source, parsed with `ast`
and rewritten by the rules below only (what the extraction changes):
  * type annotations and docstrings are dropped;
  * decimal literals denote the exact decimal number (machine arithmetic is
    treated as real arithmetic);  a/b, a**b go through exact division / power;
  * list displays build the verifier's list type; list comprehensions with one
    generator go through `_vc.lc`;
  * for / while loops go through a loop driver (native iteration when the trip
    count is concrete, induction otherwise);
  * bare / handler clauses first call `_vc.caught` so that engine failures are
    never swallowed;
  * imported modules are the contracts in np_shim.py; `print`, `open`, plots
    and clocks have no effect on the verified state.
"""
import ast
import hashlib
import os
import sys
import types
import ctx as CX
import ir
from ir import Unsupported
import vc
import np_shim

SRC = os.environ.get('NPVC_SRC', '/repo/src')


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.fn = ['<module>']
        self.infunc = 0

    def call(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id='_vc', ctx=ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def visit_FunctionDef(self, node):
        node.returns = None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        self.fn.append(node.name)
        self.infunc += 1
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            body = body[1:] or [ast.Pass()]
        node.body = body
        self.generic_visit(node)
        self.infunc -= 1
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        inf, self.infunc = self.infunc, 0
        self.generic_visit(node)
        self.infunc = inf
        self.fn.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        n = ast.Assign(targets=[node.target], value=node.value)
        return self.visit(ast.copy_location(n, node))

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            r = repr(node.value)
            if r in ('inf', 'nan'):
                return self.call('bigfloat')
            return ast.copy_location(self.call('C', ast.Constant(value=r)), node)
        if isinstance(node.value, complex):
            return self.call('C', ast.Constant(value='1j'))
        return node

    def visit_JoinedStr(self, node):
        return ast.copy_location(ast.Constant(value='<fstring>'), node) if self._pure(node) else node

    def _pure(self, node):
        # formatted values that only read attributes / subscripts / names
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                for s in ast.walk(v.value):
                    if isinstance(s, (ast.Call, ast.Await, ast.NamedExpr, ast.Yield)):
                        # method calls such as .flatten() are read-only on arrays
                        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in (
                                'flatten', 'ravel', 'item', 'tolist', 'squeeze'):
                            continue
                        return False
        return True

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(self.call('div', node.left, node.right), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(self.call('pow_', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Pow)):
            ld = ast.parse(ast.unparse(node.target), mode='eval').body
            fn = 'idiv' if isinstance(node.op, ast.Div) else 'ipow'
            return ast.copy_location(ast.Assign(targets=[node.target], value=self.call(fn, ld, node.value)), node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self.call('L', node), node)
        return node

    def _comp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and not node.generators[0].is_async:
            g = node.generators[0]
            if isinstance(g.target, ast.Name):
                f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[],
                                                  kw_defaults=[], defaults=[]), body=node.elt)
                return ast.copy_location(self.call('lc', f, g.iter), node)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e.id) for e in g.target.elts],
                                                  kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.elt)
                return ast.copy_location(self.call('lc', self.call('star', f), g.iter), node)
        if isinstance(node, ast.ListComp):
            return ast.copy_location(self.call('L', node), node)
        return node

    visit_ListComp = _comp
    visit_GeneratorExp = _comp

    # ---- loops
    @staticmethod
    def assigned(stmts):
        """local names (re)bound in the statements, in order"""
        out = {}

        class V(ast.NodeVisitor):
            def visit_Name(self, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    out[n.id] = 1

            def visit_FunctionDef(self, n):
                out[n.name] = 1

            def visit_Lambda(self, n):
                pass

            def visit_ListComp(self, n):
                pass

            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

            def visit_ExceptHandler(self, n):
                if n.name:
                    out[n.name] = 1
                self.generic_visit(n)
        v = V()
        for s in stmts:
            v.visit(s)
        return [k for k in out if not k.startswith('_vc')]

    def loopid(self, node):
        self.n += 1
        return '%s:%s#%d' % (self.mod, '.'.join(self.fn[1:]), self.n)

    def _names(self, names):
        """statement: (a, b,) = _vc_L.vals()"""
        if not names:
            return ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=self._cur, ctx=ast.Load()),
                                                              attr='vals', ctx=ast.Load()), args=[], keywords=[]))
        return ast.Assign(
            targets=[ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in names], ctx=ast.Store())],
            value=ast.Call(func=ast.Attribute(value=ast.Name(id=self._cur, ctx=ast.Load()), attr='vals',
                                              ctx=ast.Load()), args=[], keywords=[]))

    def visit_For(self, node):
        lid = self.loopid(node)
        names = self.assigned([node])
        self.generic_visit(node)
        self._cur = var = '_vc_L%d' % int(lid.rsplit('#')[-1])
        mk = ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())],
                        value=self.call('forloop', ast.Constant(value=lid), node.iter,
                                        ast.Tuple(elts=[ast.Constant(value=n) for n in names], ctx=ast.Load())))
        test = ast.Call(func=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='next', ctx=ast.Load()),
                        args=[], keywords=[])
        head = [self._names(names),
                ast.Assign(targets=[node.target],
                           value=ast.Call(func=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='item',
                                                             ctx=ast.Load()), args=[], keywords=[]))]
        w = ast.While(test=test, body=head + node.body, orelse=[self._names(names)] + node.orelse)
        return [ast.copy_location(mk, node), ast.copy_location(w, node)]

    def visit_While(self, node):
        lid = self.loopid(node)
        names = self.assigned(node.body)
        self.generic_visit(node)
        self._cur = var = '_vc_L%d' % int(lid.rsplit('#')[-1])
        mk = ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())],
                        value=self.call('whileloop', ast.Constant(value=lid),
                                        ast.Tuple(elts=[ast.Constant(value=n) for n in names], ctx=ast.Load())))
        # while L.next(): names = L.vals(); if not L.test(cond): L.exit -> break
        nxt = ast.Call(func=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='next', ctx=ast.Load()),
                       args=[], keywords=[])
        flag = var + 'x'
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=ast.Call(
            func=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='test', ctx=ast.Load()),
            args=[node.test], keywords=[])),
            body=[ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr='leave',
                                                             ctx=ast.Load()), args=[], keywords=[]))] +
            node.orelse + [ast.Break()], orelse=[])
        w = ast.While(test=nxt, body=[self._names(names), test] + node.body, orelse=[])
        return [ast.copy_location(mk, node), ast.copy_location(w, node)]

    def visit_Try(self, node):
        self.generic_visit(node)
        for h in node.handlers:
            if h.type is None:
                h.type = ast.Name(id='Exception', ctx=ast.Load())
            nm = h.name
            if nm is None:
                h.name = nm = '_vc_e'
            h.body.insert(0, ast.Expr(value=self.call('caught', ast.Name(id=nm, ctx=ast.Load()))))
        return node


class Registry:
    """modules of the extracted package (fresh per verifier instance)"""

    def __init__(self, overrides=None, src=None):
        self.src = src or SRC
        self.mods = {}
        self.ext = np_shim.build()
        self.overrides = overrides or {}      # (module, name) -> object
        self.hashes = {}
        self.builtins = vc.make_builtins(self.imp)
        self.functions = set()

    def path(self, name):
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def exists(self, name):
        p, _ = self.path(name)
        return os.path.exists(p)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        path, pkg = self.path(name)
        m = types.ModuleType(name)
        self.mods[name] = m
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_vc'] = self.vcns()
        m.__package__ = name if pkg else name.rsplit('.', 1)[0]
        m.__file__ = path
        if os.path.exists(path):
            code = self.compile(name, path)
            exec(code, m.__dict__)
        for k, v in list(m.__dict__.items()):
            if isinstance(v, type) and getattr(v, '__module__', None) == name and not issubclass(v, BaseException):
                try:
                    v._vc_user = True
                except (AttributeError, TypeError):
                    pass
        for (mn, attr), v in self.overrides.items():
            if mn == name and ':' in attr:          # 'module:Name': whatever name it is imported under
                sm, nm = attr.split(':')
                o = getattr(self.load(sm), nm)
                for k in [k for k, x in m.__dict__.items() if x is o]:
                    m.__dict__[k] = v
            elif mn == name:
                m.__dict__[attr] = v
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            setattr(self.mods[par], ch, m)
        return m

    def vcns(self):
        import explore
        ns = types.SimpleNamespace(
            div=vc.div, pow_=vc.pow_, C=vc.C, L=vc.L, lc=vc.lc, idiv=vc.idiv, ipow=vc.ipow, caught=vc.caught,
            forloop=explore.forloop, whileloop=explore.whileloop, star=lambda f: (lambda t: f(*t)),
            bigfloat=lambda: vc.InfT(1))
        return ns

    _codes = {}

    def compile(self, name, path):
        st = open(path).read()
        h = hashlib.sha256(st.encode()).hexdigest()
        self.hashes[name] = h
        key = (name, h)
        c = Registry._codes.get(key)
        if c is None:
            try:
                tree = ast.parse(st, path)
            except SyntaxError as e:
                raise Unsupported('syntax error in %s: %s' % (path, e))
            tree = Rewriter(name).visit(tree)
            ast.fix_missing_locations(tree)
            c = Registry._codes[key] = compile(tree, 'npvc:' + path, 'exec')
        return c

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name.split('.')[0] == 'mfpml':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and self.exists(name + '.' + f):
                        self.load(name + '.' + f)
                return m
            return self.load('mfpml')
        m = self.ext.get(name)
        if m is None:
            raise Unsupported('import of %s' % name)
        if fromlist:
            return _Nodunder(m)
        return self.ext[name.split('.')[0]]


class _Nodunder:
    """from-import view of a contract module"""

    def __init__(self, m):
        self.__dict__['_m'] = m

    def __getattr__(self, k):
        if k.startswith('__') and k != '__name__':
            raise AttributeError(k)
        return getattr(self._m, k)

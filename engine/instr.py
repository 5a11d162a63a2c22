"""Loads python modules with the operations the engine must see redirected.

The source is read afresh from disk on every run and transformed on the syntax
tree; the meaning for concrete operands is unchanged.
"""
import ast, sys, os, importlib.abc, importlib.machinery, importlib.util

DIRECT = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}
FUNCS = []          # (module, qualname) by index; entry bitmap positions


class T(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.mod = modname
        self.track = track
        self.cls = []
        self.qual = []

    def S(self, name, args, node):
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name('__S__', ast.Load()), attr=name, ctx=ast.Load()),
            args=args, keywords=[]), node)

    def mangle(self, n):
        if n.startswith('__') and not n.endswith('__') and self.cls:
            c = self.cls[-1].lstrip('_')
            if c:
                return '_' + c + n
        return n

    # definitions
    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.qual.append(node.name)
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(b) for b in node.keywords]
        node.decorator_list = [self.visit(b) for b in node.decorator_list]
        body = []
        for b in node.body:
            r = self.visit(b)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        node.body = body
        self.qual.pop()
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        node.args = self.visit_args(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        for b in node.body:
            r = self.visit(b)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        if self.track:
            n = len(FUNCS)
            FUNCS.append((self.mod, '.'.join(self.qual)))
            e = ast.Expr(self.S('enter', [ast.Constant(n)], node))
            ast.copy_location(e, node)
            i = 1 if body and isinstance(body[0], ast.Expr) and \
                isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
            body.insert(i, e)
        node.body = body
        self.qual.pop()
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d if d is None else self.visit(d) for d in a.kw_defaults]
        return a

    def visit_Lambda(self, node):
        node.args = self.visit_args(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in DIRECT and not (f.id == 'super' and node.args):
            return node
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == '__S__':
            return node
        if isinstance(f, ast.Attribute):
            n = self.S('callm', [f.value, ast.Constant(self.mangle(f.attr))] + node.args, node)
        else:
            n = self.S('call', [f] + node.args, node)
        n.keywords = node.keywords
        return n

    def visit_Compare(self, node):
        self.generic_visit(node)
        names = {ast.In: 'c_in', ast.NotIn: 'c_notin', ast.Is: 'c_is', ast.IsNot: 'c_isnot',
                 ast.Eq: 'c_eq', ast.NotEq: 'c_ne', ast.Lt: 'c_lt', ast.LtE: 'c_le',
                 ast.Gt: 'c_gt', ast.GtE: 'c_ge'}
        if len(node.ops) == 1:
            op = type(node.ops[0])
            r = node.comparators[0]
            if op in (ast.Is, ast.IsNot) and isinstance(r, ast.Constant) and r.value is None:
                return node
            return self.S(names[op], [node.left, r], node)
        lam = lambda e: ast.copy_location(ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e), node)
        pairs = []
        for op, c in zip(node.ops, node.comparators):
            pairs.append(ast.copy_location(ast.Tuple([
                ast.Attribute(ast.Name('__S__', ast.Load()), names[type(op)], ast.Load()), lam(c)],
                ast.Load()), node))
        return self.S('chain', [node.left] + pairs, node)

    BIN = {ast.Mod: '%', ast.BitOr: '|', ast.BitAnd: '&', ast.Sub: '-', ast.BitXor: '^', ast.Add: '+',
           ast.Mult: '*'}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if type(node.op) in self.BIN:
            return self.S('binop', [ast.Constant(self.BIN[type(node.op)]), node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        t = node.target
        node.value = self.visit(node.value)
        if isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
            if isinstance(t.slice, ast.Slice):
                return node
            return ast.copy_location(ast.Expr(self.S('iitem', [
                ast.Constant(type(node.op).__name__), t.value, t.slice, node.value], node)), node)
        if type(node.op) not in self.BIN:
            return node
        name = ast.Constant(self.BIN[type(node.op)])
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(
                [ast.Name(t.id, ast.Store())],
                self.S('iop', [name, ast.copy_location(ast.Name(t.id, ast.Load()), node), node.value], node)), node)
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
            return ast.copy_location(ast.Expr(self.S('iattr', [
                name, t.value, ast.Constant(self.mangle(t.attr)), node.value], node)), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or isinstance(node.slice, ast.Slice):
            return node
        if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
            return node
        return self.S('getitem', [node.value, node.slice], node)

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            # evaluation order: value first
            v = self.visit(node.value)
            o = self.visit(t.value)
            k = self.visit(t.slice)
            return ast.copy_location(ast.Expr(self.S('setitem', [v, o, k], node)), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                o = self.visit(t.value)
                k = self.visit(t.slice)
                out.append(ast.copy_location(ast.Expr(self.S('delitem', [o, k], node)), node))
            else:
                out.append(ast.copy_location(ast.Delete([self.visit(t)]), node))
        return out if len(out) > 1 else out[0]

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return self.S('mkdict', [ast.copy_location(ast.List([
            ast.copy_location(ast.Tuple([k, v], ast.Load()), node)
            for k, v in zip(node.keys, node.values)], ast.Load()), node)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self.S('mkdict', [ast.copy_location(ast.ListComp(
            ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node),
            node.generators), node)], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return self.S('mkset', [ast.copy_location(ast.List(node.elts, ast.Load()), node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.S('mkset', [ast.copy_location(ast.ListComp(node.elt, node.generators), node)], node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.copy_location(ast.Tuple([
                    val, ast.Constant(v.conversion), spec], ast.Load()), node))
        return self.S('fstr', parts, node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name('Exception', ast.Load()), node)
        return node


def compile_source(src, path, modname, track):
    tree = ast.parse(src, path)
    tree = T(modname, track).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, track):
        self.name = name
        self.path = path
        self.track = track

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import ops
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = compile_source(src, self.path, self.name, self.track)
        module.__dict__['__S__'] = ops
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """packages: {top level name: (directory containing it, track entries?)}"""

    def __init__(self, packages):
        self.packages = packages

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.packages:
            return None
        base, track = self.packages[top]
        p = os.path.join(base, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            spec = importlib.util.spec_from_file_location(
                name, f, loader=Loader(name, f, track), submodule_search_locations=[p])
            return spec
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f, track))
        return None


def install(packages):
    sys.meta_path.insert(0, Finder(packages))

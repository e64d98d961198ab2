"""Load modules with every operation that C code would perform routed through engine.rt (as `_sx`)."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SX = '_sx'


def _name(n):
    return ast.Attribute(ast.Name(SX, ast.Load()), n, ast.Load())


def _call(n, *args):
    return ast.Call(_name(n), list(args), [])


SIMPLE_OPS = (ast.Add, ast.Sub, ast.BitXor, ast.BitAnd, ast.BitOr, ast.Mult, ast.LShift, ast.RShift)


def simple(e, subs=False):
    """expression that can be evaluated eagerly: no calls, no division, no subscripts (unless subs)"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.UnaryOp):
        return not isinstance(e.op, ast.Not) and simple(e.operand, subs)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, SIMPLE_OPS) and simple(e.left, subs) and simple(e.right, subs)
    if subs and isinstance(e, ast.Subscript):
        return isinstance(e.value, ast.Name) and not isinstance(e.slice, ast.Slice) and simple(e.slice)
    return False


def peeks(nodes):
    """a lambda telling if all subscripts in the nodes can be evaluated without side effect or exception (None: there are none)"""
    subs = [x for n in nodes for x in ast.walk(n) if isinstance(x, ast.Subscript)]
    if not subs:
        return None
    args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
    return ast.Lambda(args, ast.BoolOp(ast.And(), [_call('peek', ast.Name(x.value.id, ast.Load()), x.slice) for x in subs])
                      if len(subs) > 1 else _call('peek', ast.Name(subs[0].value.id, ast.Load()), subs[0].slice))


class T(ast.NodeTransformer):
    def __init__(self, modname, merge=True):
        self.qual = [modname]
        self.merge = merge
        self.cnt = 0

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        doc = ast.get_docstring(node, clean=False)
        args = node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = node.body
        head = []
        if doc is not None:
            head, body = body[:1], body[1:]
        nb = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                nb.extend(r)
            elif r is not None:
                nb.append(r)
        enter = ast.Expr(_call('enter', ast.Constant('.'.join(self.qual))))
        node.body = head + [enter] + nb
        self.qual.pop()
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.generic_visit(node)
        self.qual.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars') and not node.args:
            return node
        self.generic_visit(node)
        return ast.Call(_name('call'), [node.func] + node.args, node.keywords)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            op = node.ops[0]
            self.generic_visit(node)
            if isinstance(op, ast.In):
                return _call('in_', node.left, node.comparators[0])
            if isinstance(op, ast.NotIn):
                return _call('not_', _call('in_', node.left, node.comparators[0]))
            if isinstance(op, ast.Eq):
                return _call('eq', node.left, node.comparators[0])
            if isinstance(op, ast.NotEq):
                return _call('ne', node.left, node.comparators[0])
            if isinstance(op, (ast.Is, ast.IsNot)) and not any(
                    isinstance(x, ast.Constant) and not isinstance(x.value, bool) for x in (node.left, node.comparators[0])):
                r = _call('is_', node.left, node.comparators[0])
                return _call('not_', r) if isinstance(op, ast.IsNot) else r
            return node
        if all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in node.ops) and \
                all(self.pure(c) for c in [node.left] + node.comparators):
            self.generic_visit(node)
            ops = ast.Tuple([ast.Constant(type(o).__name__) for o in node.ops], ast.Load())
            return _call('chain', ops, node.left, *node.comparators)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            raise SyntaxError('unsupported chained membership')
        self.generic_visit(node)
        return node

    def pure(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('ord', 'len') and \
                len(e.args) == 1 and not e.keywords:
            return self.pure(e.args[0])
        if isinstance(e, ast.Attribute):
            return self.pure(e.value)
        return simple(e)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _call('not_', node.operand)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call('mod', node.left, node.right)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return _call('slice', s.lower or none, s.upper or none, s.step or none)
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            raise SyntaxError('unsupported slice tuple')
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call('getitem', node.value, self._slice(node.slice))
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_call(
                'setitem', self.visit(node.value), self.visit(t.value), self._slice(self._vs(t.slice)))), node)
        self.generic_visit(node)
        return node

    def _vs(self, s):
        if isinstance(s, ast.Slice):
            self.generic_visit(s)
            return s
        return self.visit(s)

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Subscript):
            return ast.Expr(_call('augitem', self.visit(t.value), self._slice(self._vs(t.slice)),
                                  ast.Constant(type(node.op).__name__), self.visit(node.value)))
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            if isinstance(t, ast.Name):
                return ast.Assign([ast.Name(t.id, ast.Store())], _call('mod', ast.Name(t.id, ast.Load()), node.value))
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call('delitem', self.visit(t.value), self._slice(self._vs(t.slice)))))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return _call('fstr', *parts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return _call('mkdict', ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call('mkdict', ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return _call('mkset', ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call('mkset', ast.ListComp(node.elt, node.generators))

    def visit_IfExp(self, node):
        s = simple(node.body) and simple(node.orelse)
        self.generic_visit(node)
        if s and self.merge:
            return _call('ifexp', node.test, node.body, node.orelse)
        return node

    def visit_If(self, node):
        def updates(s):
            if isinstance(s, ast.AugAssign):
                return isinstance(s.target, ast.Name) and isinstance(s.op, SIMPLE_OPS) and simple(s.value, True)
            return (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and simple(s.value, True)
                    and any(isinstance(x, ast.Name) and x.id == s.targets[0].id for x in ast.walk(s.value)))
        ok = self.merge and not node.orelse and all(updates(s) for s in node.body)
        if ok:
            import copy
            values = [s.value for s in node.body]
            set_ = {(s.target if isinstance(s, ast.AugAssign) else s.targets[0]).id for s in node.body}
            # subscripts must not depend on what the body assigns
            ok = not any(isinstance(x, ast.Subscript) and any(isinstance(y, ast.Name) and y.id in set_ for y in ast.walk(x))
                         for v in values for x in ast.walk(v))
        if not ok:
            self.generic_visit(node)
            return node
        names = []
        for s in node.body:
            t = s.target if isinstance(s, ast.AugAssign) else s.targets[0]
            if t.id not in names:
                names.append(t.id)
        self.cnt += 1
        c = '_sx_c%d' % self.cnt
        test = self.visit(node.test)
        pk = peeks(copy.deepcopy(values))
        out = [ast.Assign([ast.Name(c, ast.Store())], _call('cond', test, pk or ast.Constant(None), *[ast.Name(n, ast.Load()) for n in names]))]
        body = [self.visit(s) for s in node.body]
        sv = ['_sx_s%d_%s' % (self.cnt, n) for n in names]
        # if cond is a plain bool: original behaviour, otherwise evaluate and merge
        merged = [ast.Assign([ast.Name(s, ast.Store())], ast.Name(n, ast.Load())) for s, n in zip(sv, names)]
        merged += copy.deepcopy(body)
        merged += [ast.Assign([ast.Name(n, ast.Store())], _call('merge', ast.Name(c, ast.Load()), ast.Name(n, ast.Load()),
                                                                ast.Name(s, ast.Load()))) for s, n in zip(sv, names)]
        out.append(ast.If(ast.Compare(ast.Name(c, ast.Load()), [ast.Is()], [ast.Constant(True)]), body,
                          [ast.If(ast.Compare(ast.Name(c, ast.Load()), [ast.IsNot()], [ast.Constant(False)]),
                                  merged, [])]))
        return out


def transform(src, filename, modname, merge=True):
    tree = ast.parse(src, filename)
    tree = T(modname, merge).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path, modname):
        self.path = path
        self.modname = modname

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rt
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        short = self.modname
        code = transform(src, self.path, short)
        module.__dict__[SX] = rt
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # package name -> directory containing it

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *name.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            if not os.path.exists(p):
                return None
            spec = importlib.util.spec_from_file_location(name, p, loader=Loader(p, name),
                                                          submodule_search_locations=[base])
            return spec
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, name))
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))

"""Rewrites the sources of a copy of the repository without changing what they do, to confirm that the checks stay quiet:
formatting lost, comprehensions used as statements turned into loops, branches swapped, results through a local variable,
locals renamed; or (--helpers) the body of every method moved to a helper, independent assignments to attributes swapped, loops over an
iterator, objects with one more attribute. Usage: refactor.py COPY [--helpers]"""
import ast
import glob
import os
import sys


def boolean(t):
    """Certainly a bool (so that `not` is its opposite)."""
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)) or \
        isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) or isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in (
            'isinstance', 'all', 'any', 'hasattr')


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self):
        self.n += 1
        return 'tmp_%d' % self.n

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        v = self.fresh()
        return [ast.Assign([ast.Name(v, ast.Store())], node.value, lineno=0), ast.Return(ast.Name(v, ast.Load()))]

    def visit_Assign(self, node):
        self.generic_visit(node)
        v = node.value
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id == '_' and isinstance(v, ast.ListComp):
            body = [ast.Expr(v.elt)]
            for g in reversed(v.generators):
                for i in reversed(g.ifs):
                    body = [ast.If(i, body, [])]
                body = [ast.For(g.target, g.iter, body, [], lineno=0)]
            return body
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and boolean(node.test):
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        src = ast.unparse(node)
        if 'exec(' in src or 'eval(' in src or 'locals()' in src or 'global ' in src:
            return node
        a = node.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        inner = [n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node]
        if inner:
            return node
        stored = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in stored:
                n.id = n.id + '_r'
            if isinstance(n, ast.ExceptHandler) and n.name in stored:
                n.name += '_r'
        return node


def simple(v):
    """Evaluated without calling anything."""
    return all(isinstance(n, (ast.Name, ast.Constant, ast.Load, ast.List, ast.Dict)) for n in ast.walk(v))


def attribute(st):
    return isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and \
        isinstance(st.targets[0].value, ast.Name) and st.targets[0].value.id == 'self' and simple(st.value)


class Helpers(ast.NodeTransformer):
    def swap(self, body):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            if attribute(out[i]) and attribute(out[i + 1]) and out[i].targets[0].attr != out[i + 1].targets[0].attr:
                out[i], out[i + 1] = out[i + 1], out[i]
                i += 1
            i += 1
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.swap(b))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not node.orelse:
            node.iter = ast.Call(ast.Name('iter', ast.Load()), [ast.Call(ast.Name('list', ast.Load()), [node.iter], [])], [])
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        out = []
        for st in node.body:
            out.append(st)
            if not isinstance(st, ast.FunctionDef) or st.decorator_list or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(st)):
                continue
            a = st.args
            if not a.args or a.args[0].arg != 'self' or a.posonlyargs:
                continue
            name = '_%s_%s_body' % (node.name.strip('_'), st.name.strip('_'))
            args = ast.arguments([], [ast.arg(x.arg) for x in a.args], a.vararg, [ast.arg(x.arg) for x in a.kwonlyargs], [None] * len(a.kwonlyargs), a.kwarg, [])
            body = st.body
            if st.name == '__init__':
                body = body + [ast.parse('self._marks_of_%s = 0' % node.name.strip('_')).body[0]]
            out.append(ast.FunctionDef(name, args, body, [], lineno=0))
            call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()),
                            [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
            st.body = [ast.Return(call)]
        node.body = out
        return node


def main(copy, T=T):
    for f in glob.glob(os.path.join(copy, 'src/sloth/**/*.py'), recursive=True):
        s = open(f, errors='surrogateescape').read()
        try:
            t = ast.parse(s)
        except SyntaxError:
            continue
        t = ast.fix_missing_locations(T().visit(t))
        out = ast.unparse(t) + '\n'
        compile(out, f, 'exec')
        open(f, 'w', errors='surrogateescape').write(out)


main(sys.argv[1], Helpers if '--helpers' in sys.argv else T)
